// Package simmisc replaces assorted functions whose results depend on the
// process: runtime statistics, the global random source, printing.
package simmisc

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
	"time"

	"vsim/rt"
)

// MemAt, GCAt and CgoAt define the statistics the simulated runtime reports, as
// functions of simulated time, so that a harness can tell what was read.
func MemAt(ns int64) runtime.MemStats {
	k := uint64(ns/1e6) + 17
	return runtime.MemStats{Alloc: 1_000_000 + k*3, TotalAlloc: 2_000_000 + k*5, Sys: 9_000_000 + k, HeapAlloc: 700_000 + k*7, HeapObjects: 5_000 + k,
		Mallocs: 10_000 + k, Frees: 4_000 + k, PauseTotalNs: 300_000 + k*11, NumGC: uint32(40 + k/100), NextGC: 4_000_000 + k*13, GCCPUFraction: 0.001 + float64(k%1000)/1e6,
		StackInuse: 12345, HeapInuse: 800_000 + k, HeapSys: 8_500_000, LastGC: k}
}

func GCQuantiles(ns int64) []time.Duration {
	k := time.Duration(ns / 1e6 % 100000)
	return []time.Duration{10_000 + k, 20_500 + 2*k, 50_000 + 3*k, 100_250 + 5*k, 900_750 + 7*k}
}

func CgoAt(ns int64) int64 { return 3 + ns/1e8 }

func now() int64 {
	if rt.S == nil {
		return 0
	}
	return rt.S.Now()
}

func ReadMemStats(m *runtime.MemStats) { rt.Y(); *m = MemAt(now()) }

func ReadGCStats(s *debug.GCStats) {
	rt.Y()
	q := GCQuantiles(now())
	m := MemAt(now())
	s.NumGC = int64(m.NumGC)
	s.PauseTotal = time.Duration(m.PauseTotalNs)
	n := len(s.PauseQuantiles)
	if n == 0 {
		return
	}
	for i := 0; i < n; i++ {
		j := 0
		if n > 1 {
			j = i * (len(q) - 1) / (n - 1)
		}
		s.PauseQuantiles[i] = q[j]
	}
}

func NumGoroutine() int {
	if rt.S == nil {
		return 1
	}
	return rt.S.LiveOn(rt.S.CurNode())
}
func NumCgoCall() int64 { return CgoAt(now()) }
func Gosched()          { rt.Yield() }
func GC()               { rt.Yield() }

func Print(a ...any) (int, error)            { s := fmt.Sprint(a...); return len(s), nil }
func Println(a ...any) (int, error)          { s := fmt.Sprintln(a...); return len(s), nil }
func Printf(f string, a ...any) (int, error) { s := fmt.Sprintf(f, a...); return len(s), nil }

func r64() uint64 {
	if rt.S == nil {
		return 4
	}
	a := uint64(rt.S.Choose(1<<30, rt.KRand))
	b := uint64(rt.S.Choose(1<<30, rt.KRand))
	return a<<34 ^ b<<4 ^ a>>26
}

func RandInt() int             { return int(r64() >> 1) }
func RandIntn(n int) int       { return int(r64()>>1) % n }
func RandInt63() int64         { return int64(r64() >> 1) }
func RandInt63n(n int64) int64 { return int64(r64()>>1) % n }
func RandInt31() int32         { return int32(r64() >> 33) }
func RandInt31n(n int32) int32 { return int32(r64()>>33) % n }
func RandUint32() uint32       { return uint32(r64() >> 32) }
func RandUint64() uint64       { return r64() }
func RandFloat64() float64     { return float64(r64()>>11) / (1 << 53) }
func RandFloat32() float32     { return float32(r64()>>40) / (1 << 24) }
func RandSeed(int64)           {}
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := RandIntn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}

func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K]    { return rt.MapKeys(m) }
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V]  { return rt.MapValues(m) }
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return rt.MapIter(m) }
