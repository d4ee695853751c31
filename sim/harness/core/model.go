package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
)

// The reference model of an aggregation: plain sums over emissions.

type tim struct {
	Count, Sum int64
	Sq         float64
	Min, Max   int64
}

func (t *tim) add(n int64) {
	t.Count++
	t.Sum += n
	t.Sq += float64(n) * float64(n)
	if t.Count == 1 || n < t.Min {
		t.Min = n
	}
	if t.Count == 1 || n > t.Max {
		t.Max = n
	}
}

type amaps struct {
	Timers map[string]tim
	Gauges map[string]float64
	Events map[string]int64
	Errs   map[string]int64
}

func newMaps() amaps {
	return amaps{map[string]tim{}, map[string]float64{}, map[string]int64{}, map[string]int64{}}
}

type jobS struct {
	amaps
	T  tim
	Cs [5]int64
}

type intS struct {
	Start  int64 // unix ns
	Serial int64
	amaps
	Jobs map[string]*jobS
}

func newInt(start int64) *intS {
	return &intS{Start: start, amaps: newMaps(), Jobs: map[string]*jobS{}}
}

func (m *amaps) apply(r *Rec) {
	switch r.Kind {
	case "event":
		m.Events[r.Event]++
	case "err":
		m.Errs[r.Event]++
	case "timing":
		t := m.Timers[r.Event]
		t.add(r.Nanos)
		m.Timers[r.Event] = t
	case "gauge":
		m.Gauges[r.Event] = r.Value
	}
}

func (m *intS) apply(r *Rec) {
	j := m.Jobs[r.Job]
	if j == nil {
		j = &jobS{amaps: newMaps()}
		m.Jobs[r.Job] = j
	}
	if r.Kind == "complete" {
		j.T.add(r.Nanos)
		j.Cs[int(r.Status)]++
		return
	}
	m.amaps.apply(r)
	j.amaps.apply(r)
}

func slot(wallNs int64, iv time.Duration) int64 {
	return time.Unix(0, wallNs).Truncate(iv).UnixNano()
}

// fromHealth copies a library value into the model's types.
func fromHealth(ia *health.IntervalAggregation) *intS {
	b, err := json.Marshal(sanitised(ia))
	if err != nil {
		return &intS{Start: -1}
	}
	r, err := intFromJSON(b)
	if err != nil {
		return &intS{Start: -2}
	}
	return r
}

// sanitised avoids a failing Marshal on non-finite gauges.
func sanitised(ia *health.IntervalAggregation) *health.IntervalAggregation {
	bad := func(m map[string]float64) bool {
		for _, v := range m {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return true
			}
		}
		return false
	}
	any := bad(ia.Gauges)
	for _, j := range ia.Jobs {
		any = any || bad(j.Gauges)
	}
	if !any {
		return ia
	}
	d := ia.Clone()
	fix := func(m map[string]float64) {
		for k, v := range m {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				delete(m, k)
			}
		}
	}
	fix(d.Gauges)
	for _, j := range d.Jobs {
		fix(j.Gauges)
	}
	return d
}

// the documented wire format
type wTimer struct {
	Count           int64   `json:"count"`
	NanosSum        int64   `json:"nanos_sum"`
	NanosSumSquares float64 `json:"nanos_sum_squares"`
	NanosMin        int64   `json:"nanos_min"`
	NanosMax        int64   `json:"nanos_max"`
}
type wErr struct {
	Count int64 `json:"count"`
}
type wMaps struct {
	Timers    map[string]wTimer  `json:"timers"`
	Gauges    map[string]float64 `json:"gauges"`
	Events    map[string]int64   `json:"events"`
	EventErrs map[string]wErr    `json:"event_errs"`
}
type wJob struct {
	wMaps
	wTimer
	CountSuccess         int64 `json:"count_success"`
	CountValidationError int64 `json:"count_validation_error"`
	CountPanic           int64 `json:"count_panic"`
	CountError           int64 `json:"count_error"`
	CountJunk            int64 `json:"count_junk"`
}
type wInt struct {
	IntervalStart time.Time       `json:"interval_start"`
	SerialNumber  int64           `json:"serial_number"`
	Jobs          map[string]wJob `json:"jobs"`
	wMaps
}
type wResp struct {
	InstanceId       string `json:"instance_id"`
	IntervalDuration int64  `json:"interval_duration"`
	Aggregations     []wInt `json:"aggregations"`
}

func (t wTimer) conv() tim {
	return tim{t.Count, t.NanosSum, t.NanosSumSquares, t.NanosMin, t.NanosMax}
}
func (m *wMaps) conv() amaps {
	r := newMaps()
	for k, v := range m.Timers {
		r.Timers[k] = v.conv()
	}
	for k, v := range m.Gauges {
		r.Gauges[k] = v
	}
	for k, v := range m.Events {
		r.Events[k] = v
	}
	for k, v := range m.EventErrs {
		r.Errs[k] = v.Count
	}
	return r
}
func (w *wInt) conv() *intS {
	r := newInt(w.IntervalStart.UnixNano())
	r.Serial = w.SerialNumber
	r.amaps = w.wMaps.conv()
	for k, v := range w.Jobs {
		r.Jobs[k] = &jobS{amaps: v.wMaps.conv(), T: v.wTimer.conv(), Cs: [5]int64{v.CountSuccess, v.CountValidationError, v.CountPanic, v.CountError, v.CountJunk}}
	}
	return r
}

func intFromJSON(b []byte) (*intS, error) {
	var w wInt
	if err := json.Unmarshal(b, &w); err != nil {
		return nil, err
	}
	return w.conv(), nil
}

// ---- comparison ----

func keysOf[V any](a, b map[string]V) []string {
	m := map[string]bool{}
	for k := range a {
		m[k] = true
	}
	for k := range b {
		m[k] = true
	}
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func diffTim(a, b tim) string {
	if a.Count != b.Count || a.Sum != b.Sum || !kit.Eq(a.Sq, b.Sq) || a.Min != b.Min || a.Max != b.Max {
		return fmt.Sprintf("{count %d sum %d sumsq %g min %d max %d}, want {count %d sum %d sumsq %g min %d max %d}", a.Count, a.Sum, a.Sq, a.Min, a.Max, b.Count, b.Sum, b.Sq, b.Min, b.Max)
	}
	return ""
}

type filter func(name string) bool

func diffMaps(g, w *amaps, where string, skip filter, gauges bool) string {
	for _, k := range keysOf(g.Events, w.Events) {
		if g.Events[k] != w.Events[k] && !skip(k) {
			return fmt.Sprintf("%s event %q: %d, want %d", where, short(k), g.Events[k], w.Events[k])
		}
	}
	for _, k := range keysOf(g.Errs, w.Errs) {
		if g.Errs[k] != w.Errs[k] && !skip(k) {
			return fmt.Sprintf("%s error event %q: %d, want %d", where, short(k), g.Errs[k], w.Errs[k])
		}
	}
	for _, k := range keysOf(g.Timers, w.Timers) {
		if d := diffTim(g.Timers[k], w.Timers[k]); d != "" && !skip(k) {
			return fmt.Sprintf("%s timer %q: %s", where, short(k), d)
		}
	}
	if gauges {
		for _, k := range keysOf(g.Gauges, w.Gauges) {
			a, ok1 := g.Gauges[k]
			b, ok2 := w.Gauges[k]
			if (a != b || ok1 != ok2) && !skip(k) {
				return fmt.Sprintf("%s gauge %q: %v (present %v), want %v (present %v)", where, short(k), a, ok1, b, ok2)
			}
		}
	}
	return ""
}

// diffInt compares an observed interval with the expected one; names for which
// skip is true are left out.
func diffInt(g, w *intS, skip filter, gauges bool) string {
	if skip == nil {
		skip = func(string) bool { return false }
	}
	if d := diffMaps(&g.amaps, &w.amaps, "", skip, gauges); d != "" {
		return d
	}
	for _, k := range keysOf(g.Jobs, w.Jobs) {
		if skip(k) {
			continue
		}
		a, b := g.Jobs[k], w.Jobs[k]
		if a == nil {
			if len(b.Events)+len(b.Errs)+len(b.Timers) == 0 && (!gauges || len(b.Gauges) == 0) && b.T.Count == 0 {
				continue
			}
			return fmt.Sprintf("job %q is missing", short(k))
		}
		if b == nil {
			b = &jobS{amaps: newMaps()}
			if a.T.Count == 0 && len(a.Events)+len(a.Errs)+len(a.Timers) == 0 && (!gauges || len(a.Gauges) == 0) {
				continue
			}
			return fmt.Sprintf("job %q should not be there", short(k))
		}
		if d := diffMaps(&a.amaps, &b.amaps, fmt.Sprintf("job %q", short(k)), skip, gauges); d != "" {
			return d
		}
		if d := diffTim(a.T, b.T); d != "" {
			return fmt.Sprintf("job %q completions: %s", short(k), d)
		}
		if a.Cs != b.Cs {
			return fmt.Sprintf("job %q statuses: %v, want %v", short(k), a.Cs, b.Cs)
		}
	}
	return ""
}

// consistent checks that the top level of a snapshot is the sum of its jobs.
func consistent(g *intS) string {
	ev, er := map[string]int64{}, map[string]int64{}
	tc, ts := map[string]int64{}, map[string]int64{}
	ga := map[string]map[float64]bool{}
	for _, j := range g.Jobs {
		for k, v := range j.Events {
			ev[k] += v
		}
		for k, v := range j.Errs {
			er[k] += v
		}
		for k, v := range j.Timers {
			tc[k] += v.Count
			ts[k] += v.Sum
		}
		for k, v := range j.Gauges {
			if ga[k] == nil {
				ga[k] = map[float64]bool{}
			}
			ga[k][v] = true
		}
		n := int64(0)
		for _, v := range j.Cs {
			n += v
		}
		if n != j.T.Count {
			return fmt.Sprintf("a job counts %d completions but %d by status", j.T.Count, n)
		}
	}
	for _, k := range keysOf(ev, g.Events) {
		if ev[k] != g.Events[k] {
			return fmt.Sprintf("event %q: %d in total, %d over its jobs", short(k), g.Events[k], ev[k])
		}
	}
	for _, k := range keysOf(er, g.Errs) {
		if er[k] != g.Errs[k] {
			return fmt.Sprintf("error event %q: %d in total, %d over its jobs", short(k), g.Errs[k], er[k])
		}
	}
	for _, k := range keysOf(tc, map[string]int64{}) {
		if t := g.Timers[k]; t.Count != tc[k] || t.Sum != ts[k] {
			return fmt.Sprintf("timer %q: %d/%d in total, %d/%d over its jobs", short(k), t.Count, t.Sum, tc[k], ts[k])
		}
	}
	for k := range g.Timers {
		if _, ok := tc[k]; !ok {
			return fmt.Sprintf("timer %q in no job", short(k))
		}
	}
	for _, k := range keysOf(g.Gauges, map[string]float64{}) {
		if !ga[k][g.Gauges[k]] {
			return fmt.Sprintf("gauge %q: %v, which no job has", short(k), g.Gauges[k])
		}
	}
	return ""
}

func (m *intS) empty() bool {
	return len(m.Jobs) == 0 && len(m.Events) == 0 && len(m.Errs) == 0 && len(m.Timers) == 0 && len(m.Gauges) == 0
}
