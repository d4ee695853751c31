package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim/rt"
)

// Suite is one harness binary: its scenarios and which of them decide which
// property.
type Suite struct {
	Name      string
	Scenarios map[string]*Scenario
	// Props maps a property to the scenarios that search for violations of it.
	Props map[string]*PropSpec
	Real  []string
	Stub  []string
}

type PropSpec struct {
	Scenarios []string
	Quick     int // runs in the quick tier
	Thorough  int
	Assume    []string
}

func (su *Suite) Add(sc *Scenario) { su.Scenarios[sc.Name] = sc }

// runResult is what a worker says about one run.
type runStats struct {
	Runs      int64            `json:"runs"`
	Checks    int64            `json:"checks"`
	Steps     int64            `json:"steps"`
	Switches  int64            `json:"switches"`
	SimNs     float64          `json:"sim_ns"`
	Counters  map[string]int64 `json:"counters"`
	Kinds     [rt.NKinds]int64 `json:"kinds"`
	Hashes    []uint64         `json:"hashes"`
	EHashes   []uint64         `json:"ehashes"`
	Trivial   int64            `json:"trivial"`
	PerScen   map[string]int64 `json:"per_scenario"`
	Samples   []sampleRun      `json:"samples"`
	Violation *found           `json:"violation,omitempty"`
	Known     map[string]int64 `json:"known,omitempty"`
	Err       string           `json:"err,omitempty"`
	WallMs    int64            `json:"wall_ms"`
	Max       int64            `json:"max"`
	MaxSteps  int64            `json:"max_steps"`
	MaxSim    int64            `json:"max_sim"`
	MaxStill  int64            `json:"max_still"`
}

type sampleRun struct {
	Index    int    `json:"index"`
	Scenario string `json:"scenario"`
	Steps    int64  `json:"steps"`
	Switches int64  `json:"switches"`
	SimMs    int64  `json:"sim_ms"`
	Sched    string `json:"schedule_hash"`
	Event    string `json:"event_hash"`
	Checks   int64  `json:"oracle_evaluations"`
	Seed     uint64 `json:"plan_seed"`
	Choices  int    `json:"choices"`
}

type found struct {
	Index int    `json:"index"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string   `json:"property"`
	Suite     string   `json:"suite"`
	Class     string   `json:"violation"`
	Msg       string   `json:"message"`
	RunSeed   uint64   `json:"verif_seed"`
	RunIndex  int      `json:"run_index"`
	Plan      *Plan    `json:"plan"`
	Trace     []uint32 `json:"choices"`
	Steps     int64    `json:"steps"`
	SchedHash string   `json:"schedule_hash"`
	EventHash string   `json:"event_hash"`
	OpsBefore int      `json:"ops_before_minimisation"`
	ChBefore  int      `json:"choices_before_minimisation"`
	Nonzero   int      `json:"nonzero_choices"`
	Events    []string `json:"events"`
}

// Known is one listed finding.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
}

func loadKnown(path, prop string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings file:", err)
		os.Exit(2)
	}
	var r []Known
	for _, k := range f.Findings {
		if k.Property == prop && k.Status == "open" {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []Known, v *rt.Violation) *Known {
	for i := range ks {
		if ks[i].Class == v.Class && strings.Contains(v.Msg, ks[i].Match) {
			return &ks[i]
		}
	}
	return nil
}

func planSeed(seed uint64, prop string, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return h.Sum64()
}

func (su *Suite) plan(prop string, seed uint64, i int, tier string) (*Scenario, *Plan) {
	sp := su.Props[prop]
	sc := su.Scenarios[sp.Scenarios[i%len(sp.Scenarios)]]
	ps := planSeed(seed, prop, i)
	k := i / len(sp.Scenarios)
	big := k%41 == 7 || (tier == "thorough" && k%9 == 3) // prime to the number of workers
	pl := sc.Gen(NewRng(ps), prop, big)
	pl.Prop = prop
	pl.Scenario = sc.Name
	pl.Seed = ps
	return sc, pl
}

func wallMs(t time.Time) int64 { return time.Since(t).Milliseconds() }

// worker runs the indices w, w+W, ... below n until the deadline.
func (su *Suite) worker(prop, tier string, seed uint64, w, W, n int, capS float64, known []Known) {
	st := &runStats{Counters: map[string]int64{}, PerScen: map[string]int64{}, Known: map[string]int64{}}
	t0 := time.Now()
	end := t0.Add(time.Duration(capS * float64(time.Second)))
	emit := func() {
		st.WallMs = wallMs(t0)
		b, _ := json.Marshal(st)
		os.Stdout.Write(append(b, '\n'))
	}
	beat := time.Now()
	var cur string
	var mu sync.Mutex
	go func() {
		for {
			time.Sleep(2 * time.Second)
			mu.Lock()
			old, c := time.Since(beat), cur
			mu.Unlock()
			if old > 60*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "run %s does not end (wall clock)\n%s\n", c, buf)
				os.Exit(3)
			}
		}
	}()
	for i := w; i < n; i += W {
		if time.Now().After(end) {
			break
		}
		sc, pl := su.plan(prop, seed, i, tier)
		mu.Lock()
		beat = time.Now()
		cur = fmt.Sprintf("%s/%d (%s)", prop, i, sc.Name)
		mu.Unlock()
		o, checks := Execute(sc, pl, nil, false, false)
		st.Runs++
		st.Max = int64(i)
		st.PerScen[sc.Name]++
		st.Checks += checks
		st.Steps += o.Steps
		st.Switches += o.Switches
		st.SimNs += float64(o.SimTime)
		st.MaxSteps = max(st.MaxSteps, o.Steps)
		st.MaxSim = max(st.MaxSim, o.SimTime)
		st.MaxStill = max(st.MaxStill, o.Still)
		for k, v := range o.Counters {
			st.Counters[k] += v
		}
		for k, v := range o.Kinds {
			st.Kinds[k] += v
		}
		if checks == 0 || o.Switches < 3 {
			st.Trivial++
		} else {
			st.Hashes = append(st.Hashes, o.SchedHash^o.EventHash*31)
			st.EHashes = append(st.EHashes, o.EventHash)
		}
		if len(st.Samples) < 6 || (i/W)%997 == 5 && len(st.Samples) < 40 {
			st.Samples = append(st.Samples, sampleRun{i, sc.Name, o.Steps, o.Switches, o.SimTime / 1e6, fmt.Sprintf("%016x", o.SchedHash), fmt.Sprintf("%016x", o.EventHash), checks, pl.Seed, len(o.Trace)})
		}
		if o.HarnessErr != "" {
			st.Err = fmt.Sprintf("run %d (%s): %s", i, sc.Name, o.HarnessErr)
			break
		}
		if o.Violation != nil {
			if k := matchKnown(known, o.Violation); k != nil {
				st.Known[k.What]++
				continue
			}
			st.Violation = &found{i, o.Violation.Class, o.Violation.Msg}
			break
		}
	}
	emit()
}

// verify re-runs sampled indices in another process and prints their hashes.
func (su *Suite) verify(prop, tier string, seed uint64, idx []int) {
	for _, i := range idx {
		sc, pl := su.plan(prop, seed, i, tier)
		o, _ := Execute(sc, pl, nil, false, false)
		// the recorded choices, replayed, give the same run
		o2, _ := Execute(sc, pl, o.Trace, true, false)
		same := o.SchedHash == o2.SchedHash && o.EventHash == o2.EventHash && o.Steps == o2.Steps
		fmt.Printf("%d %016x %016x %d %v\n", i, o.SchedHash, o.EventHash, o.Steps, same)
	}
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// minimise shrinks operations, then choices, keeping the violation's class.
func minimise(sc *Scenario, pl *Plan, first *rt.Outcome, budget time.Duration) (*Plan, []uint32) {
	end := time.Now().Add(budget)
	class := first.Violation.Class
	best := clonePlan(pl)
	trace := first.Trace
	try := func(p *Plan, tr []uint32, use bool) *rt.Outcome {
		o, _ := Execute(sc, p, tr, use, false)
		if o.HarnessErr == "" && o.Violation != nil && o.Violation.Class == class {
			return o
		}
		return nil
	}
	tryPlan := func(p *Plan) bool {
		if o := try(p, trace, true); o != nil {
			best, trace = p, o.Trace
			return true
		}
		for k := uint64(0); k < 3 && time.Now().Before(end); k++ {
			q := clonePlan(p)
			q.Seed = pl.Seed + k*7919 + uint64(len(p.Ops))
			if o := try(q, nil, false); o != nil {
				best, trace = q, o.Trace
				return true
			}
		}
		return false
	}
	// simpler parameters first
	for _, kv := range []struct {
		k string
		v int
	}{{"stall", 0}, {"quantum", 0}, {"tz", 0}} {
		if best.P[kv.k] != kv.v {
			q := clonePlan(best)
			q.P[kv.k] = kv.v
			tryPlan(q)
		}
	}
	for n := len(best.Ops) / 2; n >= 1 && time.Now().Before(end); {
		cut := false
		for i := 0; i+n <= len(best.Ops) && time.Now().Before(end); {
			q := clonePlan(best)
			q.Ops = append(append([]Op{}, best.Ops[:i]...), best.Ops[i+n:]...)
			if tryPlan(q) {
				cut = true
			} else {
				i += n
			}
		}
		if !cut || n > 1 {
			if n == 1 {
				break
			}
			n /= 2
		}
	}
	// choices: cut the tail, then zero blocks
	end = end.Add(budget / 2)
	tr := append([]uint32{}, trace...)
	lo, hi := 0, len(tr)
	for lo < hi && time.Now().Before(end) {
		m := (lo + hi) / 2
		if try(best, tr[:m], true) != nil {
			hi = m
		} else {
			lo = m + 1
		}
	}
	if try(best, tr[:hi], true) != nil {
		tr = append([]uint32{}, tr[:hi]...)
	}
	for n := len(tr) / 2; n >= 1 && time.Now().Before(end); n /= 2 {
		for i := 0; i < len(tr) && time.Now().Before(end); i += n {
			j := i + n
			if j > len(tr) {
				j = len(tr)
			}
			zero := true
			for _, v := range tr[i:j] {
				if v != 0 {
					zero = false
				}
			}
			if zero {
				continue
			}
			c := append([]uint32{}, tr...)
			for k := i; k < j; k++ {
				c[k] = 0
			}
			if try(best, c, true) != nil {
				tr = c
			}
		}
	}
	for len(tr) > 0 && tr[len(tr)-1] == 0 {
		tr = tr[:len(tr)-1]
	}
	if try(best, tr, true) == nil {
		return best, trace
	}
	return best, tr
}

func mkReplay(su *Suite, sc *Scenario, pl *Plan, trace []uint32, seed uint64, idx int) *Replay {
	o, _ := Execute(sc, pl, trace, true, true)
	if o.Violation == nil {
		return nil
	}
	nz := 0
	for _, v := range trace {
		if v != 0 {
			nz++
		}
	}
	ev := o.Events
	if len(ev) > 1500 {
		ev = append(append([]string{}, ev[:200]...), ev[len(ev)-1300:]...)
	}
	return &Replay{Property: pl.Prop, Suite: su.Name, Class: o.Violation.Class, Msg: o.Violation.Msg, RunSeed: seed, RunIndex: idx, Plan: pl, Trace: trace,
		Steps: o.Steps, SchedHash: fmt.Sprintf("%016x", o.SchedHash), EventHash: fmt.Sprintf("%016x", o.EventHash), Nonzero: nz, Events: ev}
}

// replay re-executes a replay file; exit 1 if it reproduces exactly.
func (su *Suite) replay(path string, verbose bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	sc := su.Scenarios[r.Plan.Scenario]
	if sc == nil {
		fmt.Println("no such scenario:", r.Plan.Scenario)
		return 2
	}
	o, _ := Execute(sc, r.Plan, r.Trace, true, true)
	if verbose {
		for _, e := range o.Events {
			fmt.Println(e)
		}
	}
	if o.HarnessErr != "" {
		fmt.Println("harness error:", o.HarnessErr)
		return 2
	}
	if o.Violation == nil {
		fmt.Printf("replay: no violation (recorded: %s)\n", r.Class)
		return 0
	}
	exact := fmt.Sprintf("%016x", o.SchedHash) == r.SchedHash && fmt.Sprintf("%016x", o.EventHash) == r.EventHash && o.Steps == r.Steps && o.Violation.Class == r.Class
	fmt.Printf("replay: %s: %s\nexact=%v\n", o.Violation.Class, o.Violation.Msg, exact)
	if verbose {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	}
	if !exact {
		return 4
	}
	return 1
}

// Main is the entry point of a harness binary.
func (su *Suite) Main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Println("usage: check|worker|verify|replay|one|props")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	w := fs.Int("w", 0, "")
	W := fs.Int("of", 8, "")
	n := fs.Int("n", 0, "")
	capS := fs.Float64("cap", 0, "")
	idx := fs.String("idx", "", "")
	root := fs.String("root", "/verif", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(os.Args[2:])
	if mode == "props" {
		var ps []string
		for p := range su.Props {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		fmt.Println(strings.Join(ps, " "))
		return
	}
	known := loadKnown(filepath.Join(*root, "known-findings.json"), *prop)
	if mode != "replay" && su.Props[*prop] == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(2)
	}
	switch mode {
	case "worker":
		runtime.GOMAXPROCS(1)
		su.worker(*prop, *tier, *seed, *w, *W, *n, *capS, known)
	case "verify":
		runtime.GOMAXPROCS(1)
		var is []int
		for _, f := range strings.Split(*idx, ",") {
			k, _ := strconv.Atoi(f)
			is = append(is, k)
		}
		su.verify(*prop, *tier, *seed, is)
	case "one":
		runtime.GOMAXPROCS(1)
		k, _ := strconv.Atoi(*idx)
		if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
			f, _ := os.Create(pf)
			pprof.StartCPUProfile(f)
			for i := 0; i < *n; i++ {
				sc, pl := su.plan(*prop, *seed, k+i, *tier)
				Execute(sc, pl, nil, false, true)
			}
			pprof.StopCPUProfile()
			return
		}
		sc, pl := su.plan(*prop, *seed, k, *tier)
		o, checks := Execute(sc, pl, nil, false, true)
		if *verbose {
			b, _ := json.MarshalIndent(pl, "", " ")
			fmt.Println(string(b))
			for _, e := range o.Events {
				fmt.Println(e)
			}
		}
		fmt.Printf("scenario=%s steps=%d switches=%d sim=%v checks=%d counters=%v viol=%v herr=%s\n", sc.Name, o.Steps, o.Switches, time.Duration(o.SimTime), checks, o.Counters, o.Violation, o.HarnessErr)
	case "replay":
		runtime.GOMAXPROCS(1)
		os.Exit(su.replay(fs.Arg(0), *verbose))
	case "check":
		os.Exit(su.check(*prop, *tier, *seed, *root, *n, *capS, known))
	}
}

func (su *Suite) check(prop, tier string, seed uint64, root string, n int, capS float64, known []Known) int {
	t0 := time.Now()
	sp := su.Props[prop]
	if n == 0 {
		n = sp.Quick
		if tier == "thorough" {
			n = sp.Thorough
			if n == 0 {
				n = sp.Quick * 40
			}
		}
	}
	if capS == 0 {
		capS = 28
		if tier == "thorough" {
			capS = 600
		}
	}
	self, _ := os.Executable()
	W := runtime.NumCPU()
	if W > 16 {
		W = 16
	}
	if W < 1 {
		W = 1
	}
	type res struct {
		st  *runStats
		err string
	}
	out := make([]res, W)
	var wg sync.WaitGroup
	for w := 0; w < W; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cmd := exec.Command(self, "worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w), "-of", fmt.Sprint(W), "-n", fmt.Sprint(n), "-cap", fmt.Sprint(capS), "-root", root)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err := cmd.Run()
			st := &runStats{}
			if e := json.Unmarshal(bytes.TrimSpace(so.Bytes()), st); e != nil || err != nil {
				m := se.String()
				if len(m) > 4000 {
					m = m[:2500] + "\n...\n" + m[len(m)-1400:]
				}
				out[w].err = fmt.Sprintf("worker %d: %v %v\n%s", w, err, e, m)
				return
			}
			out[w].st = st
		}(w)
	}
	wg.Wait()
	tot := &runStats{Counters: map[string]int64{}, PerScen: map[string]int64{}, Known: map[string]int64{}}
	hs, es := map[uint64]bool{}, map[uint64]bool{}
	var viol *found
	for w := range out {
		if out[w].err != "" {
			fmt.Fprintln(os.Stderr, "check error:", out[w].err)
			return 2
		}
		st := out[w].st
		if st.Err != "" {
			fmt.Fprintln(os.Stderr, "harness error:", st.Err)
			return 2
		}
		tot.Runs += st.Runs
		tot.Checks += st.Checks
		tot.Steps += st.Steps
		tot.Switches += st.Switches
		tot.SimNs += st.SimNs
		tot.MaxSteps = max(tot.MaxSteps, st.MaxSteps)
		tot.MaxSim = max(tot.MaxSim, st.MaxSim)
		tot.MaxStill = max(tot.MaxStill, st.MaxStill)
		tot.Trivial += st.Trivial
		for k, v := range st.Counters {
			tot.Counters[k] += v
		}
		for k, v := range st.PerScen {
			tot.PerScen[k] += v
		}
		for k, v := range st.Known {
			tot.Known[k] += v
		}
		for k, v := range st.Kinds {
			tot.Kinds[k] += v
		}
		for _, h := range st.Hashes {
			hs[h] = true
		}
		for _, h := range st.EHashes {
			es[h] = true
		}
		if len(st.Samples) > 0 {
			tot.Samples = append(tot.Samples, st.Samples[:min(2, len(st.Samples))]...)
			tot.Samples = append(tot.Samples, st.Samples[len(st.Samples)-1])
		}
		if st.Violation != nil && (viol == nil || st.Violation.Index < viol.Index) {
			viol = st.Violation
		}
	}
	searchS := time.Since(t0).Seconds()

	// determinism: sampled runs again, in another process
	reruns := 0
	if len(tot.Samples) > 0 {
		want := map[int]sampleRun{}
		var is []string
		for _, s := range tot.Samples {
			if _, ok := want[s.Index]; !ok && len(want) < 20 {
				want[s.Index] = s
				is = append(is, fmt.Sprint(s.Index))
			}
		}
		cmd := exec.Command(self, "verify", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-idx", strings.Join(is, ","), "-root", root)
		b, err := cmd.Output()
		if err != nil {
			fmt.Fprintln(os.Stderr, "determinism re-run failed:", err)
			return 2
		}
		sc := bufio.NewScanner(bytes.NewReader(b))
		for sc.Scan() {
			var i int
			var a, e string
			var steps int64
			var same bool
			fmt.Sscan(sc.Text(), &i, &a, &e, &steps, &same)
			s := want[i]
			if a != s.Sched || e != s.Event || steps != s.Steps || !same {
				fmt.Fprintf(os.Stderr, "not deterministic: run %d of %s (%s): %s, recorded %s %s %d\n", i, prop, s.Scenario, sc.Text(), s.Sched, s.Event, s.Steps)
				return 2
			}
			reruns++
		}
		if reruns != len(want) {
			fmt.Fprintln(os.Stderr, "determinism re-run incomplete")
			return 2
		}
	}

	replayPath := ""
	if viol != nil {
		sc, pl := su.plan(prop, seed, viol.Index, tier)
		o, _ := Execute(sc, pl, nil, false, false)
		if o.Violation == nil || o.Violation.Class != viol.Class {
			fmt.Fprintf(os.Stderr, "run %d: violation %q was not reproduced\n", viol.Index, viol.Class)
			return 2
		}
		budget := 12 * time.Second
		if tier == "thorough" {
			budget = 60 * time.Second
		}
		mp, mt := minimise(sc, pl, o, budget)
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", prop, tier, seed, viol.Index))
		ok := false
		for attempt := 0; attempt < 2 && !ok; attempt++ {
			var r *Replay
			if attempt == 0 {
				r = mkReplay(su, sc, mp, mt, seed, viol.Index)
			} else {
				r = mkReplay(su, sc, pl, o.Trace, seed, viol.Index)
			}
			if r == nil {
				continue
			}
			r.OpsBefore, r.ChBefore = len(pl.Ops), len(o.Trace)
			b, _ := json.MarshalIndent(r, "", " ")
			os.WriteFile(replayPath, b, 0644)
			cmd := exec.Command(self, "replay", replayPath)
			rb, err := cmd.CombinedOutput()
			if ee, is := err.(*exec.ExitError); is && ee.ExitCode() == 1 {
				ok = true
				fmt.Printf("violation of %s: %s: %s\n", prop, r.Class, r.Msg)
				fmt.Printf("found by run %d (scenario %s, VERIF_SEED %d); minimised from %d operations and %d choices to %d operations and %d choices (%d non-zero)\n",
					viol.Index, sc.Name, seed, len(pl.Ops), len(o.Trace), len(r.Plan.Ops), len(r.Trace), r.Nonzero)
			} else {
				fmt.Fprintf(os.Stderr, "replay in a fresh process differs: %s\n", rb)
			}
		}
		if !ok {
			return 2
		}
	}
	su.evidence(root, prop, tier, seed, tot, len(hs), len(es), reruns, searchS, time.Since(t0).Seconds(), viol, replayPath)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, k.What, tot.Known[k.What])
	}
	if viol != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replayPath)
		return 1
	}
	if tot.Runs < int64(n)/20 && tot.Runs < 50 {
		fmt.Fprintf(os.Stderr, "only %d runs finished\n", tot.Runs)
		return 2
	}
	if tot.Checks == 0 {
		fmt.Fprintln(os.Stderr, "no oracle was evaluated")
		return 2
	}
	fmt.Printf("%s: held on %d runs (%d distinct non-trivial), %d oracle evaluations, %.0f s of simulated time, %.1f s\n", prop, tot.Runs, len(hs), tot.Checks, tot.SimNs/1e9, time.Since(t0).Seconds())
	return 0
}

func (su *Suite) evidence(root, prop, tier string, seed uint64, t *runStats, distinct, distinctHist, reruns int, searchS, wall float64, viol *found, replay string) {
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, v := range t.Counters {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			other[k] = v
		}
	}
	kinds := map[string]int64{}
	for i, v := range t.Kinds {
		kinds[rt.KindNames[i]] = v
	}
	perHour := float64(t.Runs) / searchS * 3600
	var samples []any
	for i, s := range t.Samples {
		if i < 8 {
			samples = append(samples, s)
		}
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": distinct,
		"rule": "One evaluation is one simulated run: the workload plan and every scheduling, timer, select, map-order and fault choice are drawn from a stream seeded with (VERIF_SEED, property, run index). " +
			"A run is non-trivial if at least one oracle was evaluated in it and at least 3 task switches happened; two are distinct if the hash over the sequence of scheduled tasks and the recorded event history differs.",
		"samples":                    samples,
		"distinct_event_histories":   distinctHist,
		"oracle_evaluations":         t.Checks,
		"runs_per_hour":              int64(perHour),
		"seeds_per_hour":             int64(perHour),
		"simulated_seconds":          t.SimNs / 1e9,
		"steps":                      t.Steps,
		"longest_run_steps":          t.MaxSteps,
		"most_steps_at_one_instant":  t.MaxStill,
		"longest_run_simulated_s":    t.MaxSim / 1e9,
		"task_switches":              t.Switches,
		"choices_by_kind":            kinds,
		"faults_injected":            faults,
		"workload_counters":          other,
		"runs_by_scenario":           t.PerScen,
		"determinism_reruns":         reruns,
		"components_real":            su.Real,
		"components_simulated":       su.Stub,
		"trivial_runs":               t.Trivial,
		"known_findings_encountered": t.Known,
	}
	if viol != nil {
		cov["violation"] = map[string]any{"class": viol.Class, "message": viol.Msg, "run_index": viol.Index, "replay": replay}
	}
	assume := append([]string{
		"the simulated scheduler preempts only between statements of the repository's Go source and at synchronisation operations; memory is sequentially consistent",
		"standard-library code other than time, sync, net, net/http, os, context and runtime statistics runs unmodified and atomically between two scheduling points",
	}, su.Props[prop].Assume...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assume, "wall_s": wall, "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0755)
	tmp := filepath.Join(dir, "."+prop+".tmp")
	if err := os.WriteFile(tmp, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Rename(tmp, filepath.Join(dir, prop+".json"))
}
