package main

import (
	"sort"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simmisc"
)

// The runtime metrics scenario: the reporter runs on a simulated runtime whose
// statistics are a function of time; descriptors can fail to be listed; sinks
// can be slow; it is stopped and started at any moment. Decides C21.

func genRtm(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, true)
	p.P["opt"] = kit.Pick(r, 64, r.N(64), r.N(64), 63)
	p.P["ms"] = kit.Pick(r, 10, 100, 1000, 3000, 7000, 60000, 90000, 600000)
	p.P["slow"] = kit.Pick(r, 0, 0, 1, 2)
	p.P["recv"] = r.N(2)
	iv := time.Duration(p.P["ms"]) * time.Millisecond
	if p.P["opt"] == 64 {
		iv = 5 * time.Second
	}
	if p.P["slow"] == 2 && iv < time.Second {
		p.P["slow"] = 1
	}
	n := r.In(2, 10)
	if big {
		n *= 5
	}
	for i := 0; i < n; i++ {
		sl := kit.Op{A: 81, K: "sl", N: r.Dur(time.Millisecond, 8*iv)}
		if r.P(20) {
			sl.T = "b" // until the very moment of a tick
		}
		p.Ops = append(p.Ops, sl, kit.Op{A: 81, K: kit.Pick(r, "stop", "start", "start", "report", "none"), S: ""})
		if r.P(40) {
			p.Ops = append(p.Ops, kit.Op{A: 82, K: "sl", N: r.Dur(time.Millisecond, 8*iv)}, kit.Op{A: 82, K: "fds", N: int64(kit.Pick(r, -1, -1, 0, 3, 1000))})
		}
	}
	return p
}

type rtmGauge struct {
	at   int64
	job  string
	name string
	v    float64
	live int
	fds  int
	gen  int
	end  int64 // when the call returned
}

type rtmSink struct {
	c    *kit.Ctx
	node *rt.Node
	got  []rtmGauge
	slow int
	in   int
	gen  *int
	up   *bool
}

func (k *rtmSink) EmitEvent(job, ev string, kvs map[string]string) { k.other("event", ev) }
func (k *rtmSink) EmitEventErr(job, ev string, err error, kvs map[string]string) {
	k.other("error", ev)
}
func (k *rtmSink) EmitTiming(job, ev string, n int64, kvs map[string]string) { k.other("timing", ev) }
func (k *rtmSink) EmitComplete(j string, st health.CompletionStatus, n int64, kvs map[string]string) {
	k.other("completion", j)
}
func (k *rtmSink) other(kind, n string) {
	k.c.Fail("C21", "not-a-gauge", "the runtime metrics emitted a %s %q", kind, n)
}
func (k *rtmSink) EmitGauge(job, ev string, v float64, kvs map[string]string) {
	s := k.c.S
	s.Event("gauge %s", ev)
	k.got = append(k.got, rtmGauge{s.Now(), job, ev, v, s.LiveOn(k.node), k.node.Fds, *k.gen, 0})
	i := len(k.got) - 1
	defer func() { k.got[i].end = s.Now() }()
	if !*k.up {
		k.c.Fail("C21", "after-stop", "gauge %q was emitted after Stop had returned", ev)
	}
	switch {
	case k.slow == 2 && s.Chance(1, 10, rt.KFault):
		s.Count("fault.slow_sink", 1)
		s.Sleep(int64(1+s.Choose(900, rt.KFault)) * 1e6)
	case k.slow > 0:
		rt.Yield()
	}
}

var rtmGroups = [][]string{{"alloc", "heap_objects"}, {"pause_total_ns", "num_gc", "next_gc", "gc_cpu_fraction"}, {"gc_pause_quantile_50", "gc_pause_quantile_max"}, {"num_goroutines"}, {"num_cgo_call"}, {"num_fds_used"}}

func runRtm(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	opt := &runtime_metrics.Options{Interval: time.Duration(c.P("ms")) * time.Millisecond}
	bits := c.P("opt")
	if bits == 64 {
		opt = nil
		bits = 63
	} else {
		opt.Memory, opt.GC, opt.GCQuantile = bits&1 != 0, bits&2 != 0, bits&4 != 0
		opt.Goroutines, opt.Cgo, opt.FDs = bits&8 != 0, bits&16 != 0, bits&32 != 0
	}
	iv := int64(5 * time.Second)
	if opt != nil {
		iv = int64(opt.Interval)
	}
	st := health.NewStream()
	gen, up := 0, false
	sink := &rtmSink{c: c, node: node, slow: c.P("slow"), gen: &gen, up: &up}
	st.AddSink(sink)
	job := "general"
	var recv health.EventReceiver = st
	if c.P("recv") == 1 {
		job = "rt"
		recv = st.NewJob("rt")
	}
	rm := runtime_metrics.NewRuntimeMetrics(recv, opt)
	if opt != nil {
		*opt = runtime_metrics.Options{} // the caller's struct is its own again
	}
	exact := exactTime(c) && c.P("slow") < 2
	type span struct{ from, to, asked int64 }
	var spans []span
	running := false
	manual := map[int64]int{}
	nManual := 0
	by := c.Plan.ByActor()
	stop := func() {
		spans[len(spans)-1].asked = s.Now()
		// longer than any row of ticks chosen over the call, when a report takes longer than the interval
		if !c.Call(node, "stop", 3*time.Hour, func() { rm.Stop(); up = false }) {
			c.Fail("C21", "stop-hangs", "Stop has not returned after 3 hours; blocked: %s", strings.Join(s.Blocked(), "; "))
			s.Finish()
		}
		spans[len(spans)-1].to = s.Now()
		running = false
	}
	c.Spawn(s.Node("env"), "fds", func() {
		for _, op := range by[82] {
			if op.K == "sl" {
				s.Sleep(op.N)
				continue
			}
			if op.N < 0 {
				s.Count("fault.fd_list_error", 1)
			}
			node.Fds = int(op.N)
		}
	})
	for _, op := range by[81] {
		switch op.K {
		case "sl":
			if op.T == "b" && running {
				s.Sleep(iv*(1+op.N/iv) - (s.Now()-spans[len(spans)-1].from)%iv)
				continue
			}
			s.Sleep(op.N)
		case "start":
			if running {
				continue
			}
			running, up = true, true
			gen++
			spans = append(spans, span{s.Now(), -1, -1})
			rm.Start()
		case "stop":
			if running {
				stop()
			}
		case "report":
			if running {
				continue
			}
			// a report asked for directly
			up = true
			gen++
			manual[s.Now()]++
			nManual++
			if !c.Call(node, "report", 10*time.Minute, func() { rm.Report() }) {
				c.Fail("C21", "hang", "Report did not return")
				return
			}
			up = false
		}
	}
	c.JoinOrFail("C21", 24*time.Hour)
	if running {
		s.Sleep(3*iv + 1e6)
		stop()
	}
	s.NoStall(1)
	s.Sleep(3 * iv)
	s.WaitIdle()
	// group into reports
	var want []string
	fd := false
	for i, g := range rtmGroups {
		if bits&(1<<i) != 0 {
			if g[0] == "num_fds_used" {
				fd = true
			} else {
				want = append(want, g...)
			}
		}
	}
	type report struct {
		at  int64
		end int64
		gs  []rtmGauge
	}
	var reps []*report
	// gauges of one report are contiguous; a report ends when a name repeats
	for i, g := range sink.got {
		c.Check()
		if g.job != job {
			c.Fail("C21", "wrong-job", "gauge %q was emitted for job %q", g.name, g.job)
			return
		}
		newRep := len(reps) == 0 || sink.got[i-1].gen != g.gen
		if !newRep {
			for _, x := range reps[len(reps)-1].gs {
				newRep = newRep || x.name == g.name
			}
		}
		if newRep {
			reps = append(reps, &report{at: g.at})
		}
		r := reps[len(reps)-1]
		r.gs = append(r.gs, g)
		r.end = g.end
	}
	perTime := map[int64]int{}
	for _, r := range reps {
		c.Check()
		names := map[string]rtmGauge{}
		var ns []string
		for _, g := range r.gs {
			names[g.name] = g
			ns = append(ns, g.name)
		}
		exp := append([]string{}, want...)
		g, has := names["num_fds_used"]
		if fd && has {
			exp = append(exp, "num_fds_used")
			if exact && g.v != float64(g.fds) {
				c.Fail("C21", "wrong-value", "num_fds_used is %v with %d open", g.v, g.fds)
			}
		}
		if fd && !has && exact && len(want) > 0 && r.gs[0].fds >= 0 {
			c.Fail("C21", "missing-gauge", "a report has no num_fds_used although descriptors could be listed")
		}
		sort.Strings(exp)
		sort.Strings(ns)
		if strings.Join(exp, " ") != strings.Join(ns, " ") {
			c.Fail("C21", "wrong-gauges", "a report has gauges %v, want %v", ns, exp)
			return
		}
		if !exact {
			continue
		}
		perTime[r.at]++
		m := simmisc.MemAt(r.at)
		q := simmisc.GCQuantiles(r.at)
		ms := func(d time.Duration) float64 { return float64(d/1000) / 1000 }
		ref := map[string]float64{"alloc": float64(m.Alloc), "heap_objects": float64(m.HeapObjects), "pause_total_ns": float64(m.PauseTotalNs), "num_gc": float64(m.NumGC), "next_gc": float64(m.NextGC),
			"gc_cpu_fraction": m.GCCPUFraction, "gc_pause_quantile_50": ms(q[2]), "gc_pause_quantile_max": ms(q[4]), "num_cgo_call": float64(simmisc.CgoAt(r.at))}
		for _, g := range r.gs {
			if v, ok := ref[g.name]; ok && !kit.Eq(v, g.v) {
				c.Fail("C21", "wrong-value", "gauge %q is %v, and the runtime says %v", g.name, g.v, v)
				return
			}
			if g.name == "num_goroutines" && (g.v < float64(g.live-2) || g.v > float64(g.live+2)) {
				c.Fail("C21", "wrong-value", "num_goroutines is %v, and %d run", g.v, g.live)
				return
			}
		}
	}
	if len(want) == 0 {
		return
	}
	if exact {
		exp := map[int64]int{}
		for t, n := range manual {
			exp[t] += n
		}
		opt := map[int64]bool{}
		for _, sp := range spans {
			for t := sp.from + iv; t <= sp.to; t += iv {
				if t == sp.to {
					opt[t] = true // Stop and the tick at the same moment
				} else {
					exp[t]++
				}
			}
		}
		for _, t := range sortedStarts(exp) {
			if perTime[t] < exp[t] {
				c.Fail("C21", "missing-report", "no report at t=%v, with interval %v", time.Duration(t), time.Duration(iv))
				return
			}
		}
		for _, t := range sortedStarts(perTime) {
			if perTime[t] > exp[t] && !opt[t] {
				c.Fail("C21", "unexpected-report", "%d reports at t=%v, want %d", perTime[t], time.Duration(t), exp[t])
				return
			}
		}
		return
	}
	// otherwise: never more reports than intervals
	most := int64(nManual)
	for _, sp := range spans {
		most += (sp.to - sp.from) / iv
	}
	if int64(len(reps)) > most {
		c.Fail("C21", "too-many-reports", "%d reports, at most %d intervals ended", len(reps), most)
	}
	if exactTime(c) {
		// an interval that ends while nothing is being reported is reported at once
		for _, sp := range spans {
			i := 0
			for t := sp.from + iv; t < sp.asked; t += iv {
				for i < len(reps) && reps[i].end < t {
					i++
				}
				c.Check()
				if i == len(reps) || reps[i].at > t {
					c.Fail("C21", "missing-report", "no report at t=%v, with interval %v from t=%v, and none was under way", time.Duration(t), time.Duration(iv), time.Duration(sp.from))
					return
				}
			}
		}
		least := int64(0)
		for _, sp := range spans {
			least += max(0, (sp.to-sp.from)/(iv+int64(12*time.Second))-1)
		}
		if int64(len(reps)) < least {
			c.Fail("C21", "missing-report", "%d reports, want at least %d", len(reps), least)
		}
	}
}

func init() {
	suite.Add(&kit.Scenario{Name: "runtime", Gen: genRtm, Run: runRtm})
	suite.Props["C21"] = &kit.PropSpec{Scenarios: []string{"runtime"}, Quick: 1000000}
}
