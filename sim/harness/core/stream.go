package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
)

// got is one call a sink received.
type got struct {
	Kind   string
	Job    string
	Event  string
	Nanos  int64
	Value  float64
	Status health.CompletionStatus
	ErrMsg string
	Muted  bool
	Old    bool
	Kvs    map[string]string
	At     int64
}

// recSink is a user-written sink: it may be slow, and it notes every call.
type recSink struct {
	c    *kit.Ctx
	n    int
	slow int
	// per actor, in order of arrival
	by map[int][]*got
}

func (k *recSink) take(g *got, kvs map[string]string) {
	s := k.c.S
	g.At = s.Now()
	g.Kvs = union(kvs)
	a := -1 // whoever emitted it, and is in this call
	if t := s.Cur(); t != nil {
		fmt.Sscanf(t.Name, "app%d", &a)
	}
	k.by[a] = append(k.by[a], g)
	s.Event("sink%d %s %q %q %d", k.n, g.Kind, g.Job, g.Event, g.Status)
	switch {
	case k.slow > 1 && s.Chance(1, 6, rt.KFault):
		s.Count("fault.slow_sink", 1)
		s.Sleep(int64(1+s.Choose(2000, rt.KFault)) * 1e6)
	case k.slow > 0:
		rt.Yield()
	}
}
func (k *recSink) EmitEvent(job, ev string, kvs map[string]string) {
	k.take(&got{Kind: "event", Job: job, Event: ev}, kvs)
}
func (k *recSink) EmitEventErr(job, ev string, err error, kvs map[string]string) {
	g := &got{Kind: "err", Job: job, Event: ev}
	if err != nil {
		g.ErrMsg = err.Error()
	}
	_, g.Muted = err.(*health.MutedError)
	if u, ok := err.(*health.UnmutedError); ok {
		g.Old = u.Emitted
	}
	k.take(g, kvs)
}
func (k *recSink) EmitTiming(job, ev string, n int64, kvs map[string]string) {
	k.take(&got{Kind: "timing", Job: job, Event: ev, Nanos: n}, kvs)
}
func (k *recSink) EmitGauge(job, ev string, v float64, kvs map[string]string) {
	k.take(&got{Kind: "gauge", Job: job, Event: ev, Value: v}, kvs)
}
func (k *recSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	k.take(&got{Kind: "complete", Job: job, Status: st, Nanos: n}, kvs)
}

// same compares a received call with what was emitted; "" if equal.
func same(r *Rec, g *got) string {
	if r.Kind != g.Kind {
		return fmt.Sprintf("kind %s", g.Kind)
	}
	if r.Job != g.Job {
		return fmt.Sprintf("job %q", g.Job)
	}
	if r.Event != g.Event {
		return fmt.Sprintf("event %q", g.Event)
	}
	switch r.Kind {
	case "timing":
		if r.Nanos != g.Nanos {
			return fmt.Sprintf("duration %d", g.Nanos)
		}
	case "gauge":
		if r.Value != g.Value && (r.Value == r.Value || g.Value == g.Value) {
			return fmt.Sprintf("value %v", g.Value)
		}
	case "complete":
		if r.Status != g.Status {
			return fmt.Sprintf("status %v", g.Status)
		}
	case "err":
		if r.ErrMsg != g.ErrMsg {
			return fmt.Sprintf("error %q", g.ErrMsg)
		}
		if r.Muted != g.Muted {
			return fmt.Sprintf("muted=%v", g.Muted)
		}
		if r.Fresh && g.Old {
			return "already emitted"
		}
	}
	kv := g.Kvs
	if r.HasStack {
		if kv["stack"] == "" {
			return "no stack among the key/values"
		}
		if !strings.Contains(kv["stack"], "(*Actor).run") {
			return fmt.Sprintf("a stack without the function that panicked: %q", kv["stack"])
		}
		kv = union(kv)
		delete(kv, "stack")
		want := union(r.Kvs)
		delete(want, "stack")
		if !eqKvs(kv, want) {
			return fmt.Sprintf("key/values %v", kv)
		}
		return ""
	}
	if !eqKvs(kv, r.Kvs) {
		return fmt.Sprintf("key/values %v, want %v", kv, r.Kvs)
	}
	return ""
}

func genStream(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, true)
	m := defMix()
	m.weird = true
	m.raw, m.rawGa, m.grun = 10, true, true
	m.nm.bad = 3
	m.nm.long = 2
	m.burst = 2
	k, n := r.In(1, 5), r.In(2, 14)
	if big {
		n *= 6
	}
	if prop == "C02" {
		m.run, m.co, m.ev, m.er, m.ti, m.ga, m.re, m.mu = 20, 5, 2, 2, 1, 1, 1, 1
		p.P["steps"] = kit.Pick(r, 0, 0, 1)
	}
	p.P["sinks"] = r.In(1, 4)
	if r.P(5) {
		p.P["sinks"] = r.In(5, 20)
	}
	if r.P(5) {
		p.P["sinks"] = 0
	}
	p.P["slow"] = r.N(3)
	p.P["skv"] = r.N(3)
	p.P["shared"] = r.N(2)
	if r.P(6) {
		for i := r.In(1, 3); i > 0; i-- {
			a := r.In(1, k)
			p.Ops = append(p.Ops, kit.Op{A: a, K: "job", S: "wide"}, kit.Op{A: a, K: "bu", T: "jkv", S: "w", N: int64(r.In(3, 60)), M: 1})
		}
	}
	genActors(r, p, k, n, &m)
	if p.P["steps"] == 1 {
		for i := r.In(1, 4); i > 0; i-- {
			p.Ops = append(p.Ops, kit.Op{A: 95, K: "sl", N: r.Dur(time.Millisecond, 5*time.Second)}, kit.Op{A: 95, K: "step", N: int64(r.In(-7200, 7200)) * 1e9})
		}
	}
	return p
}

func runStream(c *kit.Ctx) {
	s := c.S
	w := newWorld(c, s.Node("main"))
	var sinks []*recSink
	for i := 0; i < c.P("sinks"); i++ {
		k := &recSink{c: c, n: i, slow: c.P("slow"), by: map[int][]*got{}}
		sinks = append(sinks, k)
		w.add(k)
	}
	for i := 0; i < c.P("skv"); i++ {
		w.streamKv(fmt.Sprintf("k%d", i+1), fmt.Sprintf("stream%d", i))
	}
	prop := c.Prop
	seen := make([]map[int]int, len(sinks)) // how many of an actor's emissions have been compared
	for i := range seen {
		seen[i] = map[int]int{}
	}
	skv0 := union(w.skvs)
	w.After = func(a *Actor, from int) {
		for i, k := range sinks {
			for n := from; n < len(a.recs); n++ {
				r := a.recs[n]
				c.Check()
				at := seen[i][a.ID]
				if at >= len(k.by[a.ID]) {
					c.Fail(prop, "emission-lost", "sink %d did not get %s before the call returned", i, r)
					return
				}
				g := k.by[a.ID][at]
				if d := same(r, g); d != "" {
					c.Fail(prop, "emission-wrong", "sink %d got %s as %s (call %d)", i, r, d, at)
					return
				}
				if r.Kind == "complete" && !r.Direct {
					hi := g.At - startLo(a, r)
					if g.Nanos < r.NLo || g.Nanos > r.NHi || (hi >= 0 && g.Nanos > hi) {
						c.Fail("C02", "elapsed", "sink %d got %s with elapsed %d ns", i, r, g.Nanos)
					}
				}
				seen[i][a.ID]++
			}
			if seen[i][a.ID] != len(k.by[a.ID]) {
				g := k.by[a.ID][seen[i][a.ID]]
				c.Fail(prop, "emission-duplicated", "sink %d got an extra %s job=%q event=%q after %s", i, g.Kind, g.Job, g.Event, a.recs[len(a.recs)-1])
				return
			}
		}
		if !eqKvs(w.st.KeyValues, skv0) {
			c.Fail("C01", "stream-map-modified", "the stream's key/values changed from %v to %v", skv0, w.st.KeyValues)
		}
		if a.job != nil && !eqKvs(a.job.KeyValues, a.jm.kvs) {
			c.Fail("C01", "job-map-modified", "the job's key/values changed from %v to %v", a.jm.kvs, a.job.KeyValues)
		}
	}
	w.spawn(nil)
	spawnClock(c, w.node)
	c.JoinOrFail(prop, 3*time.Hour)
	c.Settle()
	for i, k := range sinks {
		total := 0
		for _, l := range k.by {
			total += len(l)
		}
		if total != len(w.recs) {
			c.Fail(prop, "emission-count", "sink %d got %d calls for %d emissions", i, total, len(w.recs))
		}
	}
	c.Check()
}

func startLo(a *Actor, r *Rec) int64 { return r.T1 - r.NHi }

// spawnClock runs actor 95: wall clock steps.
func spawnClock(c *kit.Ctx, node *rt.Node) {
	ops := c.Plan.ByActor()[95]
	if len(ops) == 0 {
		return
	}
	c.Spawn(c.S.Node("env"), "clock", func() {
		for _, op := range ops {
			switch op.K {
			case "sl":
				c.S.Sleep(op.N)
			case "step":
				if op.M == 1 { // at a moment when nothing is queued
					c.S.WaitIdle()
				}
				node.Offset += op.N
				c.S.Count("fault.clock_step", 1)
				c.S.Event("clock step %d", op.N)
			}
		}
	})
}

func init() {
	suite.Add(&kit.Scenario{Name: "stream", Gen: genStream, Run: runStream})
	suite.Props["C01"] = &kit.PropSpec{Scenarios: []string{"stream"}, Quick: 1000000}
	suite.Props["C02"] = &kit.PropSpec{Scenarios: []string{"stream"}, Quick: 1000000}
}
