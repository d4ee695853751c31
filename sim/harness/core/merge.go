package main

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
)

// The merge scenario: several hosts, which crash and restart, serve /health; a
// collector polls them over a faulty network and merges what it got. Decides C10.

func genMerge(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, false)
	m := defMix()
	m.dc = 6
	m.kv = 5
	m.names = r.In(2, 6)
	iv := kit.Pick(r, 1000, 5000, 60000)
	p.P["interval"] = iv
	m.slMin, m.slMax = time.Millisecond, time.Duration(iv)*time.Millisecond
	k := r.In(2, 4)
	p.P["nodes"] = k
	n := r.In(2, 10)
	if big {
		n *= 4
	}
	pool := genPool(r, &m)
	for i := 0; i < n; i++ {
		for h := 0; h < k; h++ {
			for a := 1; a <= 2; a++ {
				p.Ops = append(p.Ops, genEmit(r, 10*h+a, &m, pool))
				if r.P(3) {
					p.Ops = append(p.Ops, kit.Op{A: 90, K: "sl", N: r.Dur(time.Millisecond, m.slMax)}, kit.Op{A: 90, K: "crash", N: int64(h)})
				}
			}
		}
	}
	if r.P(3) {
		for i := r.In(1, 3); i > 0; i-- {
			p.Ops = append([]kit.Op{genBurst(r, 10*r.N(k)+r.In(1, 2), &m, pool)}, p.Ops...)
		}
	}
	for i := r.In(2, 10); i > 0; i-- {
		p.Ops = append(p.Ops, kit.Op{A: 80, K: "sl", N: r.Dur(time.Millisecond, m.slMax)}, kit.Op{A: 80, K: "poll"})
		if r.P(70) {
			p.Ops = append(p.Ops, kit.Op{A: 80, K: "merge"})
		}
	}
	p.Ops = append(p.Ops, kit.Op{A: 80, K: "poll"}, kit.Op{A: 80, K: "merge"}, kit.Op{A: 80, K: "merge"})
	if r.P(50) {
		genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed"}, time.Duration(iv)*time.Millisecond)
	}
	return p
}

type mgHost struct {
	name  string
	node  *rt.Node
	w     *World
	sink  *health.JsonPollingSink
	epoch int
	boots int
	left  int
}

type mgInput struct {
	ia  *health.IntervalAggregation
	ref *intS // decoded independently from the same bytes
}

type mgWorld struct {
	c     *kit.Ctx
	iv    time.Duration
	hosts []*mgHost
	// instance -> interval -> latest
	have map[string]map[int64]*mgInput
}

func (g *mgWorld) boot(h *mgHost, ops map[int][]kit.Op) {
	c := g.c
	s := c.S
	epoch := h.epoch
	h.boots++
	h.left = 2
	s.GoOn(h.node, h.name+"/main", func() {
		w := newWorld(c, h.node)
		sink := health.NewJsonPollingSink(g.iv, 4000*g.iv)
		w.add(sink)
		sink.StartServer(":5020")
		h.w, h.sink = w, sink
		for a := 1; a <= 2; a++ {
			a, mine := a, ops[a]
			s.GoOn(h.node, fmt.Sprintf("%s/app%d", h.name, a), func() {
				for i := range mine {
					if h.epoch != epoch {
						return
					}
					rt.Y()
					w.actor(a).Do(&mine[i])
				}
				if h.epoch == epoch {
					h.left--
				}
			})
		}
	})
}

func runMerge(c *kit.Ctx) {
	s := c.S
	g := &mgWorld{c: c, iv: time.Duration(c.P("interval")) * time.Millisecond, have: map[string]map[int64]*mgInput{}}
	by := c.Plan.ByActor()
	coll := s.Node("collector")
	for i := 0; i < c.P("nodes"); i++ {
		h := &mgHost{name: fmt.Sprintf("h%d", i)}
		h.node = s.Node(h.name)
		h.node.Loc = kit.Zones[(c.P("tz")+i)%len(kit.Zones)]
		g.hosts = append(g.hosts, h)
		g.boot(h, map[int][]kit.Op{1: by[10*i+1], 2: by[10*i+2]})
	}
	s.WaitIdle()
	c.Spawn(s.Node("env"), "crasher", func() {
		for _, op := range by[90] {
			if op.K == "sl" {
				s.Sleep(op.N)
				continue
			}
			h := g.hosts[int(op.N)%len(g.hosts)]
			if h.boots > 3 {
				continue
			}
			h.epoch++
			s.Crash(h.node)
			h.node = s.Restart(h.name)
			h.node.Loc = kit.Zones[c.P("tz")%len(kit.Zones)]
			s.Event("restart %s", h.name)
			n := int(op.N)
			g.boot(h, map[int][]kit.Op{1: by[10*n+2], 2: by[10*n+1]})
		}
	})
	spawnOutages(c)
	c.Spawn(coll, "collector", func() {
		for _, op := range by[80] {
			switch op.K {
			case "sl":
				s.Sleep(op.N)
			case "poll":
				for _, h := range g.hosts {
					g.poll(h.name)
				}
			case "merge":
				g.merge()
			}
		}
	})
	c.JoinOrFail("C10", 24*time.Hour)
	for _, h := range g.hosts {
		for i := 0; h.left > 0 && i < 24*60; i++ {
			s.Sleep(int64(time.Minute))
		}
		if h.left > 0 {
			c.Fail("C10", "hang", "an emitter did not end; blocked: %v", s.Blocked())
			return
		}
	}
	s.WaitIdle()
	// final: everything the running processes emitted, over all hosts
	for _, h := range g.hosts {
		h := h
		ok := false
		for i := 0; i < 3 && !ok; i++ {
			c.Call(coll, "poll", 5*time.Minute, func() { ok = g.poll(h.name) })
		}
	}
	c.Call(coll, "merge", time.Hour, func() { g.merge() })
	want := map[int64]*intS{}
	var live []*health.IntervalAggregation
	for _, h := range g.hosts {
		for _, r := range h.w.recs {
			if !r.Done {
				continue
			}
			st := slot(r.W0, g.iv)
			if want[st] == nil {
				want[st] = newInt(st)
			}
			want[st].apply(r)
		}
		id := fmt.Sprintf("%s.%d", h.name, 1000+h.node.EpochNo)
		for _, in := range sortedIn(g.have[id]) {
			live = append(live, in.ia)
		}
		if g.have[id] == nil {
			c.Fail("C10", "no-data", "no answer from %s", id)
			return
		}
	}
	got := map[int64]*health.IntervalAggregation{}
	c.Call(coll, "total", time.Hour, func() {
		for _, ia := range live {
			st := ia.IntervalStart.UnixNano()
			if got[st] == nil {
				got[st] = ia.Clone()
			} else {
				got[st].Merge(ia)
			}
		}
	})
	for _, st := range sortedStarts(want) {
		wnt := want[st]
		c.Check()
		x := newInt(st)
		if got[st] != nil {
			x = fromHealth(got[st])
		}
		if d := diffInt(x, wnt, nil, false); d != "" {
			c.Fail("C10", "not-the-combined-history", "interval %s merged over %d hosts: %s", ts(st), len(g.hosts), d)
			return
		}
	}
}

func (g *mgWorld) poll(host string) bool {
	resp, err := (&simhttp.Client{Timeout: 20 * time.Second}).Get("http://" + host + ":5020/health")
	if err != nil {
		return false
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil || resp.StatusCode != 200 {
		return false
	}
	var w wResp
	var h struct {
		Aggregations []*health.IntervalAggregation `json:"aggregations"`
	}
	if json.Unmarshal(b, &w) != nil || json.Unmarshal(b, &h) != nil || w.InstanceId == "" || len(w.Aggregations) != len(h.Aggregations) {
		return false
	}
	if g.have[w.InstanceId] == nil {
		g.have[w.InstanceId] = map[int64]*mgInput{}
	}
	for i := range w.Aggregations {
		x := w.Aggregations[i].conv()
		g.have[w.InstanceId][x.Start] = &mgInput{h.Aggregations[i], x}
	}
	return true
}

// sum is the reference for a merge.
func sumInts(start int64, in []*intS, ga map[string]map[float64]bool) *intS {
	t := newInt(start)
	addM := func(d, s *amaps, where string) {
		for k, v := range s.Events {
			d.Events[k] += v
		}
		for k, v := range s.Errs {
			d.Errs[k] += v
		}
		for k, v := range s.Timers {
			x := d.Timers[k]
			x.join(v)
			d.Timers[k] = x
		}
		for k, v := range s.Gauges {
			d.Gauges[k] = v
			if ga[where+k] == nil {
				ga[where+k] = map[float64]bool{}
			}
			ga[where+k][v] = true
		}
	}
	for _, x := range in {
		addM(&t.amaps, &x.amaps, "")
		for k, j := range x.Jobs {
			d := t.Jobs[k]
			if d == nil {
				d = &jobS{amaps: newMaps()}
				t.Jobs[k] = d
			}
			addM(&d.amaps, &j.amaps, k+"\x00")
			d.T.join(j.T)
			for i := range d.Cs {
				d.Cs[i] += j.Cs[i]
			}
		}
	}
	return t
}

func (t *tim) join(o tim) {
	if o.Count == 0 {
		return
	}
	if t.Count == 0 {
		*t = o
		return
	}
	t.Count += o.Count
	t.Sum += o.Sum
	t.Sq += o.Sq
	t.Min = min(t.Min, o.Min)
	t.Max = max(t.Max, o.Max)
}

// gaugesAmong checks that every merged gauge is one of those merged.
func gaugesAmong(x *intS, ga map[string]map[float64]bool) string {
	seen := 0
	chk := func(m map[string]float64, where string) string {
		for _, k := range keysOf(m, nil) {
			seen++
			if !ga[where+k][m[k]] {
				return fmt.Sprintf("gauge %q is %v, which is none of the merged values", short(k), m[k])
			}
		}
		return ""
	}
	if d := chk(x.Gauges, ""); d != "" {
		return d
	}
	for _, k := range keysOf(x.Jobs, nil) {
		if d := chk(x.Jobs[k].Gauges, k+"\x00"); d != "" {
			return d
		}
	}
	if seen != len(ga) {
		return fmt.Sprintf("%d gauges, want %d", seen, len(ga))
	}
	return ""
}

// merge combines what was collected for each interval, in a random order and
// grouping, and checks the result and that the inputs are left alone.
func (g *mgWorld) merge() {
	c := g.c
	s := c.S
	ivs := map[string][]*mgInput{}
	for _, id := range keysOf(g.have, nil) {
		for _, in := range sortedIn(g.have[id]) {
			k := fmt.Sprint(in.ref.Start)
			ivs[k] = append(ivs[k], in)
		}
	}
	for _, k := range keysOf(ivs, nil) {
		ins := ivs[k]
		start := ins[0].ref.Start
		for i := len(ins) - 1; i > 0; i-- {
			j := s.Choose(i+1, rt.KFault)
			ins[i], ins[j] = ins[j], ins[i]
		}
		check := func(what string, got *health.IntervalAggregation, n int, ins []*mgInput) bool {
			c.Check()
			ga := map[string]map[float64]bool{}
			rs := []*intS{}
			for _, in := range ins {
				rs = append(rs, in.ref)
			}
			want := sumInts(start, rs, ga)
			x := fromHealth(got)
			if x.Start != start {
				c.Fail("C10", "wrong-interval", "%s: interval starts at %s, want %s", what, ts(x.Start), ts(start))
				return false
			}
			if d := diffInt(x, want, nil, false); d != "" {
				c.Fail("C10", "wrong-merge", "%s of %d: %s", what, n, d)
				return false
			}
			if d := gaugesAmong(x, ga); d != "" {
				c.Fail("C10", "wrong-gauge", "%s of %d: %s", what, n, d)
				return false
			}
			return true
		}
		inputsSame := func(when string) bool {
			for i, in := range ins {
				x := fromHealth(in.ia)
				if d := diffInt(x, in.ref, nil, true); d != "" || x.Serial != in.ref.Serial || x.Start != in.ref.Start {
					c.Fail("C10", "argument-changed", "%s changed aggregation %d of those merged: %s", when, i, d)
					return false
				}
			}
			return true
		}
		var acc *health.IntervalAggregation
		first := 0
		if s.Chance(1, 2, rt.KFault) {
			acc = ins[0].ia.Clone()
			if x := fromHealth(acc); x.Serial != ins[0].ref.Serial {
				c.Fail("C10", "clone-differs", "a clone has serial number %d, want %d", x.Serial, ins[0].ref.Serial)
			}
			if !check("clone", acc, 1, ins[:1]) {
				return
			}
			first = 1
		} else {
			acc = health.NewIntervalAggregation(ins[0].ia.IntervalStart)
		}
		split := first + s.Choose(len(ins)-first+1, rt.KFault)
		for _, in := range ins[first:split] {
			before := acc.SerialNumber
			acc.Merge(in.ia)
			if acc.SerialNumber <= before {
				c.Fail("C10", "serial-not-increased", "merging left the serial number at %d", acc.SerialNumber)
			}
		}
		if split < len(ins) { // the rest as a group
			grp := health.NewIntervalAggregation(ins[0].ia.IntervalStart)
			for _, in := range ins[split:] {
				grp.Merge(in.ia)
			}
			if !check("group", grp, len(ins)-split, ins[split:]) {
				return
			}
			acc.Merge(grp)
			// what happens to the group later is no concern of the result
			grp.Merge(ins[0].ia)
			grp.Merge(grp.Clone())
		}
		if !check("merge", acc, len(ins), ins) || !inputsSame("merging") {
			return
		}
		// the result and its clone are independent of each other and of the inputs
		dup := acc.Clone()
		dup.Merge(ins[0].ia)
		dup.Merge(ins[len(ins)-1].ia)
		if !check("merge (after changing a clone of it)", acc, len(ins), ins) || !inputsSame("merging into a clone") {
			return
		}
		if !check("merge", dup, len(ins)+2, append(append([]*mgInput{}, ins...), ins[0], ins[len(ins)-1])) {
			return
		}
	}
}

func sortedIn(m map[int64]*mgInput) []*mgInput {
	x := map[string]*mgInput{}
	for k, v := range m {
		x[fmt.Sprintf("%020d", k)] = v
	}
	var r []*mgInput
	for _, k := range keysOf(x, nil) {
		r = append(r, x[k])
	}
	return r
}

func init() {
	suite.Add(&kit.Scenario{Name: "merge", Gen: genMerge, Run: runMerge})
	suite.Props["C10"] = &kit.PropSpec{Scenarios: []string{"merge"}, Quick: 1000000}
}

func sortedStarts[V any](m map[int64]V) []int64 {
	var r []int64
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
