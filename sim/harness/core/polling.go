package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
)

// The polling scenario: applications emit to a polling sink while readers take
// snapshots, in process and over HTTP. Decides C05 to C09.

func genPolling(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, true)
	m := defMix()
	m.nm.long = 1
	m.burst = 3
	m.dc = 4
	m.kv = 10
	m.raw = kit.Pick(r, 0, 10)
	k, n := r.In(1, 5), r.In(2, 16)
	iv := kit.Pick(r, 1000, 1000, 2000, 5000, 7000, 60000, 100, 250, 1500, 60000)
	ret := kit.Pick(r, 2, 3, 5, 10)
	p.P["retain"] = iv*ret + kit.Pick(r, 0, 0, 0, iv/2)
	switch prop {
	case "C05", "C07", "C08", "C09":
		p.P["retain"] = iv * 4000
		if r.P(20) {
			p.P["retain"] = iv * ret
			if r.P(50) {
				// few intervals, and the window slides often
				p.P["retain"] = iv * kit.Pick(r, 1, 2, 3)
				m.sl = 14
				n += 6
			}
		}
	case "C06":
		if r.P(8) {
			p.P["retain"] = kit.Pick(r, iv, iv/2, 0)
		}
		m.sl = 10
	}
	if p.P["stall"] > 0 {
		// when time may pass at any step, only a run inside one interval has
		// exactly one right answer
		iv = 24 * 3600 * 1000
		p.P["retain"] = iv * 3
		p.P["mid"] = 1
		m.co, m.run = 0, 0
	}
	p.P["interval"] = iv
	m.slMin, m.slMax = time.Microsecond, time.Duration(iv)*time.Millisecond*2
	if m.slMax > 2*time.Minute {
		m.slMax = 2 * time.Minute
	}
	if prop == "C06" && r.P(30) && p.P["stall"] == 0 {
		// a long sleep in the middle: the window slides over everything
		m.slMax = time.Duration(p.P["retain"]+iv) * time.Millisecond * 2
	}
	if prop == "C09" {
		m.nm.odd = 60
		if r.P(15) {
			p.P["weird"] = 1
		}
	}
	if big {
		m.burst = 30
		if r.P(50) {
			n *= 8
		} else {
			// more than the queue holds
			n = r.In(800, 1600)
			k = r.In(3, 5)
			p.P["quantum"] = kit.Pick(r, 0, 60, 200)
			m.sl, m.run, m.kv = 0, 0, 0
			m.nm.long = 0
		}
	}
	if prop == "C06" && p.P["stall"] == 0 && (big && r.P(50) || r.P(1)) { // many or long intervals
		iv, ret = kit.Pick(r, 1000, 2000), kit.Pick(r, 65, 130, 300, 1450)
		if r.P(40) {
			iv, ret = kit.Pick(r, 60_000, 5_400_000, 7_200_000), kit.Pick(r, 2, 10, 65)
		}
		p.P["interval"], p.P["retain"] = iv, iv*ret
		k, n = r.In(1, 3), r.In(4, 20)
		m.sl, m.slMax = 15, time.Duration(iv)*time.Millisecond*time.Duration(max(ret/4, 2))
		if m.slMax > 6*time.Hour {
			m.slMax = 6 * time.Hour
		}
	}
	if r.P(25) {
		m.names = 40
	}
	if !big && p.P["stall"] == 0 && r.P(20) {
		// one actor, and a look after each of its emissions
		p.P["look"] = 1
		k = 1
		m.names = r.In(1, 3)
	}
	if p.P["stall"] == 0 && iv <= 60000 && r.P(50) {
		m.bound = int64(iv) * 1e6
		if r.P(30) {
			m.beat = int64(time.Second) // the sink's own ticks
		}
	}
	genActors(r, p, k, n, &m)
	if p.P["weird"] == 1 {
		p.Ops = append(p.Ops, kit.Op{A: 70, K: "job", S: "bad"})
		for i := r.In(1, 3); i > 0; i-- {
			p.Ops = append(p.Ops, kit.Op{A: 70, K: "sl", N: r.Dur(time.Millisecond, m.slMax)}, kit.Op{A: 70, K: "ga", S: "bad", M: int64(r.In(1, 3))})
		}
	}
	// readers
	nr := r.In(0, 3)
	if prop == "C07" || prop == "C08" || prop == "C09" {
		nr = r.In(1, 3)
	}
	for i := 0; i < nr; i++ {
		for q := r.In(1, 8); q > 0; q-- {
			op := kit.Op{A: 80 + i}
			switch {
			case r.P(30):
				op.K, op.N = "sl", r.Dur(time.Microsecond, m.slMax)
			case r.P(15):
				op.K = "idle"
			case prop == "C09" && r.P(65):
				op.K = "http"
				if r.P(20) {
					op.K = "path"
					op.S = kit.Pick(r, "/", "/health/", "/healthx", "/Health", "/foo?x=1", "/a%20b", "//health", "/health.json", "/jobs/%25")
				}
			default:
				op.K = "get"
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if p.P["stall"] == 0 && (prop == "C05" || prop == "C06") && r.P(20) {
		for i := r.In(1, 3); i > 0; i-- {
			p.Ops = append(p.Ops, kit.Op{A: 95, K: "sl", N: r.Dur(time.Millisecond, m.slMax)}, kit.Op{A: 95, K: "step", M: 1, N: r.Dur(time.Millisecond, time.Duration(iv)*time.Millisecond*20)})
		}
		p.P["jumps"] = 1
	}
	return p
}

type snapRec struct {
	raw   []*health.IntervalAggregation
	conv  []*intS
	at    int64
	task  int
	after int
}

type pollWorld struct {
	*World
	sink   *health.JsonPollingSink
	iv     time.Duration
	retain time.Duration
	gets   int
	snaps  []*snapRec
	bySer  map[[2]int64]*intS
	exact  bool
	start  int64 // wall clock at creation
	pref   map[int]map[int]int
	lastBy map[int]*snapRec
	weird  filter
}

func runPolling(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	iv := time.Duration(c.P("interval")) * time.Millisecond
	if c.P("mid") == 1 {
		// put simulated time 0 well inside an interval
		d := simWall(s, node) - slot(simWall(s, node), iv)
		node.Offset = -d + int64(iv)/3
	}
	w := &pollWorld{World: newWorld(c, node), iv: iv, retain: time.Duration(c.P("retain")) * time.Millisecond, bySer: map[[2]int64]*intS{},
		pref: map[int]map[int]int{}, lastBy: map[int]*snapRec{}}
	w.exact = exactTime(c)
	w.start = simWall(s, node)
	w.weird = func(n string) bool { return actorOf(n) == 70 }
	w.sink = health.NewJsonPollingSink(iv, w.retain)
	w.add(w.sink)
	needHTTP := c.Prop == "C09"
	if needHTTP {
		w.sink.StartServer(":5020")
		s.WaitIdle()
	}
	if c.P("look") == 1 {
		w.After = func(a *Actor, from int) {
			s.WaitIdle()
			w.atIdle()
		}
	}
	w.spawn(nil)
	by := c.Plan.ByActor()
	for _, id := range kit.Actors(by) {
		if id < 80 || id >= 90 {
			continue
		}
		id, ops := id, by[id]
		c.Spawn(node, fmt.Sprintf("reader%d", id), func() { w.reader(id, ops) })
	}
	spawnClock(c, node)
	c.JoinOrFail(c.Prop, 24*time.Hour)
	c.Settle()
	w.final()
	if needHTTP {
		w.finalHTTP()
		if len(simhttp.Of(s).Panics) > 0 {
			c.Fail("C09", "handler-panic", "the HTTP handler panicked: %s", simhttp.Of(s).Panics[0])
		}
	}
	// nothing handed out earlier has changed
	for i, sn := range w.snaps {
		for k, ia := range sn.raw {
			if d := diffInt(fromHealth(ia), sn.conv[k], nil, true); d != "" || fromHealth(ia).Serial != sn.conv[k].Serial {
				c.Fail("C07", "snapshot-changed", "snapshot %d taken at t=%d changed after it was returned: %s", i, sn.at, d)
			}
		}
	}
	c.Check()
}

func simWall(s *rt.Sim, n *rt.Node) int64 { return s.WallBase() + s.Now() + n.Offset }

func (w *pollWorld) reader(id int, ops []kit.Op) {
	c := w.c
	for _, op := range ops {
		switch op.K {
		case "sl":
			c.S.Sleep(op.N)
		case "idle":
			if w.exact {
				c.S.WaitIdle()
				w.atIdle()
			}
		case "get":
			w.snapshot(id)
		case "http":
			w.get(id, false)
		case "path":
			w.path(op.S)
		}
	}
}

// issued returns how many emissions each actor has begun.
func (w *pollWorld) issued() map[int]int {
	m := map[int]int{}
	for id, a := range w.acts {
		m[id] = len(a.recs)
	}
	return m
}

func (w *pollWorld) snapshot(reader int) *snapRec {
	c := w.c
	raw := w.sink.GetMetrics()
	sn := &snapRec{raw: raw, at: c.S.Now(), task: reader}
	for _, ia := range raw {
		sn.conv = append(sn.conv, fromHealth(ia))
	}
	c.S.Event("snapshot %d", len(raw))
	w.snaps = append(w.snaps, sn)
	w.checkSnap(reader, sn, "C07")
	return sn
}

// checkSnap checks everything that holds for a snapshot taken at any moment.
func (w *pollWorld) checkSnap(reader int, sn *snapRec, prop string) {
	c := w.c
	c.Check()
	for _, g := range sn.conv {
		if d := consistent(g); d != "" {
			c.Fail(prop, "torn-snapshot", "interval %s: %s", ts(g.Start), d)
		}
		k := [2]int64{g.Start, g.Serial}
		if o := w.bySer[k]; o == nil {
			w.bySer[k] = g
		} else if d := diffInt(g, o, w.weird, true); d != "" {
			c.Fail("C08", "same-serial-different-content", "interval %s has serial number %d with two different contents: %s", ts(g.Start), g.Serial, d)
		}
	}
	last := w.lastBy[reader]
	if last != nil {
		for _, o := range last.conv {
			for _, g := range sn.conv {
				if g.Start != o.Start {
					continue
				}
				if g.Serial < o.Serial {
					c.Fail("C08", "serial-decreased", "interval %s: serial number went from %d to %d", ts(g.Start), o.Serial, g.Serial)
				}
				if d := shrunk(o, g); d != "" {
					c.Fail(prop, "snapshot-went-back", "interval %s: %s", ts(g.Start), d)
				}
			}
		}
	}
	w.lastBy[reader] = sn
	if w.retain < 100*w.iv && w.exact {
		return
	}
	w.prefixes(reader, sn, prop)
}

func shrunk(o, g *intS) string {
	for k, v := range o.Events {
		if g.Events[k] < v {
			return fmt.Sprintf("event %q went from %d to %d", short(k), v, g.Events[k])
		}
	}
	for k, v := range o.Errs {
		if g.Errs[k] < v {
			return fmt.Sprintf("error event %q went from %d to %d", short(k), v, g.Errs[k])
		}
	}
	for k, v := range o.Timers {
		if g.Timers[k].Count < v.Count {
			return fmt.Sprintf("timer %q went from %d to %d", short(k), v.Count, g.Timers[k].Count)
		}
	}
	for k, v := range o.Jobs {
		if g.Jobs[k] == nil || g.Jobs[k].T.Count < v.T.Count {
			return fmt.Sprintf("job %q lost completions", short(k))
		}
	}
	return ""
}

// prefixes: for each actor, the snapshot holds exactly the first p of its
// emissions, for a p that never goes down.
func (w *pollWorld) prefixes(reader int, sn *snapRec, prop string) {
	c := w.c
	if w.pref[reader] == nil {
		w.pref[reader] = map[int]int{}
	}
	got := map[int64]*intS{}
	for _, g := range sn.conv {
		got[g.Start] = g
	}
	for _, id := range actorIDs(w.acts) {
		if id == 70 {
			continue
		}
		a := w.acts[id]
		// what the snapshot holds of this actor
		mine := map[int64]*intS{}
		n := int64(0)
		for st, g := range got {
			p := project(g, id)
			if !p.empty() {
				mine[st] = p
				n += p.weight()
			}
		}
		exp := map[int64]*intS{}
		ok := false
		var why string
		var cnt int64
		p := 0
		for {
			if p >= w.pref[reader][id] && cnt == n {
				if why = w.cmpAll(mine, exp, id); why == "" {
					ok = true
					break
				}
			}
			if p >= len(a.recs) || cnt > n {
				break
			}
			r := a.recs[p]
			st := w.slotOf(r, got)
			if exp[st] == nil {
				exp[st] = newInt(st)
			}
			applyOwn(exp[st], r)
			if r.Kind != "gauge" && !(r.Kind == "complete" && actorOf(r.Job) < 0) && (r.Kind == "complete" || actorOf(r.Event) >= 0 || r.Event == "panic" && actorOf(r.Job) >= 0) {
				cnt++
			}
			p++
		}
		if !ok {
			c.Fail(prop, "not-a-prefix", "the snapshot at t=%d is not made of the first emissions of actor %d, in order (%d of %d begun; %s)", c.S.Now(), id, n, len(a.recs), why)
		}
		w.pref[reader][id] = p
	}
}

func actorIDs(m map[int]*Actor) []int {
	x := map[int][]kit.Op{}
	for k := range m {
		x[k] = nil
	}
	return kit.Actors(x)
}

// slotOf is the interval an emission belongs to.
func (w *pollWorld) slotOf(r *Rec, got map[int64]*intS) int64 { return slot(r.W0, w.iv) }

// The general job is shared by all actors, so the per-actor view leaves job
// names out and keeps what is under the actor's own event and job names.
func applyOwn(m *intS, r *Rec) {
	if r.Kind == "complete" {
		if actorOf(r.Job) < 0 {
			return
		}
		m.apply(r)
		return
	}
	if actorOf(r.Event) < 0 {
		// under the job only; the top level event is shared
		if actorOf(r.Job) < 0 {
			return
		}
		j := m.Jobs[r.Job]
		if j == nil {
			j = &jobS{amaps: newMaps()}
			m.Jobs[r.Job] = j
		}
		j.amaps.apply(r)
		return
	}
	if actorOf(r.Job) < 0 {
		m.amaps.apply(r)
		return
	}
	m.apply(r)
}

func projMaps(g *amaps, id int) amaps {
	r := newMaps()
	for k, v := range g.Events {
		if actorOf(k) == id {
			r.Events[k] = v
		}
	}
	for k, v := range g.Errs {
		if actorOf(k) == id {
			r.Errs[k] = v
		}
	}
	for k, v := range g.Timers {
		if actorOf(k) == id {
			r.Timers[k] = v
		}
	}
	for k, v := range g.Gauges {
		if actorOf(k) == id {
			r.Gauges[k] = v
		}
	}
	return r
}

func project(g *intS, id int) *intS {
	r := newInt(g.Start)
	r.amaps = projMaps(&g.amaps, id)
	for k, j := range g.Jobs {
		if actorOf(k) == id {
			r.Jobs[k] = j
		}
	}
	return r
}

// weight is the number of emissions, other than gauges, in an actor's part.
func (m *intS) weight() int64 {
	n := int64(0)
	for _, v := range m.Events {
		n += v
	}
	for _, v := range m.Errs {
		n += v
	}
	for _, v := range m.Timers {
		n += v.Count
	}
	for _, j := range m.Jobs {
		n += j.T.Count + j.Errs["panic"]
	}
	return n
}

func (w *pollWorld) cmpAll(got, want map[int64]*intS, id int) string {
	for _, st := range sortedStarts(got) {
		g, e := got[st], want[st]
		if e == nil {
			return fmt.Sprintf("data in interval %s, none expected", ts(st))
		}
		if d := diffInt(g, e, nil, true); d != "" {
			return d
		}
	}
	for _, st := range sortedStarts(want) {
		if got[st] == nil && !want[st].empty() {
			return fmt.Sprintf("interval %s is missing", ts(st))
		}
	}
	return ""
}

func ts(ns int64) string { return time.Unix(0, ns).UTC().Format("15:04:05.000") }

// expected is the reference aggregation of everything emitted, by interval.
func (w *pollWorld) expected() map[int64]*intS {
	m := map[int64]*intS{}
	for _, r := range w.recs {
		if r.Actor == 70 {
			continue // non-finite gauges
		}
		st := slot(r.W0, w.iv)
		if m[st] == nil {
			m[st] = newInt(st)
		}
		m[st].apply(r)
	}
	return m
}

// atIdle takes a snapshot when nothing is queued: it must be exact.
func (w *pollWorld) atIdle() {
	before := len(w.recs)
	a := w.snapshot(0)
	if len(w.recs) != before {
		return // an emission began meanwhile
	}
	w.window(a.conv)
}

// window compares a quiescent snapshot with the reference model. It is exact
// if no emission is in flight.
func (w *pollWorld) window(got []*intS) {
	c := w.c
	exp := w.expected()
	n := int64(w.retain / w.iv)
	if n < 1 {
		n = 1
	}
	cur := slot(simWall(c.S, w.node), w.iv)
	c.Check()
	if int64(len(got)) > n {
		c.Fail("C06", "too-many-intervals", "%d intervals are kept, retain/interval is %d", len(got), n)
	}
	if len(got) == 0 || got[len(got)-1].Start != cur {
		c.Fail("C06", "no-current-interval", "the newest interval is not the current one, %s", ts(cur))
		return
	}
	have := map[int64]*intS{}
	for i, g := range got {
		if slot(g.Start, w.iv) != g.Start {
			c.Fail("C06", "not-aligned", "interval start %s is not a multiple of %v", ts(g.Start), w.iv)
		}
		if i > 0 && g.Start <= got[i-1].Start {
			c.Fail("C06", "not-ascending", "interval %s comes after %s", ts(g.Start), ts(got[i-1].Start))
		}
		have[g.Start] = g
		e := exp[g.Start]
		if e == nil {
			e = newInt(g.Start)
		}
		if d := diffInt(g, e, w.weird, true); d != "" {
			c.Fail("C05", "wrong-aggregate", "interval %s: %s", ts(g.Start), d)
			c.Fail("C06", "wrong-interval", "interval %s: %s", ts(g.Start), d)
		}
		if c.P("jumps") == 0 && w.iv >= time.Second && g.Start <= cur-n*int64(w.iv) {
			c.Fail("C06", "too-old", "interval %s is still there at %s (interval %v, retain %v)", ts(g.Start), ts(cur), w.iv, w.retain)
		}
	}
	for st := range exp {
		if st > cur-n*int64(w.iv) && have[st] == nil {
			c.Fail("C05", "interval-lost", "the interval %s with data is missing at %s (interval %v, retain %v)", ts(st), ts(cur), w.iv, w.retain)
			c.Fail("C06", "interval-lost", "the interval %s with data is missing at %s (interval %v, retain %v)", ts(st), ts(cur), w.iv, w.retain)
		}
	}
}

func (w *pollWorld) final() {
	c := w.c
	if w.exact {
		a := w.snapshot(0)
		w.window(a.conv)
		// no emission in between: same serial numbers
		b := w.snapshot(0)
		for _, g := range a.conv {
			for _, h := range b.conv {
				if g.Start == h.Start && g.Serial != h.Serial {
					c.Fail("C08", "serial-changed", "interval %s: serial number went from %d to %d without an emission", ts(g.Start), g.Serial, h.Serial)
				}
			}
		}
		return
	}
	// one interval holds everything
	sn := w.snapshot(0)
	exp := newInt(0)
	for _, r := range w.recs {
		if r.Actor != 70 {
			exp.apply(r)
		}
	}
	for _, g := range sn.conv {
		if g.empty() {
			continue
		}
		if d := diffInt(g, exp, w.weird, true); d != "" {
			c.Fail("C05", "wrong-aggregate", "interval %s: %s", ts(g.Start), d)
			c.Fail("C06", "wrong-interval", "interval %s: %s", ts(g.Start), d)
		}
	}
	if len(sn.conv) == 0 || (!exp.empty() && sn.conv[len(sn.conv)-1].empty()) {
		c.Fail("C05", "interval-lost", "no data in the snapshot")
	}
	c.Check()
}

// ---- HTTP ----

func (w *pollWorld) fetch(path string) (int, http.Header, []byte, bool) {
	c := w.c
	var code int
	var hdr http.Header
	var body []byte
	var err error
	ok := c.Call(c.S.Node("probe"), "get "+path, time.Minute, func() {
		cl := &simhttp.Client{}
		var resp *http.Response
		resp, err = cl.Get("http://main:5020" + path)
		if err != nil {
			return
		}
		code, hdr = resp.StatusCode, resp.Header
		body, err = io.ReadAll(resp.Body)
		resp.Body.Close()
	})
	if !ok {
		c.Fail("C09", "no-answer", "GET %s got no answer within a minute", path)
		return 0, nil, nil, false
	}
	if err != nil {
		c.Fail("C09", "no-answer", "GET %s failed: %v", path, err)
		return 0, nil, nil, false
	}
	c.Check()
	return code, hdr, body, true
}

func (w *pollWorld) path(p string) {
	code, hdr, body, ok := w.fetch(p)
	if !ok {
		return
	}
	if code != 404 {
		w.c.Fail("C09", "not-404", "GET %s answered %d", p, code)
	}
	if !json.Valid(body) || !isJSON(hdr) {
		w.c.Fail("C09", "404-not-json", "GET %s answered %q (%s)", p, short(string(body)), hdr.Get("Content-Type"))
	}
}

func isJSON(h http.Header) bool {
	ct := h.Get("Content-Type")
	return len(ct) >= 16 && ct[:16] == "application/json"
}

func (w *pollWorld) get(reader int, final bool) []*intS {
	c := w.c
	w.gets++
	var before []*intS
	between := w.gets%2 == 0
	if between {
		before = convAll(w.sink.GetMetrics())
	}
	cur := slot(simWall(c.S, w.node), w.iv)
	code, hdr, body, ok := w.fetch("/health")
	if !ok {
		return nil
	}
	if slot(simWall(c.S, w.node), w.iv) != cur {
		cur = 0 // the interval ended meanwhile
	}
	if code != 200 {
		c.Fail("C09", "not-200", "GET /health answered %d: %s", code, short(string(body)))
		return nil
	}
	var resp wResp
	if err := json.Unmarshal(body, &resp); err != nil {
		c.Fail("C09", "bad-json", "GET /health answered JSON that does not parse: %v", err)
		return nil
	}
	if !isJSON(hdr) {
		c.Fail("C09", "content-type", "GET /health answered content type %q", hdr.Get("Content-Type"))
	}
	if want := fmt.Sprintf("main.%d", 1000+w.node.EpochNo); resp.InstanceId != want {
		c.Fail("C09", "instance-id", "instance_id is %q, want %q", resp.InstanceId, want)
	}
	if resp.IntervalDuration != int64(w.iv) {
		c.Fail("C09", "interval-duration", "interval_duration is %d, want %d", resp.IntervalDuration, int64(w.iv))
	}
	sn := &snapRec{at: c.S.Now(), task: reader}
	for i := range resp.Aggregations {
		sn.conv = append(sn.conv, resp.Aggregations[i].conv())
	}
	c.S.Event("health %d", len(sn.conv))
	if n := len(sn.conv); cur != 0 && (n == 0 || sn.conv[n-1].Start != cur) {
		c.Fail("C09", "no-current", "GET /health answered %d intervals, and the last is not the present one, %s", n, ts(cur))
	}
	if between {
		if d := sameInts(before, convAll(w.sink.GetMetrics()), w.weird); d == "" { // nothing happened meanwhile
			c.Check()
			if d := sameInts(before, sn.conv, w.weird); d != "" {
				c.Fail("C09", "unfaithful", "GET /health between two equal reads of the metrics: %s", d)
			}
		}
	}
	if !final {
		w.checkSnap(reader, sn, "C09")
	}
	return sn.conv
}

func convAll(l []*health.IntervalAggregation) (r []*intS) {
	for _, ia := range l {
		r = append(r, fromHealth(ia))
	}
	return
}

// sameInts compares two lists of intervals; "" if equal.
func sameInts(a, b []*intS, weird filter) string {
	for i := range a {
		if i >= len(b) || b[i].Start != a[i].Start {
			return fmt.Sprintf("interval %s is missing or in another place", ts(a[i].Start))
		}
		if a[i].Serial != b[i].Serial {
			return fmt.Sprintf("interval %s has serial number %d and %d", ts(a[i].Start), a[i].Serial, b[i].Serial)
		}
		if d := diffInt(b[i], a[i], weird, true); d != "" {
			return fmt.Sprintf("interval %s: %s", ts(a[i].Start), d)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("interval %s is one too many", ts(b[len(a)].Start))
	}
	return ""
}

func (w *pollWorld) finalHTTP() {
	c := w.c
	got := w.get(0, true)
	exp := w.expected()
	if !w.exact {
		exp = map[int64]*intS{}
		for _, g := range got {
			if !g.empty() {
				exp[g.Start] = newInt(g.Start)
				for _, r := range w.recs {
					if r.Actor != 70 {
						exp[g.Start].apply(r)
					}
				}
			}
		}
	}
	have := map[int64]bool{}
	for _, g := range got {
		have[g.Start] = true
		e := exp[g.Start]
		if e == nil {
			e = newInt(g.Start)
		}
		if d := diffInt(g, e, w.weird, true); d != "" {
			c.Fail("C09", "unfaithful", "interval %s over HTTP: %s", ts(g.Start), d)
		}
	}
	n := int64(w.retain / w.iv)
	if n < 1 {
		n = 1
	}
	cur := slot(simWall(c.S, w.node), w.iv)
	for st := range exp {
		if !have[st] && st > cur-n*int64(w.iv) {
			c.Fail("C09", "unfaithful", "interval %s is missing over HTTP", ts(st))
		}
	}
	for _, p := range []string{"/", "/nope"} {
		w.path(p)
	}
}

func init() {
	suite.Add(&kit.Scenario{Name: "polling", Gen: genPolling, Run: runPolling})
	for _, p := range []string{"C05", "C06", "C07", "C08", "C09"} {
		suite.Props[p] = &kit.PropSpec{Scenarios: []string{"polling"}, Quick: 1000000}
	}
}
