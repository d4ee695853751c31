//go:build hd

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"github.com/gocraft/health"
	hdmain "github.com/gocraft/health/cmd/healthd"
	"github.com/gocraft/health/healthd"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
	"vsim/simtime"
)

// The fleet scenario: hosts that run applications with a polling sink, crash and
// restart; healthd, which polls them over a faulty network and may crash too;
// and clients of healthd's API. Decides C22 to C26 and C31.

func genFleet(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, prop == "C26" && r.P(30))
	m := defMix()
	m.dc = 6
	m.kv = 5
	m.g = 0
	m.names = r.In(2, 6)
	m.nm = nameOpts{odd: 40, long: 1}
	if prop == "C27" {
		m.nm = nameOpts{long: 2}
	}
	iv := kit.Pick(r, 20_000, 60_000, 60_000, 300_000)
	jumps := 0
	if prop != "C26" && prop != "C27" && (r.P(30) || prop == "C31" && r.P(60)) {
		jumps = kit.Pick(r, 1, 3, 8, 15)
		if r.P(12) || prop == "C31" && r.P(40) {
			jumps = r.In(30, 60)
		}
		iv = kit.Pick(r, 20_000, 60_000, 60_000, 1_800_000, 3_600_000, 10_800_000)
	}
	p.P["interval"] = iv
	p.P["ret"] = kit.Pick(r, 3, 5, 5, 12)
	p.P["main"] = 0
	if iv == 60_000 && r.P(40) {
		p.P["main"] = 1
	}
	p.P["skew"] = kit.Pick(r, 0, 0, 1, 2)
	p.P["sameid"] = kit.Pick(r, 0, 0, 0, 1)
	p.P["pid1"] = kit.Pick(r, 0, 0, 0, 1)
	p.P["oddiv"] = 0
	if prop != "C27" && r.P(12) {
		p.P["oddiv"] = r.In(1, 2)
	}
	m.slMin, m.slMax = time.Millisecond, time.Duration(iv)*time.Millisecond/4
	if m.slMax > 3*time.Minute {
		m.slMax = 3 * time.Minute
	}
	k := r.In(1, 4)
	n := r.In(2, 10)
	span := time.Duration(n) * m.slMax / 8
	if span < 30*time.Second {
		span = 30 * time.Second
	}
	crashes := kit.Pick(r, 0, 0, 4, 10)
	if big {
		if r.P(40) {
			// many hosts that do little
			k = r.In(60, 90)
			n = 1
			p.P["quantum"] = kit.Pick(r, 0, 0, 20)
			p.P["late"] = kit.Pick(r, 0, 1_000, 1_800, 2_050, 2_200)
			p.P["same"] = kit.Pick(r, 0, 1)
			crashes, jumps = 0, 0
		} else {
			n *= 3
			if jumps > 0 {
				jumps = 130
			}
		}
	}
	for i := 0; i < jumps; i++ {
		d := r.Dur(time.Millisecond, span) / 2
		if jumps >= 30 {
			d = r.Dur(10*time.Second, 13*time.Second)
		}
		j := r.Dur(time.Second, 3*time.Duration(iv)*time.Millisecond)
		if r.P(15) {
			j = int64(r.In(1, 130)) * int64(iv) * 1e6
		}
		p.Ops = append(p.Ops, kit.Op{A: 95, K: "sl", N: d}, kit.Op{A: 95, K: "jump", N: j, M: int64(r.N(1000)), F: math.Round(r.F() * 1000)})
	}
	p.P["later"] = 0
	if prop == "C22" {
		p.P["later"] = kit.Pick(r, 0, 0, 3, 12)
	}
	p.P["hosts"] = k
	pool := genPool(r, &m)
	for h := 0; h < k; h++ {
		for a := 1; a <= 2; a++ {
			p.Ops = append(p.Ops, kit.Op{A: 1000 + 10*h + a, K: "job", S: kit.PickOf(r, pool)})
		}
	}
	for i := 0; i < n; i++ {
		for h := 0; h < k; h++ {
			for a := 1; a <= 2; a++ {
				if k > 50 && a == 2 {
					continue
				}
				op := genEmit(r, 1000+10*h+a, &m, pool)
				if r.P(25) {
					op = kit.Op{A: 1000 + 10*h + a, K: "shared", N: int64(r.N(5)), M: genNanos(r), F: math.Round(r.F() * 1000)}
				}
				p.Ops = append(p.Ops, op)
				if r.P(crashes) {
					x := int64(h)
					if r.P(15) {
						x = -1
					}
					p.Ops = append(p.Ops, kit.Op{A: 90, K: "sl", N: r.Dur(time.Millisecond, span)}, kit.Op{A: 90, K: "crash", N: x, M: r.Dur(time.Millisecond, 40*time.Second)})
				}
			}
		}
	}
	if k < 50 && (big && r.P(50) || r.P(2)) { // a host with much to report
		for i := r.In(1, 2); i > 0; i-- {
			op := genBurst(r, 1000+10*r.N(k)+r.In(1, 2), &m, pool)
			if r.P(60) {
				op.T = "dc"
			}
			if prop == "C27" {
				op.N = min(op.N, 150)
			} else if r.P(15) {
				op.N = 3000
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if prop == "C27" {
		genTop(r, p, span)
	} else if prop == "C24" && r.P(40) {
		// failures of all sorts, one after the other
		p.Ops = append(p.Ops, kit.Op{A: 96, K: "outage", S: "mixed", N: int64(kit.Pick(r, 50, 80, 100))}, kit.Op{A: 96, K: "sl", N: int64(span) + r.Dur(time.Second, time.Minute)}, kit.Op{A: 96, K: "heal"})
		p.P["faulthost"] = r.N(k + 2)
	} else if r.P(70) {
		genOutages(r, p, []string{"down", "flaky", "5xx", "5xxdata", "4xxgarbage", "slow", "garbage", "mixed", "hang"}, span)
		p.P["faulthost"] = r.N(k + 2) // > number of hosts: all
	}
	for i := r.In(0, 2); i > 0; i-- {
		p.Ops = append(p.Ops, kit.Op{A: 97, K: "sl", N: r.Dur(time.Millisecond, span)}, kit.Op{A: 97, K: "cut", N: int64(r.N(k))},
			kit.Op{A: 97, K: "sl", N: r.Dur(time.Millisecond, span)}, kit.Op{A: 97, K: "mend"})
	}
	nr := r.In(0, 2)
	if prop == "C32" {
		p.P["main"] = 0
	}
	if prop == "C23" || prop == "C24" || prop == "C25" || prop == "C26" || prop == "C32" {
		nr = r.In(1, 3)
	}
	if (prop == "C32" || prop == "C25") && r.P(50) {
		// requests at the same moments
		nr = r.In(2, 4)
		for q := r.In(1, 6); q > 0; q-- {
			d := r.Dur(time.Millisecond, 15*time.Second)
			for i := 0; i < nr; i++ {
				p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "sl", N: d}, genAsk(r, 80+i, prop))
			}
		}
		nr = 0
	}
	for i := 0; i < nr; i++ {
		for q := r.In(1, 8); q > 0; q-- {
			p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "sl", N: r.Dur(time.Millisecond, 15*time.Second)}, genAsk(r, 80+i, prop))
		}
	}
	if prop == "C26" {
		p.P["stopat"] = int(r.Dur(time.Millisecond, time.Minute))
		p.P["main"] = 0
		p.P["burst"] = kit.Pick(r, 0, 3, 20)
		p.P["twice"] = r.N(2)
	}
	return p
}

var sorts = []string{"", "name", "count", "count_success", "count_validation_error", "count_panic", "count_error", "count_junk", "total_time", "avg", "min", "max", "stddev", "nonsense", "Name", "%d"}

func genAsk(r *kit.Rng, a int, prop string) kit.Op {
	op := kit.Op{A: a, K: "ask"}
	switch r.N(7) {
	case 0, 1:
		op.S = "/healthd/aggregations"
	case 2:
		op.S = "/healthd/aggregations/overall"
	case 3:
		op.S = "/healthd/hosts"
	case 4, 5:
		op.S = "/healthd/jobs"
		q := []string{}
		if r.P(80) {
			q = append(q, "sort="+url.QueryEscape(kit.PickOf(r, sorts)))
		}
		if r.P(60) {
			q = append(q, "limit="+kit.PickOf(r, jobLimits))
		}
		if len(q) > 0 {
			op.S += "?" + strings.Join(q, "&")
		}
	case 6:
		op.S = kit.Pick(r, "/", "/healthd", "/jobs", "/health", "/healthd/job", "/healthd/%25d", "/healthd/aggregations/x", "/healthd/hosts%00")
	}
	return op
}

var jobLimits = []string{"0", "1", "2", "3", "4", "1", "2", "3", "10", "-1", "x", "", "99999999999999999999", "1.5", "130", "1000", "3000000000", "010", "0x2", "%2B2", "%202", "1_0"}

type flHost struct {
	name  string
	idx   int
	node  *rt.Node
	boots int
	left  int
	inst  *flInst
}

// flInst is one life of a host.
type flInst struct {
	h    *flHost
	id   string
	iv   time.Duration
	w    *World
	dead bool
	node *rt.Node
	sh   []*Rec // shared metrics
}

type fleet struct {
	c      *kit.Ctx
	iv     time.Duration
	ret    int
	hosts  []*flHost
	insts  []*flInst
	owner  map[int]*flInst // actor id -> life
	hd     *healthd.HealthD
	hdN    *rt.Node
	boots  int
	ops    *rt.Node
	peers  []string
	since  int64 // when the present healthd was started
	down   bool
	top    *top
	jumps  []flJump
	mem    memory
	isGood map[*simhttp.Call]bool
	seen   map[int64]*intS // what healthd settled at

	own            *ownSink // of the present life of healthd
	reqs, answered map[string]int
}

// flJump is a step of all wall clocks.
type flJump struct{ at, d int64 }

// wallHD was healthd's wall clock at simulated time t.
func (f *fleet) wallHD(t int64) int64 {
	w := simtime.WallOf(f.hdN, t)
	for _, j := range f.jumps {
		if j.at > t {
			w -= j.d
		}
	}
	return w
}

// jump lets a long time pass, as when all machines are suspended.
func (f *fleet) jump(d int64) {
	s := f.c.S
	s.WaitIdle()
	for _, h := range f.hosts {
		h.node.Offset += d
	}
	f.hdN.Offset += d
	f.jumps = append(f.jumps, flJump{s.Now(), d})
	s.Count("fault.clock.jump", 1)
	s.Event("jump %d", d)
}

func (f *fleet) bootHost(h *flHost) {
	c := f.c
	s := c.S
	h.boots++
	in := &flInst{h: h, node: h.node, id: fmt.Sprintf("%s.%d", h.name, 1000+h.node.EpochNo), iv: f.iv}
	if o := c.P("oddiv"); h.idx == 0 && len(f.peers) > 1 && o > 0 {
		in.iv = f.iv * 2
		if o == 2 {
			in.iv = f.iv / 2
		}
	}
	h.inst = in
	f.insts = append(f.insts, in)
	by := c.Plan.ByActor()
	h.left = 2
	s.GoOn(h.node, h.name+"/main", func() {
		w := newWorld(c, h.node)
		in.w = w
		sink := health.NewJsonPollingSink(in.iv, in.iv*time.Duration(f.ret))
		w.add(sink)
		sink.StartServer(":5020")
		for a := 1; a <= 2; a++ {
			id := 1000 + 10*h.idx + a
			mine := by[id]
			if h.boots > 1 {
				mine = by[1000+10*h.idx+3-a]
			}
			id += 10_000_000 * h.boots
			f.owner[id] = in
			act := w.actor(id)
			s.GoOn(h.node, fmt.Sprintf("%s/app%d", h.name, a), func() {
				for i := range mine {
					if in.dead {
						return
					}
					rt.Y()
					if mine[i].K == "shared" {
						f.shared(in, &mine[i])
						continue
					}
					act.Do(&mine[i])
				}
				if !in.dead {
					h.left--
				}
			})
		}
	})
}

// shared emits under names all hosts use.
func (f *fleet) shared(in *flInst, op *kit.Op) {
	r := &Rec{Job: "shared", Event: "shared", W0: wall(in.w), T0: f.c.S.Now()}
	in.sh = append(in.sh, r)
	st := in.w.st
	switch op.N {
	case 0:
		r.Kind = "event"
		st.NewJob("shared").Event("shared")
	case 1:
		r.Kind, r.Nanos = "timing", op.M
		st.NewJob("shared").Timing("shared", op.M)
	case 2:
		r.Kind, r.Value = "gauge", op.F
		st.NewJob("shared").Gauge("shared", op.F)
	case 3:
		r.Kind = "err"
		st.NewJob("shared").EventErr("shared", fmt.Errorf("shared %d", op.M))
	case 4:
		r.Kind, r.Status, r.Nanos = "complete", statuses[int(op.M&0xffff)%5], op.M
		in.w.sinks[0].EmitComplete("shared", r.Status, op.M, nil)
	}
	r.Done = true
	r.T1 = f.c.S.Now()
}

func (f *fleet) bootHD() {
	c := f.c
	s := c.S
	f.boots++
	f.since = s.Now()
	f.down = false
	f.answered = map[string]int{}
	if f.reqs == nil {
		f.reqs = map[string]int{} // in all lives: one may have begun in the last
	}
	f.hdN.Loc = kit.Zones[c.P("tz")%len(kit.Zones)]
	s.GoOn(f.hdN, "healthd", func() {
		if c.P("main") == 1 {
			f.hdN.Vars["HEALTHD_MONITORED_HOSTPORTS"] = strings.Join(f.peers, ",")
			hdmain.SimMain()
			return
		}
		st := health.NewStream()
		if c.Prop == "C32" {
			f.own = &ownSink{c: c}
			st.AddSink(f.own)
		}
		f.hd = healthd.StartNewHealthD(append([]string{}, f.peers...), ":5031", st)
	})
}

// ownSink is on healthd's own stream.
type ownSink struct {
	c    *kit.Ctx
	recs []*got
}

func (k *ownSink) take(g *got, kvs map[string]string) {
	g.At = k.c.S.Now()
	g.Kvs = union(kvs)
	k.recs = append(k.recs, g)
	k.c.S.Event("own %s %q %q %d", g.Kind, g.Job, g.Event, g.Status)
	rt.Yield()
}
func (k *ownSink) EmitEvent(job, ev string, kvs map[string]string) {
	k.take(&got{Kind: "event", Job: job, Event: ev}, kvs)
}
func (k *ownSink) EmitEventErr(job, ev string, err error, kvs map[string]string) {
	k.take(&got{Kind: "err", Job: job, Event: ev, ErrMsg: fmt.Sprint(err)}, kvs)
}
func (k *ownSink) EmitTiming(job, ev string, n int64, kvs map[string]string) {
	k.take(&got{Kind: "timing", Job: job, Event: ev, Nanos: n}, kvs)
}
func (k *ownSink) EmitGauge(job, ev string, v float64, kvs map[string]string) {
	k.take(&got{Kind: "gauge", Job: job, Event: ev, Value: v}, kvs)
}
func (k *ownSink) EmitComplete(job string, st health.CompletionStatus, n int64, kvs map[string]string) {
	k.take(&got{Kind: "complete", Job: job, Status: st, Nanos: n}, kvs)
}

// ownMetrics compares what healthd emitted about itself with what it did.
func (f *fleet) ownMetrics() {
	c := f.c
	s := c.S
	nw := simhttp.Of(s)
	for i := 0; ; i++ {
		s.WaitIdle()
		busy := false
		for _, cl := range nw.Calls {
			if cl.From == f.hdN && cl.Start >= f.since && (cl.End == 0 || cl.Resp != nil && !cl.Resp.Ended) {
				busy = true
			}
		}
		if !busy {
			break
		}
		if i > 60 {
			return // another property's business
		}
		s.Sleep(777 * 1e6)
	}
	c.Check()
	if f.own == nil || f.down {
		return
	}
	polls := map[string][]*simhttp.Call{}
	failed := 0
	for _, cl := range nw.Calls {
		if cl.From == f.hdN && cl.Start >= f.since {
			u, _ := url.Parse(cl.URL)
			polls[u.Host] = append(polls[u.Host], cl)
			if hopeless(cl) {
				failed++
			}
		}
	}
	done := map[string][]*got{}
	compl, begun := map[string]int{}, map[string]int{}
	errs, unsure := 0, 0
	recalc := 0
	for _, g := range f.own.recs {
		switch {
		case g.Job == "poll" && g.Kind == "complete":
			done[g.Kvs["host_port"]] = append(done[g.Kvs["host_port"]], g)
		case g.Job == "poll" && g.Kind == "err":
			errs++
		case g.Job == "recalculate" && g.Kind == "complete":
			if recalc++; g.Status != health.Success {
				c.Fail("C32", "recalculate", "healthd completed a recalculation with status %v", g.Status)
			}
		case g.Kind == "event" && g.Event == "starting_request":
			begun[g.Job]++
			if g.Kvs["path"] != g.Job {
				c.Fail("C32", "request", "a request for %s began with path %q", g.Job, g.Kvs["path"])
			}
		case g.Kind == "complete" && hdPaths[g.Job]:
			compl[g.Job]++
			if g.Status != health.Success || g.Kvs["path"] != g.Job || g.Kvs["code"] != "200" {
				c.Fail("C32", "request", "a request for %s, answered with 200, was completed with %v %v", g.Job, g.Status, g.Kvs)
			}
		}
	}
	for _, h := range f.peers {
		cs, ds := polls[h], done[h]
		if len(cs) != len(ds) {
			c.Fail("C32", "polls", "%s was polled %d times, and %d poll jobs were completed for it", h, len(cs), len(ds))
			return
		}
		for i, cl := range cs {
			c.Check()
			d := ds[i]
			switch {
			case f.good(cl) && (d.Status != health.Success || d.Nanos != cl.Resp.EndAt-cl.Start):
				c.Fail("C32", "poll-outcome", "the good poll of %s at t=%v, which took %v, was completed with %v after %v", h, time.Duration(cl.Start), time.Duration(cl.Resp.EndAt-cl.Start), d.Status, time.Duration(d.Nanos))
			case hopeless(cl) && d.Status != health.Error:
				c.Fail("C32", "poll-outcome", "the failed poll of %s at t=%v (%s) was completed with %v", h, time.Duration(cl.Start), simhttp.FaultNames[cl.Fault], d.Status)
			case !f.good(cl) && !hopeless(cl):
				unsure++
			}
		}
	}
	if errs < failed || errs > failed+unsure {
		c.Fail("C32", "poll-errors", "%d polls failed, and %d errors were emitted about polls", failed, errs)
	}
	for p := range hdPaths {
		for what, n := range map[string]int{"begun": begun[p], "completed": compl[p]} {
			if n < f.answered[p] || n > f.reqs[p] {
				c.Fail("C32", "requests", "%d requests for %s were made, %d answered, and %d reported %s", f.reqs[p], p, f.answered[p], n, what)
			}
		}
	}
	if s.Now() > f.since+int64(20*time.Second) && recalc == 0 {
		c.Fail("C32", "recalculate", "no recalculation was reported in %v", time.Duration(s.Now()-f.since))
	}
}

// hopeless: the poll got no answer that can be read.
func hopeless(cl *simhttp.Call) bool {
	if cl.Err != nil || cl.Resp == nil || cl.Resp.Err != nil {
		return true
	}
	var b health.HealthAggregationsResponse
	return cl.Resp.Ended && json.Unmarshal(cl.Resp.Data(), &b) != nil
}

func runFleet(c *kit.Ctx) {
	s := c.S
	f := &fleet{c: c, iv: time.Duration(c.P("interval")) * time.Millisecond, ret: c.P("ret"), owner: map[int]*flInst{}}
	f.ops = s.Node("ops")
	f.hdN = s.Node("hd")
	nw := simhttp.Of(s)
	if late := c.P("late"); late > 0 {
		// one host is fast, the others are slow
		nw.Latency = func(target string) int64 {
			if target == "h0:5020" || target[0] != 'h' || target[1] == 'd' {
				return 0
			}
			if c.P("same") == 1 {
				return int64(late) * 1e6
			}
			return int64(late+s.Choose(60, rt.KFault)) * 1e6
		}
	} else if c.P("same") == 1 { // everybody answers at the very same moment
		nw.Latency = func(target string) int64 { return 1e6 }
	}
	by := c.Plan.ByActor()
	for i := 0; i < c.P("hosts"); i++ {
		h := &flHost{name: fmt.Sprintf("h%d", i), idx: i}
		h.node = s.Node(h.name)
		f.setNode(h)
		f.hosts = append(f.hosts, h)
		f.peers = append(f.peers, h.name+":5020")
	}
	for _, h := range f.hosts {
		f.bootHost(h)
	}
	s.WaitIdle()
	f.bootHD()
	s.WaitIdle()
	c.Spawn(s.Node("env"), "crasher", func() {
		for _, op := range by[90] {
			if op.K == "sl" {
				s.Sleep(op.N)
				continue
			}
			if op.N < 0 {
				if f.boots > 2 || c.Prop == "C26" {
					continue
				}
				s.Event("crash healthd")
				f.down = true
				s.Crash(f.hdN)
				s.Sleep(op.M)
				f.hdN = s.Restart("hd")
				f.bootHD()
				continue
			}
			h := f.hosts[int(op.N)%len(f.hosts)]
			if h.boots > 3 || h.inst.dead {
				continue
			}
			h.inst.dead = true
			s.Event("crash %s", h.name)
			s.Crash(h.node)
			s.Sleep(op.M)
			h.node = s.Restart(h.name)
			f.setNode(h)
			f.bootHost(h)
		}
	})
	c.Spawn(s.Node("env"), "jumper", func() {
		for _, op := range by[95] {
			if op.K == "sl" {
				s.Sleep(op.N)
			} else {
				f.jump(op.N)
				if op.M > 0 {
					// life goes on
					h := f.hosts[int(op.M)%len(f.hosts)]
					if in := h.inst; in.w != nil && !in.dead {
						op := op
						op.N, op.M = op.M%5, op.M
						s.GoOn(h.node, h.name+"/wake", func() { f.shared(in, &op) })
						s.WaitIdle()
					}
				}
			}
		}
	})
	c.Spawn(s.Node("env"), "cutter", func() {
		cut := ""
		for _, op := range by[97] {
			switch op.K {
			case "sl":
				s.Sleep(op.N)
			case "cut":
				cut = fmt.Sprintf("hd|h%d", int(op.N)%len(f.hosts))
				nw.Partition[cut] = true
				s.Event("cut %s", cut)
			case "cuttop":
				cut = "top|hd"
				nw.Partition[cut] = true
				s.Event("cut %s", cut)
			case "mend":
				delete(nw.Partition, cut)
				s.Event("mend %s", cut)
			}
		}
		delete(nw.Partition, cut)
	})
	if c.Prop == "C27" {
		spawnOutages(c, "hd")
		f.bootTop()
	} else if fh := c.P("faulthost"); fh < len(f.hosts) {
		spawnOutages(c, fmt.Sprintf("h%d", fh))
	} else {
		var hs []string
		for _, h := range f.hosts {
			hs = append(hs, h.name)
		}
		spawnOutages(c, hs...)
	}
	if c.Prop == "C26" {
		f.stop()
		return
	}
	for _, id := range kit.Actors(by) {
		if id < 80 || id >= 90 {
			continue
		}
		ops := by[id]
		c.Spawn(f.ops, fmt.Sprintf("client%d", id), func() {
			for _, op := range ops {
				if op.K == "sl" {
					s.Sleep(op.N)
					continue
				}
				f.ask(op.S, false)
				if c.Prop == "C24" {
					f.quietHosts()
				}
			}
		})
	}
	c.JoinOrFail(c.Prop, 24*time.Hour)
	for _, h := range f.hosts {
		for i := 0; h.left > 0 && i < 24*60; i++ {
			s.Sleep(int64(10 * time.Second))
		}
		if h.left > 0 {
			c.Fail(c.Prop, "hang", "an emitter did not end; blocked: %v", s.Blocked())
			return
		}
	}
	// faults have stopped: one poll (10 s), its time limit (5 s), the debouncer
	s.Sleep(int64(30 * time.Second))
	if c.Prop == "C31" {
		f.bounded()
		return
	}
	if c.Prop == "C27" {
		f.top.settled()
		return
	}
	if c.Prop == "C32" {
		f.ownMetrics()
		return
	}
	for i := 0; i < 3; i++ {
		s.Sleep(int64(1+s.Choose(7000, rt.KFault)) * 1e6)
		f.converged()
		f.quietHosts()
		if c.Prop == "C25" {
			for _, so := range []string{"name", sorts[s.Choose(len(sorts), rt.KFault)]} {
				f.ask("/healthd/jobs?sort="+url.QueryEscape(so)+"&limit="+jobLimits[s.Choose(len(jobLimits), rt.KFault)], true)
			}
			f.ask("/healthd/aggregations/overall", true)
		}
	}
	f.later()
	if len(nw.Panics) > 0 {
		c.Fail("C25", "handler-panic", "a handler panicked: %s", nw.Panics[0])
	}
}

func (f *fleet) setNode(h *flHost) {
	h.node.Loc = kit.Zones[(f.c.P("tz")+h.idx)%len(kit.Zones)]
	if h.boots == 0 {
		switch f.c.P("skew") {
		case 1:
			h.node.Offset = int64(h.idx%5-2) * int64(f.iv) / 2
		case 2:
			h.node.Offset = int64(h.idx%7-3) * int64(777*time.Millisecond)
		}
	}
	if f.c.P("sameid") == 1 {
		h.node.Vars["hostname"] = "app"
	}
	if f.c.P("pid1") == 1 {
		h.node.Vars["pid"] = "1"
	}
}

func (f *fleet) get(path string) (int, []byte, bool) {
	var code int
	var body []byte
	ok := false
	if !f.c.Call(f.ops, "GET "+path, 2*time.Minute, func() {
		resp, err := (&simhttp.Client{}).Get("http://hd:5031" + path)
		if err != nil {
			return
		}
		b, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		code, body, ok = resp.StatusCode, b, err == nil
	}) {
		if !f.down {
			f.c.Fail(f.c.Prop, "api-hangs", "GET %s is not answered within 2 minutes; blocked: %s", path, strings.Join(f.c.S.Blocked(), "; "))
		}
		return 0, nil, false
	}
	return code, body, ok
}

type hdAgg struct {
	InstanceId       string    `json:"instance_id"`
	IntervalDuration int64     `json:"interval_duration"`
	Aggregations     []wInt    `json:"aggregations"`
	Overall          *wInt     `json:"overall"`
	Hosts            []*hdHost `json:"hosts"`
	Jobs             []*hdJob  `json:"jobs"`
}

type hdHost struct {
	HostPort  string    `json:"host_port"`
	Check     time.Time `json:"last_check_time"`
	Instance  string    `json:"last_instance_id"`
	Interval  int64     `json:"last_interval_duration"`
	Err       string    `json:"last_err"`
	Nanos     int64     `json:"last_nanos"`
	Code      int       `json:"last_code"`
	FirstGood time.Time `json:"first_successful_response"`
	LastGood  time.Time `json:"last_successful_response"`
}

type hdJob struct {
	Name    string  `json:"name"`
	Count   int64   `json:"count"`
	Success int64   `json:"count_success"`
	Valid   int64   `json:"count_validation_error"`
	Panic   int64   `json:"count_panic"`
	Error   int64   `json:"count_error"`
	Junk    int64   `json:"count_junk"`
	Sum     int64   `json:"nanos_sum"`
	Sq      float64 `json:"nanos_sum_squares"`
	Min     int64   `json:"nanos_min"`
	Max     int64   `json:"nanos_max"`
	Avg     float64 `json:"nanos_avg"`
	StdDev  float64 `json:"nanos_std_dev"`
}

var hdPaths = map[string]bool{"/healthd/aggregations": true, "/healthd/aggregations/overall": true, "/healthd/hosts": true, "/healthd/jobs": true}

// ask makes one request and checks what can be checked at any moment; settled
// means that healthd has everything.
func (f *fleet) ask(path string, settled bool) *hdAgg {
	c := f.c
	boot := f.boots
	up, _ := url.Parse("http://hd" + path)
	f.reqs[up.Path]++
	code, body, ok := f.get(path)
	if ok && f.boots == boot {
		f.answered[up.Path]++
	}
	if !ok || f.down || f.boots != boot {
		return nil
	}
	c.Check()
	u, _ := url.Parse("http://hd" + path)
	if !hdPaths[u.Path] {
		if code != 404 || !json.Valid(body) {
			c.Fail("C25", "not-404", "GET %s: status %d, body %s", path, code, short(string(body)))
		}
		return nil
	}
	var a hdAgg
	if code != 200 || !json.Valid(body) {
		c.Fail("C25", "bad-answer", "GET %s: status %d, valid JSON %v: %s", path, code, json.Valid(body), short(string(body)))
		return nil
	}
	if err := json.Unmarshal(body, &a); err != nil {
		c.Fail("C25", "bad-answer", "GET %s: %v", path, err)
		return nil
	}
	if want := fmt.Sprintf("hd.%d", 1000+f.hdN.EpochNo); a.InstanceId != want {
		c.Fail("C25", "wrong-instance", "GET %s: instance %q, want %q", path, a.InstanceId, want)
	}
	switch u.Path {
	case "/healthd/aggregations":
		f.aggs(&a)
	case "/healthd/aggregations/overall":
		if a.Overall != nil {
			f.atMost(a.Overall.conv(), true, a.IntervalDuration)
		}
		if settled {
			f.overall(&a)
		}
	case "/healthd/hosts":
		f.hostList(&a)
	case "/healthd/jobs":
		f.jobs(&a, u.Query(), settled)
	}
	return &a
}

// lives returns the recs of every actor, by interval.
func (f *fleet) ref(in *flInst, done bool) (map[int]map[int64]*intS, map[int64]*intS) {
	m := map[int]map[int64]*intS{}
	put := func(t map[int64]*intS, r *Rec) {
		if r.Done || !done {
			st := slot(r.W0, in.iv)
			if t[st] == nil {
				t[st] = newInt(st)
			}
			t[st].apply(r)
		}
	}
	sh := map[int64]*intS{}
	if in.w == nil {
		return m, sh
	}
	for id, a := range in.w.acts {
		m[id] = map[int64]*intS{}
		for _, r := range a.recs {
			put(m[id], r)
		}
	}
	for _, r := range in.sh {
		put(sh, r)
	}
	return m, sh
}

// sharedOf is the part under the names all hosts use.
func sharedOf(g *intS) *intS {
	r := newInt(g.Start)
	one := func(a amaps) amaps {
		m := newMaps()
		if v, ok := a.Events["shared"]; ok {
			m.Events["shared"] = v
		}
		if v, ok := a.Errs["shared"]; ok {
			m.Errs["shared"] = v
		}
		if v, ok := a.Timers["shared"]; ok {
			m.Timers["shared"] = v
		}
		if v, ok := a.Gauges["shared"]; ok {
			m.Gauges["shared"] = v
		}
		return m
	}
	r.amaps = one(g.amaps)
	if j := g.Jobs["shared"]; j != nil {
		r.Jobs["shared"] = &jobS{amaps: one(j.amaps), T: j.T, Cs: j.Cs}
	}
	return r
}

// more tells what g counts more of than max does.
func more(g, max *intS) string {
	mm := func(g, m *amaps, where string) string {
		for _, k := range keysOf(g.Events, nil) {
			if g.Events[k] > m.Events[k] {
				return fmt.Sprintf("%s event %q is counted %d times, and was emitted %d times", where, short(k), g.Events[k], m.Events[k])
			}
		}
		for _, k := range keysOf(g.Errs, nil) {
			if g.Errs[k] > m.Errs[k] {
				return fmt.Sprintf("%s error %q is counted %d times, and was emitted %d times", where, short(k), g.Errs[k], m.Errs[k])
			}
		}
		for _, k := range keysOf(g.Timers, nil) {
			if g.Timers[k].Count > m.Timers[k].Count {
				return fmt.Sprintf("%s timing %q is counted %d times, and was emitted %d times", where, short(k), g.Timers[k].Count, m.Timers[k].Count)
			}
		}
		return ""
	}
	if d := mm(&g.amaps, &max.amaps, "overall"); d != "" {
		return d
	}
	for _, k := range keysOf(g.Jobs, nil) {
		j, x := g.Jobs[k], max.Jobs[k]
		if x == nil {
			x = &jobS{amaps: newMaps()}
		}
		if d := mm(&j.amaps, &x.amaps, fmt.Sprintf("job %q", short(k))); d != "" {
			return d
		}
		if j.T.Count > x.T.Count {
			return fmt.Sprintf("job %q is counted %d times, and completed %d times", short(k), j.T.Count, x.T.Count)
		}
		for i := range j.Cs {
			if j.Cs[i] > x.Cs[i] {
				return fmt.Sprintf("job %q with status %d is counted %d times, and completed so %d times", short(k), i, j.Cs[i], x.Cs[i])
			}
		}
	}
	return ""
}

// ownOf is g without healthd's own instrumentation.
func ownOf(g *intS) *intS {
	own := newInt(g.Start)
	for k, v := range g.Events {
		if actorOf(k) >= 0 || k == "shared" {
			own.Events[k] = v
		}
	}
	for k, v := range g.Errs {
		if actorOf(k) >= 0 || k == "shared" || k == "panic" {
			own.Errs[k] = v
		}
	}
	for k, v := range g.Timers {
		if actorOf(k) >= 0 || k == "shared" {
			own.Timers[k] = v
		}
	}
	for k, v := range g.Jobs {
		if actorOf(k) >= 0 || k == "shared" {
			own.Jobs[k] = v
		}
	}
	return own
}

// atMost: nothing is counted twice. all: g covers every interval.
func (f *fleet) atMost(g *intS, all bool, iv int64) {
	c := f.c
	c.Check()
	total := newInt(g.Start)
	for _, in := range f.insts {
		acts, sh := f.ref(in, false)
		_ = acts
		_ = sh
		if in.w == nil || int64(in.iv) != iv && iv != 0 {
			continue
		}
		for _, a := range in.w.acts {
			for _, r := range a.recs {
				if all || slot(r.W0, in.iv) == g.Start {
					total.apply(r)
				}
			}
		}
		for _, r := range in.sh {
			if all || slot(r.W0, in.iv) == g.Start {
				total.apply(r)
			}
		}
	}
	own := ownOf(g)
	if d := more(own, total); d != "" {
		where := "overall"
		if !all {
			where = "interval " + ts(g.Start)
		}
		c.Fail("C23", "counted-twice", "%s: %s", where, d)
	}
}

func (f *fleet) aggs(a *hdAgg) []*intS {
	c := f.c
	var r []*intS
	for i := range a.Aggregations {
		g := a.Aggregations[i].conv()
		if i > 0 && g.Start <= r[i-1].Start {
			c.Fail("C25", "not-ascending", "interval %s comes after %s", ts(g.Start), ts(r[i-1].Start))
		}
		r = append(r, g)
		f.atMost(g, false, a.IntervalDuration)
		if d := consistent(g); d != "" && c.P("main") == 0 {
			c.Fail("C25", "inconsistent", "interval %s: %s", ts(g.Start), d)
		}
	}
	if n := maxInts(a.IntervalDuration); len(r) > n && n > 0 {
		c.Fail("C31", "too-many-intervals", "%d intervals are kept, and 2 hours hold %d", len(r), n)
	}
	ok := a.IntervalDuration == 0
	for _, in := range f.insts {
		ok = ok || a.IntervalDuration == int64(in.iv)
	}
	if !ok {
		c.Fail("C25", "wrong-interval", "interval duration %v, want %v", time.Duration(a.IntervalDuration), f.iv)
	}
	return r
}

// maxInts is the number of intervals of two hours.
func maxInts(iv int64) int {
	if iv <= 0 {
		return 0
	}
	if n := int(int64(2*time.Hour) / iv); n > 1 {
		return n
	}
	return 1
}

// kept tells whether healthd, reporting the intervals got, must have interval st
// too: if it holds two hours of newer ones, it need not.
func kept(got map[int64]*intS, st int64, max int) bool {
	n := 0
	for g := range got {
		if g > st {
			n++
		}
	}
	return n < max
}

// heard is what the last good answer with an interval of a host's life said of it.
type heard struct {
	raw string
	in  *intS
}

type memory struct {
	since  int64
	m      map[hearing]heard
	keys   []hearing
	loose  map[int64]bool
	starts map[string]int64
	done   map[*simhttp.Call]bool
}

type hearing struct {
	host, id string
	st       int64
}

// remembered compares what healthd reports with what good answers told it since
// it was started: each interval is the sum of what each life of each host last
// said of it, also when that host is gone, or fails, or has dropped the interval.
func (f *fleet) remembered(got map[int64]*intS, iv int64) bool {
	c := f.c
	if iv <= 0 {
		return true
	}
	if f.mem.m == nil || f.mem.since != f.since {
		f.mem = memory{since: f.since, m: map[hearing]heard{}, loose: map[int64]bool{}, starts: map[string]int64{}, done: map[*simhttp.Call]bool{}}
	}
	mem, loose := f.mem.m, f.mem.loose
	var polls []*simhttp.Call
	for _, cl := range simhttp.Of(c.S).Calls {
		if cl.From == f.hdN && cl.Start >= f.since && !f.mem.done[cl] && cl.Resp != nil && cl.Resp.Ended && f.good(cl) {
			if c.S.Now()-cl.Resp.EndAt < int64(5*time.Second) {
				continue // healthd may not have added it up; nothing is new in it
			}
			polls = append(polls, cl)
		}
	}
	sort.SliceStable(polls, func(i, j int) bool { return polls[i].Resp.EndAt < polls[j].Resp.EndAt })
	for _, cl := range polls {
		f.mem.done[cl] = true
		var b struct {
			InstanceId       string            `json:"instance_id"`
			IntervalDuration int64             `json:"interval_duration"`
			Aggregations     []json.RawMessage `json:"aggregations"`
		}
		json.Unmarshal(cl.Resp.Data(), &b)
		if b.IntervalDuration != iv {
			continue
		}
		u, _ := url.Parse(cl.URL)
		for _, raw := range b.Aggregations {
			t, known := f.mem.starts[string(raw)]
			var x wInt
			if !known {
				json.Unmarshal(raw, &x)
				t = x.IntervalStart.UnixNano()
				f.mem.starts[string(raw)] = t
			}
			k := hearing{u.Host, b.InstanceId, t}
			if string(raw) == mem[k].raw {
				continue
			}
			if known {
				json.Unmarshal(raw, &x)
			}
			if mem[k].in == nil {
				f.mem.keys = append(f.mem.keys, k)
			}
			mem[k] = heard{string(raw), x.conv()}
			if f.wallHD(cl.Resp.EndAt+int64(10*time.Second)) > k.st+5*iv {
				// new so late that healthd may have forgotten what others said
				loose[k.st] = true
			}
		}
	}
	by := map[int64][]*intS{}
	for _, k := range f.mem.keys {
		by[k.st] = append(by[k.st], mem[k].in)
	}
	for _, st := range sortedStarts(by) {
		if loose[st] || len(by[st]) == 0 {
			continue
		}
		c.Check()
		ga := map[string]map[float64]bool{}
		want := sumInts(st, by[st], ga)
		g := got[st]
		if g == nil {
			if kept(got, st, maxInts(iv)) {
				c.Fail("C22", "interval-forgotten", "%d hosts reported the interval %s, and healthd has not got it", len(by[st]), ts(st))
				return false
			}
			continue
		}
		if c.P("main") == 1 {
			g, want = ownOf(g), ownOf(want)
		}
		if d := diffInt(g, want, nil, false); d != "" {
			c.Fail("C22", "not-what-hosts-said", "interval %s is not the sum of what the hosts said of it: %s", ts(st), d)
			return false
		}
		if d := gaugesAmong(g, ga); d != "" && c.P("main") != 1 {
			c.Fail("C22", "not-what-hosts-said", "interval %s: %s", ts(st), d)
			return false
		}
	}
	for _, st := range sortedStarts(got) {
		if len(by[st]) == 0 && !ownOf(got[st]).empty() {
			c.Fail("C22", "interval-invented", "healthd reports the interval %s, which no host told it of", ts(st))
			return false
		}
	}
	return true
}

// still compares what healthd reports with what it settled at before: nobody
// emits any more.
func (f *fleet) still(got map[int64]*intS, max int) {
	c := f.c
	if f.seen == nil {
		f.seen = map[int64]*intS{}
	}
	for _, st := range sortedStarts(f.seen) {
		c.Check()
		was := f.seen[st]
		if got[st] == nil {
			if kept(got, st, max) && !was.empty() {
				c.Fail("C22", "interval-lost", "interval %s was reported, and is not any more", ts(st))
				return
			}
			delete(f.seen, st)
			continue
		}
		if d := diffInt(noGauge(ownOf(got[st])), was, nil, true); d != "" {
			c.Fail("C22", "interval-changed", "interval %s was reported with everything hosts emitted, and changed though nothing was emitted: %s", ts(st), d)
			return
		}
	}
	for st, g := range got {
		f.seen[st] = noGauge(ownOf(g))
	}
}

// noGauge leaves out the gauge that hosts share: it may be anyone's at any time.
func noGauge(g *intS) *intS {
	r := *g
	drop := func(m map[string]float64) map[string]float64 {
		o := map[string]float64{}
		for k, v := range m {
			if k != "shared" {
				o[k] = v
			}
		}
		return o
	}
	r.Gauges = drop(g.Gauges)
	r.Jobs = map[string]*jobS{}
	for k, j := range g.Jobs {
		x := *j
		x.Gauges = drop(j.Gauges)
		r.Jobs[k] = &x
	}
	return &r
}

// later looks again after hosts have dropped what they held.
func (f *fleet) later() {
	c := f.c
	s := c.S
	for i := 0; i < c.P("later"); i++ {
		// not when a host has an interval that healthd has not seen yet
		polled := c.P("main") == 0 // its own metrics always change
		for _, h := range f.hosts {
			polled = polled && wallOf(s, h.node)-slot(wallOf(s, h.node), h.inst.iv) > int64(17*time.Second)
		}
		if polled && s.Chance(1, 2, rt.KFault) {
			f.jump(int64(f.iv) * int64(1+s.Choose(8, rt.KFault)) / int64(1+s.Choose(3, rt.KFault)))
			s.Sleep(int64(22 * time.Second))
		}
		d := int64(f.iv) / 2
		if d > int64(time.Minute) {
			d = int64(time.Minute)
		}
		s.Sleep(int64(5*time.Second) + d/20*int64(s.Choose(20, rt.KFault)))
		f.converged()
	}
}

// converged compares healthd's intervals with what the hosts hold.
func (f *fleet) converged() {
	c := f.c
	a := f.ask("/healthd/aggregations", true)
	if a == nil {
		c.Fail("C22", "no-answer", "healthd does not answer")
		return
	}
	got := map[int64]*intS{}
	for i := range a.Aggregations {
		g := a.Aggregations[i].conv()
		got[g.Start] = g
	}
	f.still(got, maxInts(a.IntervalDuration))
	if !f.remembered(got, a.IntervalDuration) {
		return
	}
	liveSh, allSh := map[int64]*intS{}, map[int64]*intS{}
	gauges := map[int64]map[float64]bool{}
	slots := map[int64]int{}
	live := 0
	for _, in := range f.insts {
		if int64(in.iv) != a.IntervalDuration {
			continue // its data cannot be added to the others'
		}
		acts, sh := f.ref(in, true)
		cur := slot(wallOf(c.S, in.node), in.iv)
		if !in.dead {
			live++
		}
		add := func(m map[int64]*intS) {
			for _, r := range in.sh {
				st := slot(r.W0, in.iv)
				if m[st] == nil {
					m[st] = newInt(st)
				}
				if r.Kind == "gauge" {
					if gauges[st] == nil {
						gauges[st] = map[float64]bool{}
					}
					gauges[st][r.Value] = true
					continue
				}
				m[st].apply(r)
			}
		}
		_ = sh
		add(allSh)
		if in.dead {
			continue
		}
		add(liveSh)
		for k := 0; k < f.ret; k++ {
			slots[cur-int64(k)*int64(in.iv)]++
		}
		for _, id := range sortedActs(in.w.acts) {
			for _, st := range sortedStarts(acts[id]) {
				if st <= cur-int64(f.ret)*int64(in.iv) {
					continue // the host does not hold it any more
				}
				c.Check()
				want := acts[id][st]
				if got[st] == nil {
					if !want.empty() && kept(got, st, maxInts(a.IntervalDuration)) {
						c.Fail("C22", "interval-missing", "%s holds the interval %s, and healthd does not report it", in.id, ts(st))
						return
					}
					continue
				}
				if d := diffInt(project(got[st], id), project(want, id), func(n string) bool { return n == "panic" }, true); d != "" {
					c.Fail("C22", "not-the-sum", "interval %s, as reported by %s: %s", ts(st), in.id, d)
					return
				}
			}
		}
	}
	for _, st := range sortedStarts(liveSh) {
		if slots[st] < live || got[st] == nil {
			continue // not every host still holds it
		}
		c.Check()
		g := sharedOf(got[st])
		gv, has := g.Gauges["shared"]
		if has && !gauges[st][gv] {
			c.Fail("C22", "wrong-gauge", "interval %s: the shared gauge is %v, which no host reported", ts(st), gv)
		}
		if !has && len(gauges[st]) > 0 && allSame(liveSh, allSh, st) {
			for _, in := range f.insts {
				for _, r := range in.sh {
					if !in.dead && r.Kind == "gauge" && int64(in.iv) == a.IntervalDuration && slot(r.W0, in.iv) == st {
						c.Fail("C22", "gauge-missing", "interval %s: the shared gauge is missing", ts(st))
					}
				}
			}
		}
		if allSame(liveSh, allSh, st) {
			if d := diffInt(g, liveSh[st], func(n string) bool { return false }, false); d != "" {
				c.Fail("C22", "not-the-sum", "interval %s, metrics that all hosts report: %s", ts(st), d)
				return
			}
		} else if d := more(liveSh[st], g); d != "" {
			c.Fail("C22", "not-the-sum", "interval %s, metrics that all hosts report, the other way round: %s", ts(st), d)
			return
		}
	}
}

func allSame(a, b map[int64]*intS, st int64) bool {
	x, y := a[st], b[st]
	return x != nil && y != nil && more(y, x) == ""
}

func wallOf(s *rt.Sim, n *rt.Node) int64 { return simtime.WallOf(n, s.Now()) }

// overall must be the merge of the intervals.
func (f *fleet) overall(a *hdAgg) {
	c := f.c
	b := f.ask("/healthd/aggregations", true)
	if b == nil || len(b.Aggregations) == 0 || f.c.P("main") == 1 {
		return
	}
	var in []*intS
	ga := map[string]map[float64]bool{}
	for i := range b.Aggregations {
		in = append(in, b.Aggregations[i].conv())
	}
	want := sumInts(in[0].Start, in, ga)
	if a.Overall == nil {
		c.Fail("C25", "wrong-overall", "there are %d intervals and no overall aggregation", len(in))
		return
	}
	c.Check()
	g := a.Overall.conv()
	if d := diffInt(g, want, nil, false); d != "" {
		c.Fail("C25", "wrong-overall", "the overall aggregation is not the merge of the intervals: %s", d)
		return
	}
	if g.Start != want.Start {
		c.Fail("C25", "wrong-overall", "the overall aggregation begins at %s, and the first interval at %s", ts(g.Start), ts(want.Start))
	}
	if d := gaugesAmong(g, ga); d != "" {
		c.Fail("C25", "wrong-overall", "the overall aggregation: %s", d)
	}
}

func jobKey(so string) func(*hdJob) float64 {
	return func(j *hdJob) float64 {
		switch so {
		case "count":
			return float64(j.Count)
		case "count_success":
			return float64(j.Success)
		case "count_validation_error":
			return float64(j.Valid)
		case "count_panic":
			return float64(j.Panic)
		case "count_error":
			return float64(j.Error)
		case "count_junk":
			return float64(j.Junk)
		case "total_time":
			return float64(j.Sum)
		case "avg":
			return j.Avg
		case "min":
			return float64(j.Min)
		case "max":
			return float64(j.Max)
		case "stddev":
			return j.StdDev
		}
		return 0
	}
}

func (f *fleet) jobs(a *hdAgg, q url.Values, settled bool) {
	c := f.c
	c.Check()
	so := q.Get("sort")
	key := jobKey(so)
	limit := 0
	if l, err := strconv.Atoi(q.Get("limit")); err == nil {
		limit = l
	}
	if limit > 0 && len(a.Jobs) > limit {
		c.Fail("C25", "not-limited", "%d jobs, limit %d", len(a.Jobs), limit)
	}
	seen := map[string]bool{}
	for i, j := range a.Jobs {
		if seen[j.Name] {
			c.Fail("C25", "job-twice", "job %q is listed twice", short(j.Name))
		}
		seen[j.Name] = true
		if i > 0 {
			p := a.Jobs[i-1]
			if so == "name" && p.Name > j.Name || key(p) < key(j) {
				c.Fail("C25", "not-sorted", "sorted by %q, job %q (%v) comes before %q (%v)", so, short(p.Name), key(p), short(j.Name), key(j))
				return
			}
		}
		if d := jobWrong(j); d != "" {
			c.Fail("C25", "wrong-job", "job %q: %s", short(j.Name), d)
			return
		}
	}
	// no job is counted more often than it completed
	tot := newInt(0)
	for _, in := range f.insts {
		if in.w == nil {
			continue
		}
		for _, x := range in.w.acts {
			for _, r := range x.recs {
				tot.apply(r)
			}
		}
		for _, r := range in.sh {
			tot.apply(r)
		}
	}
	for _, j := range a.Jobs {
		if actorOf(j.Name) < 0 && j.Name != "shared" {
			continue
		}
		x := tot.Jobs[j.Name]
		if x == nil {
			c.Fail("C25", "unknown-job", "job %q is listed, which no host has", short(j.Name))
			return
		}
		if j.Count > x.T.Count {
			c.Fail("C23", "counted-twice", "job %q is counted %d times in the list of jobs, and completed %d times", short(j.Name), j.Count, x.T.Count)
			return
		}
	}
	if !settled || c.P("main") == 1 {
		return
	}
	// the same data as the aggregations
	b := f.ask("/healthd/aggregations", true)
	if b == nil {
		return
	}
	all := map[string]*hdJob{}
	for i := range b.Aggregations {
		for name, w := range b.Aggregations[i].Jobs {
			j := all[name]
			if j == nil {
				j = &hdJob{Name: name, Min: math.MaxInt64, Max: math.MinInt64}
				all[name] = j
			}
			t := w.wTimer.conv()
			j.Success += w.CountSuccess
			j.Valid += w.CountValidationError
			j.Panic += w.CountPanic
			j.Error += w.CountError
			j.Junk += w.CountJunk
			j.Count += t.Count
			j.Sum += t.Sum
			j.Sq += t.Sq
			if t.Count > 0 {
				if t.Min < j.Min {
					j.Min = t.Min
				}
				if t.Max > j.Max {
					j.Max = t.Max
				}
			}
		}
	}
	n := len(all)
	if limit > 0 && limit < n {
		n = limit
	}
	if len(a.Jobs) != n {
		c.Fail("C25", "wrong-number", "%d jobs are listed with limit %d, and there are %d", len(a.Jobs), limit, len(all))
		return
	}
	var keys []float64
	var names []string
	for _, name := range keysOf(all, nil) {
		j := all[name]
		if j.Count == 0 {
			j.Min, j.Max = 0, 0
		}
		fill(j)
		keys = append(keys, key(j))
		names = append(names, name)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(keys)))
	for i, j := range a.Jobs {
		x := all[j.Name]
		if x == nil {
			c.Fail("C25", "unknown-job", "job %q is listed, which no interval has", short(j.Name))
			return
		}
		if j.Count != x.Count || j.Success != x.Success || j.Valid != x.Valid || j.Panic != x.Panic || j.Error != x.Error || j.Junk != x.Junk || j.Sum != x.Sum || j.Min != x.Min || j.Max != x.Max || !kit.Eq(j.Sq, x.Sq) {
			c.Fail("C25", "wrong-job", "job %q is %+v, and the intervals give %+v", short(j.Name), *j, *x)
			return
		}
		if so == "name" && j.Name != names[i] {
			c.Fail("C25", "not-sorted", "job %d by name is %q, want %q", i, short(j.Name), short(names[i]))
			return
		}
		if so != "stddev" && so != "name" && so != "" && !kit.Eq(key(j), keys[i]) {
			c.Fail("C25", "not-the-top", "job %d by %s is %q with %v; it should have %v", i, so, short(j.Name), key(j), keys[i])
			return
		}
	}
}

func fill(j *hdJob) {
	if j.Count > 0 {
		j.Avg = float64(j.Sum) / float64(j.Count)
	}
}

func jobWrong(j *hdJob) string {
	if s := j.Success + j.Valid + j.Panic + j.Error + j.Junk; s != j.Count {
		return fmt.Sprintf("count %d, and the counts by status add up to %d", j.Count, s)
	}
	if j.Count == 0 {
		if j.Avg != 0 || j.StdDev != 0 {
			return fmt.Sprintf("no completions, average %v and deviation %v", j.Avg, j.StdDev)
		}
		return ""
	}
	n := float64(j.Count)
	if !kit.Eq(j.Avg, float64(j.Sum)/n) {
		return fmt.Sprintf("average %v of sum %d and count %d", j.Avg, j.Sum, j.Count)
	}
	if j.Avg < float64(j.Min)-1-math.Abs(j.Avg)*1e-9 || j.Avg > float64(j.Max)+1+math.Abs(j.Avg)*1e-9 {
		return fmt.Sprintf("average %v outside of minimum %d and maximum %d", j.Avg, j.Min, j.Max)
	}
	if j.Count == 1 {
		if j.StdDev != 0 {
			return fmt.Sprintf("deviation %v of one completion", j.StdDev)
		}
		return ""
	}
	v := (n*j.Sq - float64(j.Sum)*float64(j.Sum)) / (n * (n - 1))
	tol := 1e-9 * (n*j.Sq + float64(j.Sum)*float64(j.Sum)) / (n * (n - 1))
	if j.StdDev < 0 || math.IsNaN(j.StdDev) || math.Abs(j.StdDev*j.StdDev-math.Max(v, 0)) > tol+1e-6 {
		return fmt.Sprintf("deviation %v, want %v", j.StdDev, math.Sqrt(math.Max(v, 0)))
	}
	return ""
}

func (f *fleet) wantHosts() []string {
	w := append([]string{}, f.peers...)
	if f.c.P("main") == 1 {
		w = append(w, ":5030")
	}
	sort.Strings(w)
	return w
}

func (f *fleet) hostList(a *hdAgg) bool {
	w := f.wantHosts()
	var g []string
	for _, h := range a.Hosts {
		g = append(g, h.HostPort)
	}
	f.c.Check()
	if strings.Join(w, " ") != strings.Join(g, " ") {
		f.c.Fail("C24", "wrong-hosts", "hosts %v, want %v", g, w)
		f.c.Fail("C25", "wrong-hosts", "hosts %v, want %v", g, w)
		return false
	}
	return true
}

// quietHosts compares the host list with the outcomes of the polls made, if no
// poll is in progress.
func (f *fleet) quietHosts() {
	c := f.c
	s := c.S
	s.WaitIdle()
	type state struct {
		last      *simhttp.Call
		errs      []string // of the polls before the last
		lastGood  *simhttp.Call
		firstGood *simhttp.Call
	}
	nw := simhttp.Of(s)
	boot, calls := f.boots, 0
	st := map[string]*state{}
	for _, cl := range nw.Calls {
		if cl.From != f.hdN || cl.Start < f.since {
			continue
		}
		if cl.End == 0 || cl.Resp != nil && !cl.Resp.Ended {
			return
		}
		calls++
		u, _ := url.Parse(cl.URL)
		x := st[u.Host]
		if x == nil {
			x = &state{}
			st[u.Host] = x
		}
		if x.last != nil {
			if x.last.Err != nil {
				x.errs = append(x.errs, x.last.Err.Error())
			} else if x.last.Resp != nil && x.last.Resp.Err != nil {
				x.errs = append(x.errs, x.last.Resp.Err.Error())
			}
		}
		x.last = cl
		if f.good(cl) {
			x.lastGood = cl
			if x.firstGood == nil {
				x.firstGood = cl
			}
		}
	}
	at := s.Now()
	a := f.ask("/healthd/hosts", false)
	if a == nil || f.boots != boot || f.down {
		return
	}
	n := 0
	for _, cl := range nw.Calls {
		if cl.From == f.hdN && cl.Start >= f.since {
			n++
		}
	}
	if n != calls {
		return // polling went on meanwhile
	}
	if len(a.Hosts) != len(f.wantHosts()) {
		return
	}
	w := f.wallHD
	within := func(t time.Time, cl *simhttp.Call) bool {
		if cl == nil {
			return t.IsZero()
		}
		return !t.IsZero() && t.UnixNano() >= w(cl.Start) && t.UnixNano() <= w(cl.Start+int64(6*time.Second))
	}
	for _, h := range a.Hosts {
		c.Check()
		x := st[h.HostPort]
		if x == nil {
			x = &state{}
		}
		bad := ""
		switch {
		case x.last == nil:
			if !h.Check.IsZero() || h.Code != 0 {
				bad = "it was never polled"
			}
		case h.Check.UnixNano() != w(x.last.Start):
			bad = fmt.Sprintf("it was last polled at %v", time.Unix(0, w(x.last.Start)).UTC())
		case f.good(x.last) && (h.Code != 200 || h.Err != ""):
			bad = "the last poll was successful"
		case !f.good(x.last) && h.Code == 200 && h.Err == "":
			bad = fmt.Sprintf("the last poll failed (%s, %v)", simhttp.FaultNames[x.last.Fault], x.last.Err)
		case x.last.Err != nil && (h.Err == "" || h.Code != 0):
			bad = fmt.Sprintf("the last poll failed without an answer: %v", x.last.Err)
		case x.last.Err == nil && h.Code != x.last.Status:
			bad = fmt.Sprintf("the last poll was answered with status %d", x.last.Status)
		case x.last.Resp != nil && x.last.Resp.Err != nil && h.Err == "":
			bad = fmt.Sprintf("reading the answer failed: %v", x.last.Resp.Err)
		case !within(h.LastGood, x.lastGood):
			bad = "the time of the last successful response is wrong"
		case !within(h.FirstGood, x.firstGood):
			bad = "the time of the first successful response is wrong"
		case f.good(x.last):
			var b wResp
			json.Unmarshal(x.last.Resp.Data(), &b)
			if h.Instance != b.InstanceId || h.Interval != b.IntervalDuration {
				bad = fmt.Sprintf("the answer came from instance %q with interval %v", b.InstanceId, time.Duration(b.IntervalDuration))
			} else if h.Nanos != x.last.Resp.EndAt-x.last.Start {
				bad = fmt.Sprintf("the poll took %v", time.Duration(x.last.Resp.EndAt-x.last.Start))
			}
		}
		if bad == "" && x.last != nil && h.Err != "" {
			own := ""
			if x.last.Err != nil {
				own = x.last.Err.Error()
			} else if x.last.Resp != nil && x.last.Resp.Err != nil {
				own = x.last.Resp.Err.Error()
			}
			for _, e := range x.errs {
				if e != own && strings.Contains(h.Err, e) && !strings.Contains(own, e) {
					bad = fmt.Sprintf("this is the error of an earlier poll; the last one's is %q, status %d", own, x.last.Status)
				}
			}
		}
		if bad != "" {
			c.Fail("C24", "wrong-status", "host %s is listed as %+v at t=%v, but %s", h.HostPort, *h, time.Duration(at), bad)
			return
		}
	}
	if len(f.c.Plan.ByActor()) > 0 && c.S.Now() > f.since+int64(20*time.Second) {
		for _, h := range a.Hosts {
			if x := st[h.HostPort]; x == nil || at-x.last.Start > int64(16*time.Second) {
				c.Fail("C24", "not-polled", "host %s is listed as last polled at %v, and was not polled for 16 seconds", h.HostPort, h.Check)
				return
			}
		}
	}
}

// good is pollGood, once per poll.
func (f *fleet) good(cl *simhttp.Call) bool {
	if cl.Err != nil || cl.Status != 200 || cl.Resp == nil || !cl.Resp.Ended || cl.Resp.Err != nil {
		return false
	}
	g, ok := f.isGood[cl]
	if !ok {
		if f.isGood == nil {
			f.isGood = map[*simhttp.Call]bool{}
		}
		g = pollGood(cl)
		f.isGood[cl] = g
	}
	return g
}

// pollGood is the reference for a successful poll.
func pollGood(cl *simhttp.Call) bool {
	if cl.Err != nil || cl.Status != 200 || cl.Resp == nil || !cl.Resp.Ended || cl.Resp.Err != nil {
		return false
	}
	var b *wResp
	if json.Unmarshal(cl.Resp.Data(), &b) != nil || b == nil || b.IntervalDuration <= 0 {
		return false
	}
	var l struct {
		Aggregations []*json.RawMessage `json:"aggregations"`
	}
	json.Unmarshal(cl.Resp.Data(), &l)
	for _, x := range l.Aggregations {
		if x == nil {
			return false
		}
	}
	return true
}

// stop stops healthd in the middle of things.
func (f *fleet) stop() {
	c := f.c
	s := c.S
	type rq struct {
		path string
		at   int64
		done bool
		ok   bool
	}
	var rqs []*rq
	issue := func(path string) {
		r := &rq{path: path, at: s.Now()}
		rqs = append(rqs, r)
		s.GoOn(f.ops, "client", func() {
			resp, err := (&simhttp.Client{}).Get("http://hd:5031" + path)
			if err == nil {
				io.ReadAll(resp.Body)
				resp.Body.Close()
				r.ok = true
			}
			r.done = true
		})
	}
	by := c.Plan.ByActor()
	for _, id := range kit.Actors(by) {
		if id < 80 || id >= 90 {
			continue
		}
		ops := by[id]
		s.GoOn(f.ops, fmt.Sprintf("client%d", id), func() {
			for _, op := range ops {
				if op.K == "sl" {
					s.Sleep(op.N)
				} else {
					issue(op.S)
				}
			}
		})
	}
	s.Sleep(int64(c.P("stopat")))
	for i := 0; i < 100 && f.hd == nil; i++ {
		s.Sleep(1e6)
	}
	paths := []string{"/healthd/aggregations", "/healthd/hosts", "/healthd/jobs", "/healthd/aggregations/overall"}
	for i := 0; i < c.P("burst"); i++ {
		issue(paths[i%4])
	}
	// let the burst get anywhere between the client and the handler
	s.Sleep(int64(s.Choose(4000, rt.KFault)) * 1e3)
	hd := f.hd
	if !c.Call(f.hdN, "stop", 2*time.Minute, func() { hd.Stop() }) {
		c.Fail("C26", "stop-hangs", "Stop has not returned after 2 minutes; blocked: %s", strings.Join(s.Blocked(), "; "))
		return
	}
	at := s.Now()
	s.Event("stopped")
	s.NoStall(1)
	for i := 0; i < c.P("burst"); i++ {
		issue(paths[i%4])
	}
	s.Sleep(int64(3 * time.Minute))
	c.Check()
	for _, r := range rqs {
		if !r.done && r.at < s.Now()-int64(2*time.Minute) {
			c.Fail("C26", "request-hangs", "GET %s at t=%v has not been answered at t=%v; healthd was stopped at t=%v; blocked: %s", r.path, time.Duration(r.at), time.Duration(s.Now()), time.Duration(at), strings.Join(s.Blocked(), "; "))
			return
		}
	}
	for _, cl := range simhttp.Of(s).Calls {
		if cl.From == f.hdN && cl.Start > at+int64(5*time.Second) {
			c.Fail("C26", "polls-after-stop", "healthd was stopped at t=%v and polls %s at t=%v", time.Duration(at), cl.URL, time.Duration(cl.Start))
			return
		}
	}
	if simhttp.Of(s).Listening("hd", "5031") {
		c.Fail("C26", "port-taken", "healthd still listens after Stop")
		return
	}
	if c.P("twice") == 1 {
		// another one on the same port
		ok := c.Call(f.hdN, "again", time.Minute, func() {
			f.hd = healthd.StartNewHealthD(f.peers, ":5031", health.NewStream())
		})
		s.Sleep(1e9)
		if code, _, got := f.get("/healthd/hosts"); !ok || !got || code != 200 {
			c.Fail("C26", "port-taken", "a new healthd on the same port does not answer")
		}
	}
}

// bounded: nothing accumulates.
func (f *fleet) bounded() {
	c := f.c
	s := c.S
	s.Sleep(int64(time.Minute))
	for i := 0; i < 40; i++ {
		// a moment without polls in progress
		busy := false
		for _, cl := range simhttp.Of(s).Calls {
			if cl.From == f.hdN && (cl.End == 0 || cl.Resp != nil && !cl.Resp.Ended && !cl.Resp.Closed) && cl.Start > s.Now()-int64(20*time.Second) {
				busy = true
			}
		}
		if !busy {
			break
		}
		s.Sleep(int64(333 * time.Millisecond))
	}
	s.WaitIdle()
	c.Check()
	for _, b := range simhttp.Of(s).Bodies {
		if b.Node == f.hdN && b.Leaked() {
			c.Fail("C31", "response-leaked", "a response of %d bytes from %s was neither read to its end nor closed", b.Len, b.URL)
			return
		}
	}
	live := s.LiveSys(f.hdN)
	if max := len(f.hosts) + 16; len(live) > max {
		var names []string
		for _, t := range live {
			w, _ := s.TaskBlocked(t)
			names = append(names, t.Name+" "+w)
		}
		c.Fail("C31", "goroutines", "healthd has %d goroutines with no poll in progress: %s", len(live), kit.Short(names))
	}
	a := f.ask("/healthd/aggregations", true)
	if a != nil {
		f.aggs(a)
	}
	if f.hd != nil && a != nil && a.IntervalDuration > 0 {
		// two hours of sums, and what the hosts may report: theirs, of each life
		n := reach(f.hd)
		max := maxInts(a.IntervalDuration) + 16 + (f.ret+7)*len(f.hosts) + 7*(len(f.insts)-len(f.hosts))
		if n > max {
			c.Fail("C31", "memory", "healthd retains %d aggregations of an interval; two hours have %d intervals, and %d hosts report %d each", n, maxInts(a.IntervalDuration), len(f.hosts), f.ret)
		}
	}
}

// reach counts the interval aggregations that can be reached from x.
func reach(x any) int {
	n := 0
	done := map[unsafe.Pointer]bool{}
	target := reflect.TypeOf(health.IntervalAggregation{})
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 50 {
			return
		}
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "vsim/") || t.PkgPath() == "time" {
			return
		}
		if t == target {
			n++
			return
		}
		switch t.Kind() {
		case reflect.Pointer:
			if v.IsNil() || strings.HasPrefix(t.Elem().PkgPath(), "vsim/") {
				return
			}
			p := v.UnsafePointer()
			if done[p] {
				return
			}
			done[p] = true
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			switch t.Elem().Kind() {
			case reflect.Pointer, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map:
				k := v.Len()
				if t.Kind() == reflect.Slice && !v.IsNil() && v.Cap() > k {
					v = v.Slice(0, v.Cap())
					k = v.Len()
				}
				for i := 0; i < k; i++ {
					walk(v.Index(i), depth+1)
				}
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return n
}

var _ = http.MethodGet

func init() {
	suite.Name = "hd"
	suite.Real = append(suite.Real, "health/healthd", "health/cmd/healthd", "health/cmd/healthtop")
	suite.Stub = append(suite.Stub, "gocraft/web router, braintree/manners server, buger/goterm terminal, spf13/cobra flags (not available offline)")
	suite.Add(&kit.Scenario{Name: "fleet", Gen: genFleet, Run: runFleet})
	for _, p := range []string{"C22", "C23", "C24", "C25", "C26", "C27", "C31", "C32"} {
		suite.Props[p] = &kit.PropSpec{Scenarios: []string{"fleet"}, Quick: 1000000}
	}
}
