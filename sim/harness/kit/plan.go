// Package kit is what both harnesses share: plans, the run loop, the driver
// that searches over seeds, minimisation, replay files and evidence.
package kit

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"time"

	"vsim/rt"
)

// Op is one step of one actor of the workload.
type Op struct {
	A  int               `json:"a"`
	K  string            `json:"k"`
	S  string            `json:"s,omitempty"`
	T  string            `json:"t,omitempty"`
	N  int64             `json:"n,omitempty"`
	M  int64             `json:"m,omitempty"`
	F  float64           `json:"f,omitempty"`
	Kv map[string]string `json:"kv,omitempty"`
}

// Plan is a workload: together with a choice trace it determines a run.
type Plan struct {
	Prop     string         `json:"property"`
	Scenario string         `json:"scenario"`
	Seed     uint64         `json:"seed"`
	P        map[string]int `json:"params"`
	Ops      []Op           `json:"ops"`
}

// Rng generates plans.
type Rng struct{ x uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) U() uint64 {
	r.x += 0x9E3779B97F4A7C15
	z := r.x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) In(lo, hi int) int     { return lo + r.N(hi-lo+1) }
func (r *Rng) P(pct int) bool        { return r.N(100) < pct }
func (r *Rng) F() float64            { return float64(r.U()>>11) / (1 << 53) }
func Pick[T any](r *Rng, xs ...T) T  { return xs[r.N(len(xs))] }
func PickOf[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// Dur is a duration drawn log-uniformly.
func (r *Rng) Dur(lo, hi time.Duration) int64 {
	l, h := math.Log(float64(lo)), math.Log(float64(hi))
	return int64(math.Exp(l + r.F()*(h-l)))
}

// Sched draws the scheduling parameters of a run (a swarm: runs differ in how
// often they preempt, how sticky the scheduler is, and whether time may pass
// while tasks could run).
func (r *Rng) Sched(p map[string]int, stallOK bool) {
	p["quantum"] = Pick(r, 0, 1, 2, 3, 5, 8, 20, 60)
	p["sticky"] = Pick(r, 0, 0, 30, 70, 90)
	p["stall"] = 0
	if stallOK && r.P(35) {
		p["stall"] = Pick(r, 2, 10, 50, 200)
	}
	p["stallmax"] = Pick(r, 5, 30, 200)
	if r.P(20) {
		p["qcap"] = Pick(r, 1, 2, 3, 8, 30)
	}
	p["tz"] = r.N(len(Zones))
	// where in the second, minute and hour the run starts
	p["base"] = r.N(1 << 30)
}

var Zones = []*time.Location{time.UTC, time.FixedZone("CET", 3600), time.FixedZone("IST", 5*3600+1800), time.FixedZone("PST", -8*3600), time.FixedZone("NPT", 5*3600+2700), time.FixedZone("LINT", 14*3600)}

// Scenario runs plans.
type Scenario struct {
	Name string
	Gen  func(r *Rng, prop string, big bool) *Plan
	Run  func(c *Ctx)
}

// Ctx is what a scenario's Run gets.
type Ctx struct {
	S    *rt.Sim
	Plan *Plan
	Prop string
	R    *Rng // for harness-side values only; a function of the plan's seed
	left int
	wait *rt.Task
	wk   bool
	// Alias holds properties whose oracles also decide the one being checked.
	Alias map[string]bool
	// statistics
	Checks int64
}

func (c *Ctx) P(name string) int { return c.Plan.P[name] }

// Fail reports that a property is broken. It ends the run if the property is the
// one being checked; otherwise it is ignored, because its own check covers it.
func (c *Ctx) Fail(prop, class, format string, args ...any) {
	if prop != c.Prop {
		if !c.Alias[prop] {
			return
		}
		class = prop + ":" + class
	}
	c.S.Fail(class, format, args...)
}

// Check counts one oracle evaluation.
func (c *Ctx) Check() { c.Checks++ }

// Spawn starts an actor.
func (c *Ctx) Spawn(node *rt.Node, name string, f func()) *rt.Task {
	c.left++
	return c.S.GoOn(node, name, func() {
		f()
		c.left--
		if c.left == 0 && c.wait != nil {
			c.S.Ready(c.wait)
		}
	})
}

// Join waits until every actor has ended; false if that takes longer than d of
// simulated time.
func (c *Ctx) Join(d time.Duration) bool {
	s := c.S
	me := s.Cur()
	end := s.Now() + int64(d)
	c.wait = me
	tm := s.Watchdog(int64(d), func() { s.Ready(me) })
	for c.left > 0 && s.Now() < end {
		rt.Park("join")
	}
	s.Stop(tm)
	c.wait = nil
	return c.left == 0
}

// JoinOrFail fails prop if the actors do not end: something blocked for ever.
func (c *Ctx) JoinOrFail(prop string, d time.Duration) {
	if !c.Join(d) {
		c.Fail(prop, "hang", "a call did not return within %v of simulated time; blocked: %s", d, strings.Join(c.S.Blocked(), "; "))
		c.S.Finish()
	}
}

// Call runs f in its own task and reports whether it returned within d.
func (c *Ctx) Call(node *rt.Node, name string, d time.Duration, f func()) bool {
	s := c.S
	me := s.Cur()
	done := false
	s.GoOn(node, name, func() {
		f()
		done = true
		s.Ready(me)
	})
	end := s.Now() + int64(d)
	tm := s.Watchdog(int64(d), func() { s.Ready(me) })
	for !done && s.Now() < end {
		rt.Park("call " + name)
	}
	s.Stop(tm)
	return done
}

func (c *Ctx) Sleep(d time.Duration) { c.S.Sleep(int64(d)) }

// Settle lets every runnable task run until all are blocked.
func (c *Ctx) Settle() { c.S.WaitIdle() }

// ByActor splits the operations.
func (p *Plan) ByActor() map[int][]Op {
	m := map[int][]Op{}
	for _, o := range p.Ops {
		m[o.A] = append(m[o.A], o)
	}
	return m
}

func Actors(m map[int][]Op) []int {
	var r []int
	for a := range m {
		r = append(r, a)
	}
	sort.Ints(r)
	return r
}

// Execute runs a plan. With useTrace the choices come from the trace.
func Execute(sc *Scenario, plan *Plan, trace []uint32, useTrace, log bool) (*rt.Outcome, int64) {
	p := plan.P
	cfg := rt.Config{Quantum: p["quantum"], StallPct: p["stall"], StallMax: p["stallmax"], Sticky: p["sticky"], QueueCap: p["qcap"], Seed: plan.Seed ^ 0xabcdef,
		Trace: trace, UseTrace: useTrace, LogEvents: log, MaxSteps: 40_000_000}
	// simulated time 0 lies in 2011, at an arbitrary instant
	cfg.WallBase = (1315611373+int64(p["base"]%200_000_000))*1e9 + int64(p["base"])%1_000_000_000
	s := rt.New(cfg)
	c := &Ctx{S: s, Plan: plan, Prop: plan.Prop, R: NewRng(plan.Seed ^ 0x77)}
	s.Node("main").Loc = Zones[p["tz"]%len(Zones)]
	o := s.Run(func() { sc.Run(c) })
	return o, c.Checks
}

// Eq compares floats to a relative tolerance.
func Eq(a, b float64) bool {
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func Short(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func init() {
	time.Local = time.UTC
	_ = runtime.NumCPU
}
