package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simnet"
)

// The StatsD scenario: applications emit through a StatsD sink over a simulated
// UDP network; every send call is seen. Decides C11 to C15.

func genStatsd(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, prop != "C13")
	m := defMix()
	m.raw = kit.Pick(r, 0, 8)
	m.kv = 10
	m.dc = 4
	m.burst = 3
	m.slMin, m.slMax = time.Microsecond, 400*time.Millisecond
	k, n := r.In(1, 5), r.In(2, 20)
	p.P["prefix"] = r.N(4)
	p.P["skip"] = kit.Pick(r, 0, 0, 0, 1, 2, 3)
	p.P["san"] = kit.Pick(r, 0, 0, 1)
	p.P["nilopt"] = kit.Pick(r, 0, 0, 0, 1)
	switch prop {
	case "C12":
		m.nm.long = 25
		n = r.In(10, 60)
		m.sl = 1
	case "C15":
		m.nm.long = 8
		p.P["fault"] = kit.Pick(r, 5, 30, 60)
		m.sl = 6
	case "C13":
		if r.P(40) { // metrics at the very moments at which the sink flushes
			m.beat = int64(100 * time.Millisecond)
			m.sl = 10
		}
		m.nm.long = 3
		if r.P(15) { // next to nothing, now and then
			m.raw = 60
			k, n = r.In(1, 2), r.In(1, 4)
			m.sl, m.slMin = 15, 150*time.Millisecond
			p.P["prefix"] = 0
		}
	case "C14":
		n = r.In(0, 8)
		p.P["block"] = kit.Pick(r, 0, 50, 100)
		if p.P["block"] == 0 {
			p.P["fault"] = kit.Pick(r, 0, 50, 100)
		}
	default:
		m.nm.long = 3
	}
	if prop == "C11" && r.P(8) { // much in the queue
		p.P["block"] = kit.Pick(r, 30, 100)
		m.burst = 70
	}
	if p.P["stall"] > 0 {
		m.co, m.run = 0, 0
	}
	if p.P["qcap"] > 0 && p.P["fault"]+p.P["block"] > 0 {
		m.run = 0 // the report of a panic may wait for room in the queue before the completion
	}
	if big {
		if r.P(60) {
			n *= 6
		} else {
			n, k = r.In(1500, 2500), r.In(3, 5) // more than the queue holds
			p.P["quantum"] = kit.Pick(r, 0, 60, 200)
			m.sl, m.run, m.kv, m.nm.long = 0, 0, 0, 0
		}
	}
	genActors(r, p, k, n, &m)
	// drains
	if prop != "C13" || r.P(40) {
		nd := r.In(0, 3)
		if prop == "C14" {
			nd = r.In(1, 5)
		}
		for i := 0; i < nd; i++ {
			for q := r.In(1, 5); q > 0; q-- {
				if r.P(50) {
					p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "sl", N: r.Dur(time.Microsecond, 300*time.Millisecond)})
				}
				p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "drain"})
			}
		}
	}
	if prop == "C14" && r.P(50) {
		p.P["early"] = 1 // stop while drains are waiting
		p.P["stopat"] = int(r.Dur(time.Microsecond, 2*time.Second))
	}
	return p
}

var sdPrefixes = []string{"", "metroid", "my app", "a.b-c"}

func upper(b *bytes.Buffer, s string) {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' {
			b.WriteByte(ch - 32)
		} else if ch >= '0' && ch <= '9' || ch >= 'A' && ch <= 'Z' {
			b.WriteByte(ch)
		} else {
			b.WriteByte('_')
		}
	}
}

func dollar(b *bytes.Buffer, s string) {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if ch >= 'a' && ch <= 'z' || ch >= '0' && ch <= '9' || ch >= 'A' && ch <= 'Z' || ch == '_' || ch == '.' {
			b.WriteByte(ch)
		} else {
			b.WriteByte('$')
		}
	}
}

type sdWorld struct {
	*World
	prefix  string
	san     func(*bytes.Buffer, string)
	skipTop bool
	skipNst bool
	sent    map[string]int // lines of datagrams sent without an error
	failed  map[string]int // lines of datagrams whose send failed
	log     []sdSend
}

type sdSend struct {
	at    int64
	lines []string
	err   bool
}

func (w *sdWorld) key(parts ...string) string {
	var b bytes.Buffer
	first := true
	for _, p := range parts {
		if p == "" {
			continue
		}
		if !first {
			b.WriteByte('.')
		}
		first = false
		w.san(&b, p)
	}
	return b.String()
}

func sdMs(n int64) string {
	if n >= 10_000_000 {
		return strconv.FormatInt(n/1_000_000, 10)
	}
	return strconv.FormatFloat(float64(n)/1e6, 'f', 2, 64)
}

func sdGauge(v float64) string {
	if v < 0.1 && v > -0.1 {
		return strconv.FormatFloat(v, 'f', -1, 64)
	}
	return strconv.FormatFloat(v, 'f', 2, 64)
}

var statusNames = map[health.CompletionStatus]string{health.Success: "success", health.ValidationError: "validation_error", health.Panic: "panic", health.Error: "error", health.Junk: "junk"}

// lines is the reference: what one emission looks like on the wire.
func (w *sdWorld) lines(r *Rec) []string {
	var l []string
	both := func(suffix, rest string) {
		if !w.skipTop {
			l = append(l, w.key(w.prefix, r.Event, suffix)+":"+rest)
		}
		if !w.skipNst {
			l = append(l, w.key(w.prefix, r.Job, r.Event, suffix)+":"+rest)
		}
	}
	switch r.Kind {
	case "event":
		both("", "1|c\n")
	case "err":
		both("error", "1|c\n")
	case "timing":
		both("", sdMs(r.Nanos)+"|ms\n")
	case "gauge":
		both("", sdGauge(r.Value)+"|g\n")
	case "complete":
		l = append(l, w.key(w.prefix, r.Job, statusNames[r.Status])+":"+sdMs(r.Nanos)+"|ms\n")
	}
	k := 0
	for _, x := range l {
		if len(x) <= 1440 {
			l[k] = x
			k++
		}
	}
	return l[:k]
}

func runStatsd(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	w := &sdWorld{World: newWorld(c, node), sent: map[string]int{}, failed: map[string]int{}, san: dollar}
	opt := &health.StatsDSinkOptions{Prefix: sdPrefixes[c.P("prefix")], SkipTopLevelEvents: c.P("skip")&1 != 0, SkipNestedEvents: c.P("skip")&2 != 0}
	if c.P("san") == 1 {
		opt.SanitizationFunc = upper
		w.san = upper
	}
	w.prefix, w.skipTop, w.skipNst = opt.Prefix, opt.SkipTopLevelEvents, opt.SkipNestedEvents
	if c.P("nilopt") == 1 {
		opt = nil
		w.prefix, w.skipTop, w.skipNst, w.san = "", false, false, dollar
	}
	net := simnet.Of(s)
	prop := c.Prop
	net.Tap = func(from *rt.Node, to string, b []byte, err error) {
		s.Event("udp %d bytes err=%v", len(b), err != nil)
		if to != "127.0.0.1:8125" {
			c.Fail(prop, "wrong-address", "a datagram was sent to %s", to)
		}
		w.datagram(b, err != nil)
	}
	if pct := c.P("fault"); pct > 0 {
		net.Policy = func(from *rt.Node, to string, b []byte) simnet.Fault {
			if s.Chance(pct, 100, rt.KFault) {
				return []simnet.Fault{simnet.SendErr, simnet.Block, simnet.Drop, simnet.Dup, simnet.Delay}[s.Choose(5, rt.KFault)]
			}
			return simnet.None
		}
	} else if pct := c.P("block"); pct > 0 {
		net.Policy = func(from *rt.Node, to string, b []byte) simnet.Fault {
			if s.Chance(pct, 100, rt.KFault) {
				return simnet.Block
			}
			return simnet.None
		}
	}
	sink, err := health.NewStatsDSink("127.0.0.1:8125", opt)
	if err != nil {
		c.Fail(prop, "no-sink", "NewStatsDSink: %v", err)
		return
	}
	w.add(sink)
	w.spawn(nil)
	by := c.Plan.ByActor()
	drains, stopCalled := 0, false
	for _, id := range kit.Actors(by) {
		if id < 80 || id >= 90 {
			continue
		}
		ops := by[id]
		c.Spawn(node, fmt.Sprintf("drainer%d", id), func() {
			for _, op := range ops {
				if op.K == "sl" {
					s.Sleep(op.N)
					continue
				}
				if stopCalled {
					return
				}
				drains++
				w.drain(sink)
				drains--
			}
		})
	}
	if prop == "C14" && c.P("early") == 1 {
		// stop as soon as every drain that began has been handed over
		s.Sleep(int64(c.P("stopat")))
		for i := 0; i < 400; i++ {
			s.NoStall(1)
			s.WaitIdle()
			s.NoStall(-1)
			if drains > 0 || i == 399 {
				break
			}
			s.Sleep(5e6)
		}
		stopCalled = true
		// applications stop emitting before the sink is stopped
		w.c.Plan = &kit.Plan{P: c.Plan.P}
		if !c.Call(node, "stop", 3*time.Minute, func() { sink.Stop() }) {
			c.Fail("C14", "stop-hangs", "Stop did not return within 3 minutes; blocked: %s", strings.Join(s.Blocked(), "; "))
			return
		}
		s.Sleep(int64(time.Minute))
		c.Check()
		if drains > 0 {
			c.Fail("C14", "drain-hangs", "%d Drain calls that began before Stop never returned", drains)
		}
		return
	}
	c.JoinOrFail(prop, 30*time.Minute)
	if prop == "C13" {
		s.Sleep(int64(300 * time.Millisecond))
		w.timely()
	}
	if !c.Call(node, "drain", 3*time.Minute, func() { w.drain(sink) }) {
		c.Fail(prop, "drain-hangs", "Drain did not return within 3 minutes; blocked: %s", strings.Join(s.Blocked(), "; "))
		return
	}
	w.all()
	if !c.Call(node, "stop", 3*time.Minute, func() { sink.Stop() }) {
		c.Fail(prop, "stop-hangs", "Stop did not return within 3 minutes; blocked: %s", strings.Join(s.Blocked(), "; "))
		return
	}
	c.Check()
}

func (w *sdWorld) datagram(b []byte, failed bool) {
	c := w.c
	c.Check()
	if len(b) == 0 {
		c.Fail("C12", "empty-datagram", "an empty datagram was sent")
		return
	}
	if len(b) > 1440 {
		c.Fail("C12", "datagram-too-long", "a datagram of %d bytes was sent", len(b))
	}
	if b[len(b)-1] != '\n' {
		c.Fail("C12", "metric-cut", "a datagram ends in the middle of a metric: ...%q", tail(b))
	}
	var ls []string
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if l != "" {
			ls = append(ls, l)
		}
	}
	m := w.sent
	if failed {
		m = w.failed
	}
	for _, l := range ls {
		m[l]++
	}
	w.log = append(w.log, sdSend{w.c.S.Now(), ls, failed})
}

func tail(b []byte) string {
	if len(b) > 40 {
		b = b[len(b)-40:]
	}
	return string(b)
}

func (w *sdWorld) drain(sink *health.StatsDSink) {
	need := map[string]int{}
	for _, r := range w.recs {
		if r.Done {
			for _, l := range w.lines(r) {
				need[l]++
			}
		}
	}
	sink.Drain()
	w.c.S.Event("drained")
	w.c.Check()
	if w.c.P("fault") > 0 {
		return
	}
	for _, k := range keysOf(need, nil) {
		if w.sent[k] < need[k] {
			w.c.Fail("C11", "not-drained", "Drain returned, and metric %q, emitted %d times before the call, was sent %d times", short(k), need[k], w.sent[k])
		}
	}
}

// all compares everything sent with everything emitted, after a final drain.
func (w *sdWorld) all() {
	c := w.c
	want := map[string]int{}
	owner := map[string]int{}
	own := map[int][]string{}
	for _, r := range w.recs {
		for _, l := range w.lines(r) {
			want[l]++
			if o, ok := owner[l]; !ok {
				owner[l] = r.Actor
			} else if o != r.Actor {
				owner[l] = -1
			}
		}
	}
	for _, r := range w.recs {
		for _, l := range w.lines(r) {
			if owner[l] >= 0 {
				own[r.Actor] = append(own[r.Actor], l)
			}
		}
	}
	c.Check()
	faults := c.P("fault") > 0
	for _, k := range keysOf(want, w.sent) {
		n, sent := want[k], w.sent[k]
		if n == 0 {
			c.Fail("C12", "not-a-metric", "%q was sent, which is no metric that was emitted", short(k))
			c.Fail("C11", "unexpected-metric", "%q was sent, which is no metric that was emitted", short(k))
			c.Fail("C15", "unexpected-metric", "%q was sent, which is no metric that was emitted", short(k))
			continue
		}
		if sent > n {
			c.Fail("C11", "metric-duplicated", "%q was sent %d times for %d emissions", short(k), sent, n)
			c.Fail("C15", "metric-duplicated", "%q was sent %d times for %d emissions", short(k), sent, n)
			c.Fail("C12", "metric-duplicated", "%q was sent %d times for %d emissions", short(k), sent, n)
		}
		if sent < n {
			if faults {
				if sent+w.failed[k] < n {
					c.Fail("C15", "metric-lost", "%q was emitted %d times, sent %d times, and was in %d failed sends", short(k), n, sent, w.failed[k])
				}
				continue
			}
			c.Fail("C11", "metric-lost", "%q was emitted %d times and sent %d times", short(k), n, sent)
			c.Fail("C12", "metric-lost", "%q was emitted %d times and sent %d times", short(k), n, sent)
		}
	}
	if faults {
		return
	}
	got := map[int][]string{}
	for _, d := range w.log {
		for _, l := range d.lines {
			if o, ok := owner[l]; ok && o >= 0 {
				got[o] = append(got[o], l)
			}
		}
	}
	for id, ls := range own {
		for i := range ls {
			if i < len(got[id]) && got[id][i] != ls[i] {
				c.Fail("C11", "out-of-order", "metric %d of actor %d is %q, want %q", i, id, short(got[id][i]), short(ls[i]))
				return
			}
		}
	}
}

// timely: every metric left the process within the flush period.
func (w *sdWorld) timely() {
	c := w.c
	at := map[string][]int64{}
	for _, d := range w.log {
		for _, l := range d.lines {
			at[l] = append(at[l], d.at)
		}
	}
	due := map[string][]int64{}
	for _, r := range w.recs {
		for _, l := range w.lines(r) {
			due[l] = append(due[l], r.T1)
		}
	}
	for _, l := range keysOf(due, nil) {
		sort.Slice(due[l], func(i, k int) bool { return due[l][i] < due[l][k] })
		// the n-th sending of a line belongs to its n-th emission at the latest
		for i, t := range due[l] {
			c.Check()
			if i >= len(at[l]) {
				c.Fail("C13", "not-flushed", "%q, emitted at t=%v, has not been sent at t=%v", short(l), time.Duration(t), time.Duration(c.S.Now()))
				return
			}
			if at[l][i] > t+int64(110*time.Millisecond) {
				c.Fail("C13", "late", "%q was emitted at t=%v and sent at t=%v", short(l), time.Duration(t), time.Duration(at[l][i]))
				return
			}
		}
	}
}

func init() {
	suite.Add(&kit.Scenario{Name: "statsd", Gen: genStatsd, Run: runStatsd})
	for _, p := range []string{"C11", "C12", "C13", "C14", "C15"} {
		suite.Props[p] = &kit.PropSpec{Scenarios: []string{"statsd"}, Quick: 1000000}
	}
}
