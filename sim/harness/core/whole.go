package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"github.com/gocraft/health"
	"github.com/gocraft/health/runtime_metrics"
	"github.com/gocraft/health/sinks/bugsnag"
	"github.com/gocraft/health/sinks/librato"
	"github.com/gocraft/health/stack"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
	"vsim/simnet"
)

// The whole scenario: one stream with any combination of all sinks, in any
// order, in front of every faulty thing they talk to. Decides C20, C28, C29 and
// C30.

const (
	kPoll = iota
	kStatsd
	kText
	kJSON
	kBugsnag
	kLibrato
	nSinks
)

var sinkNames = []string{"polling", "statsd", "text", "json", "bugsnag", "librato"}

func genWhole(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, prop != "C30")
	m := defMix()
	m.raw = kit.Pick(r, 0, 8)
	m.dc = 3
	m.slMin, m.slMax = time.Millisecond, 5*time.Second
	k, n := r.In(1, 4), r.In(2, 14)
	mask := 0
	for mask == 0 || (prop == "C30" && mask&(mask-1) == 0) {
		mask = int(r.U() & (1<<nSinks - 1))
		if r.P(30) {
			mask = 1<<nSinks - 1
		}
	}
	if prop == "C28" {
		mask |= 1 << kit.Pick(r, kBugsnag, kLibrato)
		m.er += 8
	}
	p.P["mask"] = mask
	p.P["order"] = r.N(1 << 20)
	p.P["skv"] = r.N(2)
	p.P["yield"] = kit.Pick(r, 0, 30, 100)
	p.P["wfault"] = kit.Pick(r, 0, 0, 10, 50)
	p.P["fault"] = kit.Pick(r, 0, 0, 10, 50)
	p.P["victim"] = r.N(3) // which of the services has outages: none, bugsnag, librato
	p.P["interval"] = 24 * 3600 * 1000
	p.P["prefix"] = r.N(3)
	if big {
		n *= 5
	}
	switch prop {
	case "C30":
		p.P["mid"] = 1
		if p.P["qcap"]+p.P["wfault"]+p.P["fault"]+p.P["victim"] > 0 || mask&(1<<kBugsnag) != 0 {
			// a slow sink delays the second emission of a job that panics, so
			// how long that job took is known only within bounds
			m.run = 0
		}
		switch p.P["victim"] {
		case 1:
			genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed", "hang"}, 20*time.Second)
		case 2:
			genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed", "hang"}, 40*time.Second)
		}
	case "C20":
		p.P["interval"] = kit.Pick(r, 100, 1000, 1000, 60000)
		p.P["retain"] = kit.Pick(r, 0, 1, 3, 100)
		m.nm = nameOpts{odd: 40, bad: 15, long: 10}
		m.weird = true
		m.names = kit.Pick(r, 0, 6, 40)
		p.P["victim"] = 3
		p.P["rtm"] = r.N(2)
		genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed", "hang"}, 40*time.Second)
		for i := r.In(0, 3); i > 0; i-- {
			p.Ops = append(p.Ops, kit.Op{A: 95, K: "sl", N: r.Dur(time.Millisecond, 5*time.Second)}, kit.Op{A: 95, K: "step", N: r.Dur(time.Millisecond, time.Hour) * int64(kit.Pick(r, 1, -1))})
		}
		for i := r.In(0, 2); i > 0; i-- {
			for q := r.In(1, 5); q > 0; q-- {
				p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "sl", N: r.Dur(time.Microsecond, 5*time.Second)}, kit.Op{A: 80 + i, K: kit.Pick(r, "get", "http", "drain")})
			}
		}
		if big && r.P(50) {
			n, k = r.In(200, 600), 4
			m.nm.long = 1
			p.P["quantum"] = kit.Pick(r, 0, 60)
		}
	case "C28":
		m.slMax = 20 * time.Second
		p.P["victim"] = 3
		genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed", "hang"}, 40*time.Second)
	case "C29":
		p.P["qcap"] = 0 // a part that still reports must not block on one that is stopped
		m.slMax = 10 * time.Second
		p.P["victim"] = 3
		p.P["rtm"] = 1
		p.P["interval"] = kit.Pick(r, 100, 1000, 60000)
		p.P["mask"] |= 1 << kit.Pick(r, kPoll, kBugsnag, kLibrato)
		if r.P(70) {
			genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "mixed", "hang"}, 30*time.Second)
		}
		for i := 0; i < 2; i++ {
			for q := r.In(0, 5); q > 0; q-- {
				p.Ops = append(p.Ops, kit.Op{A: 80 + i, K: "sl", N: r.Dur(time.Microsecond, 5*time.Second)}, kit.Op{A: 80 + i, K: kit.Pick(r, "get", "http")})
			}
		}
		p.P["stopat"] = int(r.Dur(time.Microsecond, 40*time.Second))
		p.P["serial"] = r.N(2)
		p.P["hammer"] = kit.Pick(r, 0, 0, 0, 0, 1, 3)
		if p.P["hammer"] > 0 {
			p.P["rtm"] = 0 // would block on a stopped sink whose queue is full
		}
		p.P["hammerus"] = kit.Pick(r, 0, 0, 1, 1000)
	}
	genActors(r, p, k, n, &m)
	return p
}

// dumbWriter is a writer that is slow and fails.
type dumbWriter struct {
	c   *kit.Ctx
	flt int
}

func (k *dumbWriter) Write(b []byte) (int, error) {
	s := k.c.S
	rt.Y()
	if k.flt > 0 && s.Chance(k.flt, 100, rt.KFault) {
		switch s.Choose(3, rt.KFault) {
		case 0:
			s.Count("fault.write_error", 1)
			return 0, errors.New("broken pipe")
		case 1:
			s.Count("fault.short_write", 1)
			return len(b) / 2, io.ErrShortWrite
		case 2:
			s.Count("fault.write_block", 1)
			s.Sleep(int64(1+s.Choose(3000, rt.KFault)) * 1e6)
		}
	}
	return len(b), nil
}

type whole struct {
	c    *kit.Ctx
	w    *World
	pw   *pollWorld
	sd   *sdWorld
	sds  *health.StatsDSink
	tw   *wrWorld
	jw   *wrWorld
	bs   *bsWorld
	bsS  *bugsnag.Sink
	lb   *lbWorld
	lbS  *librato.Sink
	rm   *runtime_metrics.RuntimeMetrics
	born int64
	fl   *faulty
}

func (h *whole) build() {
	c := h.c
	s := c.S
	node := s.Node("main")
	mask := c.P("mask")
	iv := time.Duration(c.P("interval")) * time.Millisecond
	if c.P("mid") == 1 {
		d := simWall(s, node) - slot(simWall(s, node), iv)
		node.Offset = -d + int64(iv)/3
	}
	nw := simhttp.Of(s)
	un := simnet.Of(s)
	checking := c.Prop == "C30"
	order := []int{}
	for i, x := 0, uint64(c.P("order")); i < nSinks; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		j := int((x >> 33) % uint64(len(order)+1))
		order = append(order, 0)
		copy(order[j+1:], order[j:])
		order[j] = i
	}
	h.w = newWorld(c, node)
	for i := 0; i < c.P("skv"); i++ {
		h.w.streamKv("k1", "stream")
	}
	for _, k := range order {
		if mask&(1<<k) == 0 {
			continue
		}
		s.Event("sink %s", sinkNames[k])
		switch k {
		case kPoll:
			ret := iv * 3
			if c.Prop == "C20" {
				ret = iv * time.Duration(c.P("retain"))
			}
			h.pw = &pollWorld{World: h.w, iv: iv, retain: ret, bySer: map[[2]int64]*intS{}, pref: map[int]map[int]int{}, lastBy: map[int]*snapRec{}}
			h.pw.sink = health.NewJsonPollingSink(iv, ret)
			h.w.add(h.pw.sink)
			h.pw.sink.StartServer(":5020")
		case kStatsd:
			h.sd = &sdWorld{World: h.w, sent: map[string]int{}, failed: map[string]int{}, san: dollar, prefix: sdPrefixes[c.P("prefix")]}
			sk, err := health.NewStatsDSink("127.0.0.1:8125", &health.StatsDSinkOptions{Prefix: h.sd.prefix})
			if err != nil {
				c.Fail(c.Prop, "no-sink", "NewStatsDSink: %v", err)
				return
			}
			h.sds = sk
			if checking {
				un.Tap = func(from *rt.Node, to string, b []byte, err error) { h.sd.datagram(b, err != nil) }
			}
			if pct := c.P("fault"); pct > 0 {
				un.Policy = func(from *rt.Node, to string, b []byte) simnet.Fault {
					if s.Chance(pct, 100, rt.KFault) {
						return []simnet.Fault{simnet.SendErr, simnet.Block, simnet.Drop, simnet.Dup, simnet.Delay}[s.Choose(5, rt.KFault)]
					}
					return simnet.None
				}
			}
			h.w.add(sk)
		case kText, kJSON:
			var wr io.Writer = &dumbWriter{c, c.P("wfault")}
			if checking {
				ww := &wrWorld{World: h.w, json: k == kJSON, want: map[string]int{}}
				sw := &simWriter{w: ww, flt: c.P("wfault"), seen: map[string][]wrLine{}}
				ww.ws = append(ww.ws, sw)
				ww.watch()
				wr = sw
				if k == kText {
					h.tw = ww
				} else {
					h.jw = ww
				}
			}
			if k == kText {
				h.w.add(&health.WriterSink{Writer: wr})
			} else {
				h.w.add(&health.JsonWriterSink{Writer: wr})
			}
		case kBugsnag:
			h.bs = &bsWorld{World: h.w, ver: "1.2", stage: "staging", host: "web-7"}
			if checking {
				h.bs.serve("bugsnag.internal", "80")
			} else {
				serveAny(nw, "bugsnag.internal", "80")
			}
			h.bsS = bugsnag.NewSink(&bugsnag.Config{APIKey: "key-1", Endpoint: "http://bugsnag.internal/notify", ReleaseStage: "staging", AppVersion: "1.2", Hostname: "web-7"})
			h.w.add(h.bsS)
		case kLibrato:
			h.lb = &lbWorld{World: h.w, prefix: []string{"", "metroid", "a.b"}[c.P("prefix")], san: lbSanitise}
			if checking {
				h.lb.serve()
			} else {
				serveAny(nw, "metrics-api.librato.com", "443")
			}
			h.lbS = librato.New("me@x.org", "key:1", h.lb.prefix)
			h.born = s.Now()
			h.w.add(h.lbS)
		}
	}
	if c.P("rtm") == 1 {
		h.rm = runtime_metrics.NewRuntimeMetrics(h.w.st, &runtime_metrics.Options{Interval: time.Second, Memory: true, GC: true, GCQuantile: true, Goroutines: true, Cgo: true, FDs: true})
		h.rm.Start()
	}
	switch c.P("victim") {
	case 1:
		h.fl = spawnOutages(c, "bugsnag.internal")
	case 2:
		h.fl = spawnOutages(c, "metrics-api.librato.com")
	case 3:
		h.fl = spawnOutages(c, "bugsnag.internal", "metrics-api.librato.com")
	}
}

func serveAny(nw *simhttp.Net, host, port string) {
	nw.Serve(host, port, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		io.ReadAll(r.Body)
		rw.Write([]byte("{\"ok\":true}"))
	}))
}

func (h *whole) readers() {
	c := h.c
	by := c.Plan.ByActor()
	for _, id := range kit.Actors(by) {
		if id < 80 || id >= 90 {
			continue
		}
		ops := by[id]
		c.Spawn(c.S.Node("main"), fmt.Sprintf("reader%d", id), func() {
			for _, op := range ops {
				switch op.K {
				case "sl":
					c.S.Sleep(op.N)
				case "get":
					if h.pw != nil {
						h.pw.sink.GetMetrics()
					}
				case "http":
					if h.pw != nil {
						r, err := (&simhttp.Client{Timeout: time.Minute}).Get("http://main:5020/health")
						if err == nil {
							io.ReadAll(r.Body)
							r.Body.Close()
						}
					}
				case "drain":
					if h.sds != nil {
						h.sds.Drain()
					}
				}
			}
		})
	}
}

func (h *whole) fresh() []*Rec {
	var f []*Rec
	for _, r := range h.w.recs {
		if r.Kind == "err" && r.Fresh && !r.Muted {
			f = append(f, r)
		}
	}
	return f
}

func runWhole(c *kit.Ctx) {
	s := c.S
	h := &whole{c: c}
	if c.Prop == "C30" {
		c.Alias = map[string]bool{"C03": true, "C05": true, "C11": true, "C12": true, "C15": true, "C16": true}
	}
	h.build()
	switch c.Prop {
	case "C29":
		h.stopping()
		return
	case "C20":
		h.w.Late = func(a *Actor, d int64) {
			if d > int64(time.Hour) {
				c.Fail("C20", "emitter-blocked", "an operation of actor %d took %v", a.ID, time.Duration(d))
			}
		}
		spawnClock(c, s.Node("main"))
	}
	h.w.spawn(nil)
	h.readers()
	c.JoinOrFail(c.Prop, 48*time.Hour)
	s.NoStall(1)
	if c.Prop != "C30" {
		// requests in flight end, batches are flushed
		for i := 0; i < 20; i++ {
			s.Sleep(int64(2 * time.Minute))
			if !h.busy() {
				break
			}
		}
		c.Check()
		if c.Prop == "C28" {
			h.leaks()
			return
		}
		// the program still works: one more round of everything
		a := h.w.actor(51)
		for _, k := range []string{"ev", "ti", "ga", "er", "co", "run"} {
			op := kit.Op{A: 51, K: k, S: "probe", N: 1000}
			if !c.Call(s.Node("main"), "probe", time.Hour, func() { a.Do(&op) }) {
				c.Fail("C20", "emitter-blocked", "an emission after the faults stopped does not return; blocked: %s", strings.Join(s.Blocked(), "; "))
				return
			}
		}
		if h.pw != nil {
			if !c.Call(s.Node("main"), "get", time.Hour, func() { h.pw.sink.GetMetrics() }) {
				c.Fail("C20", "reader-blocked", "GetMetrics does not return; blocked: %s", strings.Join(s.Blocked(), "; "))
			}
		}
		if h.sds != nil {
			if !c.Call(s.Node("main"), "drain", time.Hour, func() { h.sds.Drain() }) {
				c.Fail("C20", "drain-blocked", "Drain does not return; blocked: %s", strings.Join(s.Blocked(), "; "))
			}
		}
		return
	}
	s.Sleep(int64(35 * time.Second))
	fresh := h.fresh()
	if h.bs != nil {
		for i := 0; i < len(fresh)+2; i++ {
			s.Sleep(int64(time.Minute))
			if len(h.bs.served) >= len(fresh) && i > 1 {
				break
			}
		}
	}
	if h.sds != nil {
		if !c.Call(s.Node("main"), "drain", 3*time.Minute, func() { h.sds.Drain() }) {
			c.Fail("C30", "drain-hangs", "Drain did not return within 3 minutes")
			return
		}
		h.sd.all()
	}
	c.Settle()
	if h.pw != nil {
		h.pw.final()
	}
	if h.tw != nil {
		h.tw.exact()
	}
	if h.jw != nil {
		h.jw.exact()
	}
	if h.bs != nil && c.P("victim") != 1 {
		h.bs.exact(fresh)
	}
	if h.lb != nil && c.P("victim") != 2 {
		h.lb.batches(simhttp.Of(s), "main", h.born)
	}
}

func (h *whole) busy() bool {
	for _, cl := range simhttp.Of(h.c.S).Calls {
		if cl.End == 0 {
			return true
		}
	}
	return false
}

func (h *whole) leaks() {
	c := h.c
	for _, b := range simhttp.Of(c.S).Bodies {
		c.Check()
		if b.Leaked() {
			c.Fail("C28", "response-leaked", "a response of %d bytes from %s was neither read to its end nor closed", b.Len, b.URL)
			return
		}
	}
	for _, cl := range simhttp.Of(c.S).Calls {
		if cl.End == 0 {
			c.Fail("C28", "request-unending", "a request to %s that began at t=%v has not ended at t=%v", cl.URL, time.Duration(cl.Start), time.Duration(c.S.Now()))
			return
		}
	}
}

// stopping: stop everything that can be stopped while the applications run.
func (h *whole) stopping() {
	c := h.c
	s := c.S
	h.w.spawn(nil)
	h.readers()
	s.Sleep(int64(c.P("stopat")))
	var snaps []*snapRec
	if h.pw != nil {
		c.Call(s.Node("main"), "get", time.Hour, func() {
			sn := &snapRec{raw: h.pw.sink.GetMetrics(), at: s.Now()}
			for _, g := range sn.raw {
				sn.conv = append(sn.conv, fromHealth(g))
			}
			snaps = append(snaps, sn)
		})
	}
	type stop struct {
		name string
		f    func()
		at   int64
		done bool

		to      health.Sink // to emit to meanwhile
		starved bool
	}
	var stops []*stop
	if h.rm != nil {
		stops = append(stops, &stop{name: "runtime metrics", f: h.rm.Stop})
	}
	if h.bsS != nil {
		stops = append(stops, &stop{name: "bugsnag", f: h.bsS.ShutdownServer, to: h.bsS})
	}
	if h.lbS != nil {
		stops = append(stops, &stop{name: "librato", f: h.lbS.Stop, to: h.lbS})
	}
	if h.pw != nil {
		stops = append(stops, &stop{name: "polling", f: h.pw.sink.ShutdownServer, to: h.pw.sink})
	}
	wait := func(x *stop) bool {
		end := s.Now() + int64(30*time.Minute)
		for !x.done && !x.starved && s.Now() < end {
			s.Sleep(int64(500 * time.Millisecond))
		}
		c.Check()
		if x.starved {
			c.Fail("C29", "stop-starved", "stopping the %s part does not return while goroutines emit to it", x.name)
			return false
		}
		if !x.done {
			c.Fail("C29", "stop-hangs", "stopping the %s part has not returned after 30 minutes; blocked: %s", x.name, strings.Join(s.Blocked(), "; "))
			return false
		}
		return true
	}
	for _, x := range stops {
		x := x
		if x.to != nil {
			// goroutines that emit without a break until it has stopped
			const most = 40_000 // several times what any queue holds
			n := 0
			for i := c.P("hammer"); i > 0; i-- {
				s.GoOn(s.Node("main"), "hammer "+x.name, func() {
					err := &health.UnmutedError{Err: errors.New("hammer"), Stack: stack.NewTrace(0)}
					for !x.done && n < most {
						n++
						x.to.EmitEventErr("hammer", "e", err, nil)
						rt.Y()
						if us := c.P("hammerus"); us > 0 {
							s.Sleep(int64(us) * 1e3)
						}
					}
					if !x.done {
						x.starved = true
					}
				})
			}
		}
		s.GoOn(s.Node("main"), "stop "+x.name, func() {
			x.f()
			x.done, x.at = true, s.Now()
			s.Event("stopped %s", x.name)
		})
		if c.P("serial") == 1 && !wait(x) {
			return
		}
	}
	for _, x := range stops {
		if !wait(x) {
			return
		}
	}
	// what has been stopped does nothing any more
	s.Sleep(int64(3 * time.Minute))
	for _, x := range stops {
		host := map[string]string{"bugsnag": "bugsnag", "librato": "librato"}[x.name]
		for _, cl := range simhttp.Of(s).Calls {
			if host != "" && strings.Contains(cl.URL, host) && cl.Start > x.at {
				c.Fail("C29", "active-after-stop", "a request to %s at t=%v, and its sink was stopped at t=%v", cl.URL, time.Duration(cl.Start), time.Duration(x.at))
			}
		}
	}
	for _, sn := range snaps {
		for k, ia := range sn.raw {
			if d := diffInt(fromHealth(ia), sn.conv[k], nil, true); d != "" {
				c.Fail("C29", "snapshot-changed", "a snapshot taken before stopping changed afterwards: %s", d)
			}
		}
	}
	c.Check()
}

func init() {
	_ = json.Valid
	suite.Add(&kit.Scenario{Name: "whole", Gen: genWhole, Run: runWhole})
	for _, p := range []string{"C20", "C28", "C29", "C30"} {
		suite.Props[p] = &kit.PropSpec{Scenarios: []string{"whole"}, Quick: 1000000}
	}
}
