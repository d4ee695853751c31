package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"strings"
	"time"

	"github.com/gocraft/health/sinks/bugsnag"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
)

// The Bugsnag scenario: applications emit errors, the Bugsnag service notes the
// reports it gets. Decides C03 (no outages) and C04 (outages).

type bsPayload struct {
	APIKey   string `json:"apiKey"`
	Notifier struct {
		Name string `json:"name"`
	} `json:"notifier"`
	Events []struct {
		Context    string `json:"context"`
		Exceptions []struct {
			ErrorClass string `json:"errorClass"`
			Message    string `json:"message"`
			Stacktrace []struct {
				File       string `json:"file"`
				LineNumber int    `json:"lineNumber"`
				Method     string `json:"method"`
				InProject  bool   `json:"inProject"`
			} `json:"stacktrace"`
		} `json:"exceptions"`
		App struct {
			Version      string `json:"version"`
			ReleaseStage string `json:"releaseStage"`
		} `json:"app"`
		Device struct {
			Hostname string `json:"hostname"`
		} `json:"device"`
		MetaData struct {
			Request struct {
				URL        string `json:"url"`
				Parameters string `json:"parameters"`
			} `json:"request"`
			Kvs map[string]string `json:"kvs"`
		} `json:"metaData"`
	} `json:"events"`
}

// faulty is an HTTP fault policy driven by actor 96 of a plan.
type faulty struct {
	c     *kit.Ctx
	set   []simhttp.Fault
	pct   int
	hosts map[string]bool // nil: all
	heal  int64
	ended bool
}

var outageSets = map[string][]simhttp.Fault{
	"down":       {simhttp.Refused},
	"flaky":      {simhttp.Refused, simhttp.Reset, simhttp.ResetAfter, simhttp.Truncate},
	"5xx":        {simhttp.Status5xx, simhttp.Status4xx},
	"5xxdata":    {simhttp.StatusData},
	"4xxgarbage": {simhttp.StatusData, simhttp.Status4xx, simhttp.Garbage, simhttp.Refused},
	"slow":       {simhttp.SlowHead, simhttp.SlowBody},
	"garbage":    {simhttp.Garbage},
	"hang":       {simhttp.Hang, simhttp.BodyHang},
	"mixed":      {simhttp.Refused, simhttp.Reset, simhttp.ResetAfter, simhttp.Status5xx, simhttp.Garbage, simhttp.Truncate, simhttp.SlowHead, simhttp.SlowBody, simhttp.Hang, simhttp.BodyHang, simhttp.Status4xx},
}

func genOutages(r *kit.Rng, p *kit.Plan, kinds []string, span time.Duration) {
	for n := r.In(1, 4); n > 0; n-- {
		p.Ops = append(p.Ops, kit.Op{A: 96, K: "sl", N: r.Dur(time.Millisecond, span)},
			kit.Op{A: 96, K: "outage", S: kit.PickOf(r, kinds), N: int64(kit.Pick(r, 20, 50, 100))},
			kit.Op{A: 96, K: "sl", N: r.Dur(time.Millisecond, span)},
			kit.Op{A: 96, K: "heal"})
	}
}

func spawnOutages(c *kit.Ctx, hosts ...string) *faulty {
	f := &faulty{c: c}
	if len(hosts) > 0 {
		f.hosts = map[string]bool{}
		for _, h := range hosts {
			f.hosts[h] = true
		}
	}
	n := simhttp.Of(c.S)
	n.Policy = func(from *rt.Node, req *http.Request, target string) simhttp.Fault {
		h := target[:strings.LastIndex(target, ":")]
		if f.pct == 0 || (f.hosts != nil && !f.hosts[h]) {
			return simhttp.None
		}
		if !c.S.Chance(f.pct, 100, rt.KFault) {
			return simhttp.None
		}
		return f.set[c.S.Choose(len(f.set), rt.KFault)]
	}
	ops := c.Plan.ByActor()[96]
	if len(ops) > 0 {
		c.Spawn(c.S.Node("env"), "outages", func() {
			for _, op := range ops {
				switch op.K {
				case "sl":
					c.S.Sleep(op.N)
				case "outage":
					f.set, f.pct = outageSets[op.S], int(op.N)
					c.S.Event("outage %s %d%%", op.S, op.N)
				case "heal":
					f.pct = 0
					c.S.Event("heal")
				}
			}
			f.pct = 0
			f.heal = c.S.Now()
		})
	}
	return f
}

func genBugsnag(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, prop == "C04") // a stall may outlast the request timeout
	m := defMix()
	m.raw = kit.Pick(r, 0, 8)
	m.er, m.re, m.mu, m.run, m.jkv = 14, 6, 3, 4, 6
	m.ev, m.ti, m.ga, m.co = 2, 1, 1, 1
	m.kv, m.share = 60, 50
	m.slMax = 2 * time.Second
	m.nm.long = 2
	m.burst = 1
	m.deep = true
	k, n := r.In(1, 4), r.In(2, 12)
	if big {
		n *= 5
	}
	p.P["ep"] = r.N(2)
	p.P["cfg"] = r.N(8) // bits: version, stage, host configured
	p.P["slow"] = kit.Pick(r, 0, 0, 30, 90)
	p.P["other"] = r.N(2)
	p.P["skv"] = r.N(2)
	genActors(r, p, k, n, &m)
	if prop == "C04" {
		genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "hang", "mixed"}, 10*time.Second)
	}
	return p
}

func runBugsnag(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	nw := simhttp.Of(s)
	w := newWorld(c, node)
	b := &bsWorld{World: w}
	cfg := &bugsnag.Config{APIKey: "key-1", Endpoint: "http://bugsnag.internal/notify", ReleaseStage: "staging", AppVersion: "1.2", Hostname: "web-7"}
	b.ver, b.stage, b.host = cfg.AppVersion, cfg.ReleaseStage, cfg.Hostname
	if bits := c.P("cfg"); bits != 0 {
		if bits&1 != 0 {
			cfg.AppVersion, b.ver = "", ""
		}
		if bits&2 != 0 {
			cfg.ReleaseStage, b.stage = "", "production"
		}
		if bits&4 != 0 {
			cfg.Hostname, b.host = "", "app-3"
			node.Vars["hostname"] = "app-3"
		}
	}
	host, port := "bugsnag.internal", "80"
	if c.P("ep") == 1 {
		cfg.Endpoint = ""
		host, port = "notify.bugsnag.com", "443"
	}
	prop := c.Prop
	b.serve(host, port)
	for i := 0; i < c.P("skv"); i++ {
		w.streamKv("k1", "stream")
	}
	sink := bugsnag.NewSink(cfg)
	if c.P("other") == 1 {
		w.add(&recSink{c: c, slow: 2, by: map[int][]*got{}})
	}
	w.add(sink)
	if c.P("other") == 1 {
		w.add(&recSink{c: c, slow: 1, by: map[int][]*got{}})
	}
	var fl *faulty
	if prop == "C04" {
		fl = spawnOutages(c)
		emitters := 0
		for id := range c.Plan.ByActor() {
			if id < 90 {
				emitters++
			}
		}
		// a report may take as long as a request may take, and an emitter may
		// have to wait for those that came before it
		limit := int64(emitters+1) * int64(2*time.Minute)
		w.Late = func(a *Actor, d int64) {
			if d > limit {
				c.Fail("C04", "emitter-blocked", "an operation of actor %d took %v", a.ID, time.Duration(d))
			}
		}
	} else if pct := c.P("slow"); pct > 0 {
		nw.Policy = func(from *rt.Node, req *http.Request, target string) simhttp.Fault {
			if s.Chance(pct, 100, rt.KFault) {
				return []simhttp.Fault{simhttp.SlowHead, simhttp.SlowBody}[s.Choose(2, rt.KFault)]
			}
			return simhttp.None
		}
	}
	w.spawn(nil)
	c.JoinOrFail(prop, 48*time.Hour)
	// let the queue empty
	var fresh []*Rec
	for _, r := range w.recs {
		if r.Kind == "err" && r.Fresh && !r.Muted {
			fresh = append(fresh, r)
		}
	}
	if prop == "C04" {
		// after the faults have stopped, a new error gets through
		a := w.actor(50)
		op := kit.Op{A: 50, K: "er", S: "probe"}
		if !c.Call(node, "probe", time.Hour, func() { a.Do(&op) }) {
			c.Fail("C04", "emitter-blocked", "an error emitted after the outage ended did not return")
			return
		}
		fresh = append(fresh, a.recs[0])
	}
	for i := 0; i < len(fresh)+2; i++ {
		s.Sleep(int64(time.Minute))
		if len(b.served) >= len(fresh) && i > 1 {
			break
		}
	}
	count := b.count()
	c.Check()
	if prop == "C04" {
		tried := map[string]int{}
		for _, cl := range nw.Calls {
			var p bsPayload
			if json.Unmarshal(cl.Body, &p) == nil && len(p.Events) == 1 && len(p.Events[0].Exceptions) == 1 {
				tried[p.Events[0].Exceptions[0].Message]++
			}
		}
		n := map[string]int{}
		for _, r := range fresh {
			n[r.ErrMsg]++
		}
		for _, r := range fresh {
			if tried[r.ErrMsg] < n[r.ErrMsg] {
				c.Fail("C04", "never-attempted", "%d reports were attempted for %s and %d equal errors", tried[r.ErrMsg], r, n[r.ErrMsg]-1)
			}
			if count[r.ErrMsg] > n[r.ErrMsg] {
				c.Fail("C04", "reported-twice", "%s was reported %d times, and there were %d", r, count[r.ErrMsg], n[r.ErrMsg])
			}
		}
		fine := map[string]int{}
		for _, cl := range nw.Calls {
			ok := cl.Fault == simhttp.None || cl.Fault == simhttp.SlowHead || cl.Fault == simhttp.SlowBody
			var p bsPayload
			if ok && json.Unmarshal(cl.Body, &p) == nil && len(p.Events) == 1 {
				m := p.Events[0].Exceptions[0].Message
				if fine[m]++; count[m] < fine[m] {
					c.Fail("C04", "report-lost", "%d reports of %q met no fault and %d were received", fine[m], m, count[m])
				}
			}
		}
		if count[fresh[len(fresh)-1].ErrMsg] != 1 {
			c.Fail("C04", "no-recovery", "the error emitted after the outage was reported %d times", count[fresh[len(fresh)-1].ErrMsg])
		}
		_ = fl
		return
	}
	b.exact(fresh)
}

type bsWorld struct {
	*World
	served           []*bsPayload
	ver, stage, host string // what the reports must say
}

// serve is the Bugsnag service.
func (b *bsWorld) serve(host, port string) {
	c := b.c
	simhttp.Of(c.S).Serve(host, port, http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		p := &bsPayload{}
		if err := json.Unmarshal(body, p); err != nil || r.Method != "POST" || len(p.Events) != 1 || len(p.Events[0].Exceptions) != 1 {
			c.Fail("C03", "bad-report", "Bugsnag got a %s it cannot parse (%v): %s", r.Method, err, short(string(body)))
			return
		}
		b.served = append(b.served, p)
		c.S.Event("report %q", p.Events[0].Exceptions[0].Message)
		rw.Write([]byte("OK"))
	}))
}

func (b *bsWorld) count() map[string]int {
	count := map[string]int{}
	for _, p := range b.served {
		count[p.Events[0].Exceptions[0].Message]++
	}
	return count
}

// exact compares the reports received with the errors that should be reported.
func (b *bsWorld) exact(fresh []*Rec) {
	c := b.c
	count := b.count()
	want := map[string][]*Rec{} // equal errors are one goroutine's
	for _, r := range fresh {
		want[r.ErrMsg] = append(want[r.ErrMsg], r)
	}
	for _, r := range fresh {
		if n := len(want[r.ErrMsg]); count[r.ErrMsg] < n {
			c.Fail("C03", "not-reported", "%s was never reported (or one of %d errors equal to it)", r, n-1)
		} else if count[r.ErrMsg] > n {
			c.Fail("C03", "reported-twice", "%s was reported %d times, and there were %d", r, count[r.ErrMsg], n)
		}
	}
	last := map[int]int{}
	for _, p := range b.served {
		c.Check()
		e := p.Events[0]
		x := e.Exceptions[0]
		if len(want[x.Message]) == 0 {
			c.Fail("C03", "unexpected-report", "a report of %q, which should not be reported", x.Message)
			return
		}
		r := want[x.Message][0]
		want[x.Message] = want[x.Message][1:]
		if last[r.Actor] > r.Seq+1 {
			c.Fail("C03", "out-of-order", "%s was reported after a later error of the same goroutine", r)
		}
		last[r.Actor] = r.Seq + 1
		kv := union(e.MetaData.Kvs)
		wkv := union(r.Kvs)
		if r.HasStack {
			if kv["stack"] == "" {
				c.Fail("C03", "wrong-report", "%s was reported without its stack", r)
			}
			delete(kv, "stack")
			delete(wkv, "stack")
		}
		bad := ""
		switch {
		case x.ErrorClass != r.Event:
			bad = fmt.Sprintf("event %q", x.ErrorClass)
		case e.Context != r.Job:
			bad = fmt.Sprintf("job %q", e.Context)
		case !eqKvs(kv, wkv):
			bad = fmt.Sprintf("key/values %v, want %v", kv, wkv)
		case e.MetaData.Request.URL != r.Kvs["request"]:
			bad = fmt.Sprintf("request %q, want %q", e.MetaData.Request.URL, r.Kvs["request"])
		case e.MetaData.Request.Parameters != r.Kvs["formdata"]:
			bad = fmt.Sprintf("form data %q, want %q", e.MetaData.Request.Parameters, r.Kvs["formdata"])
		case p.APIKey != "key-1":
			bad = fmt.Sprintf("API key %q", p.APIKey)
		case e.App.ReleaseStage != b.stage:
			bad = fmt.Sprintf("release stage %q", e.App.ReleaseStage)
		case e.App.Version != b.ver:
			bad = fmt.Sprintf("version %q", e.App.Version)
		case e.Device.Hostname != b.host:
			bad = fmt.Sprintf("host name %q", e.Device.Hostname)
		}
		if bad != "" {
			c.Fail("C03", "wrong-report", "%s was reported with %s", r, bad)
		}
		site, inner := -1, ""
		for i, f := range x.Stacktrace {
			if std := strings.HasPrefix(f.File, runtime.GOROOT()); std == f.InProject {
				c.Fail("C03", "wrong-stack", "%s was reported with frame %s in %s, in project: %v", r, f.Method, f.File, f.InProject)
			}
			if strings.HasPrefix(f.Method, "github.com/gocraft/health:") || strings.HasPrefix(f.Method, "runtime:") {
				continue
			}
			if inner == "" {
				inner = f.Method
			}
			if strings.Contains(f.Method, "(*Actor)."+r.Site) && strings.HasSuffix(f.File, "emit.go") && f.LineNumber > 0 {
				site = i
				break
			}
		}
		if site < 0 || !strings.Contains(inner, "(*Actor)."+r.Site) {
			c.Fail("C03", "wrong-stack", "%s was emitted in %s, but the innermost application frame of its report is %q (%d frames)", r, r.Site, inner, len(x.Stacktrace))
			return
		}
		for i, fn := range r.Stack {
			if site+i > 44 {
				break // deeper than what is kept
			}
			got := "nothing"
			if site+i < len(x.Stacktrace) {
				got = strings.Replace(x.Stacktrace[site+i].Method, ":", ".", 1)
			}
			if got != fn {
				c.Fail("C03", "wrong-stack", "%s was emitted with %s on the stack %d frames out from %s, and its report has %s there", r, fn, i, r.Site, got)
				break
			}
		}
	}
}

func init() {
	suite.Add(&kit.Scenario{Name: "bugsnag", Gen: genBugsnag, Run: runBugsnag})
	suite.Props["C03"] = &kit.PropSpec{Scenarios: []string{"bugsnag"}, Quick: 1000000}
	suite.Props["C04"] = &kit.PropSpec{Scenarios: []string{"bugsnag"}, Quick: 1000000}
}
