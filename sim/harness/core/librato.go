package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/gocraft/health/sinks/librato"

	"vsim/harness/kit"
	"vsim/simhttp"
	"vsim/simtime"
)

// The Librato scenario: applications emit through a Librato sink, the Librato
// service notes the batches it gets. Decides C16 (no outages) and C17 (outages).

type lbGauge struct {
	Value      *int64  `json:"value"`
	Count      int64   `json:"count"`
	Sum        float64 `json:"sum"`
	Min        float64 `json:"min"`
	Max        float64 `json:"max"`
	SumSquares float64 `json:"sum_squares"`
	Attributes struct {
		Aggregate bool   `json:"aggregate"`
		Units     string `json:"display_units_long"`
	} `json:"attributes"`
}

type lbPost struct {
	MeasureTime int64               `json:"measure_time"`
	Period      int64               `json:"period"`
	Source      string              `json:"source"`
	Gauges      map[string]*lbGauge `json:"gauges"`
}

func genLibrato(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, true)
	m := defMix()
	m.raw = kit.Pick(r, 0, 8)
	m.kv = 5
	m.dc = 4
	m.nm.long = 2
	m.burst = 3
	m.slMin, m.slMax = time.Millisecond, 20*time.Second
	k, n := r.In(1, 4), r.In(2, 20)
	p.P["prefix"] = r.N(3)
	p.P["san"] = kit.Pick(r, 0, 0, 1)
	p.P["src"] = r.N(2)
	if p.P["stall"] > 0 {
		m.co, m.run = 0, 0
		m.nm.long = 0 // the sink takes a long name rune by rune, and each step may stall
	}
	if p.P["qcap"] > 0 {
		m.run = 0 // the report of a panic may wait for room in the queue before the completion
	}
	if big {
		n *= 5
		if r.P(20) {
			n, k = r.In(1200, 2000), 4
			p.P["quantum"] = kit.Pick(r, 0, 60, 200)
			m.run, m.kv, m.nm.long = 0, 0, 0
			m.sl = 1
			m.slMax = time.Second
		}
	}
	if r.P(30) {
		m.beat = int64(15 * time.Second) // when the sink flushes
	}
	genActors(r, p, k, n, &m)
	if r.P(50) {
		p.Ops = append(p.Ops, kit.Op{A: 70, K: "job", S: "bad"})
		for q := r.In(1, 4); q > 0; q-- {
			p.Ops = append(p.Ops, kit.Op{A: 70, K: "sl", N: r.Dur(time.Millisecond, m.slMax)}, kit.Op{A: 70, K: "ga", S: "bad", M: int64(r.In(1, 3))})
		}
	}
	if prop == "C17" {
		genOutages(r, p, []string{"down", "flaky", "5xx", "slow", "garbage", "hang", "mixed"}, 40*time.Second)
	}
	return p
}

func lbSanitise(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || strings.ContainsRune(".:-_", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

type lbItem struct {
	key   string
	count bool
	units string
	v     float64
}

type lbWorld struct {
	*World
	prefix string
	san    func(string) string
	served []string
}

// serve is the Librato service.
func (w *lbWorld) serve() {
	c := w.c
	simhttp.Of(c.S).Serve("metrics-api.librato.com", "443", http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		w.served = append(w.served, string(b))
		u, pw, ok := r.BasicAuth()
		if r.Method != "POST" || r.URL.Path != "/v1/metrics" || !ok || u != "me@x.org" || pw != "key:1" || r.Header.Get("Content-Type") != "application/json" {
			c.Fail("C16", "bad-request", "Librato got a %s of %s, authorised %v, type %q", r.Method, r.URL.Path, ok, r.Header.Get("Content-Type"))
		}
		c.S.Event("batch of %d bytes", len(b))
		rw.Write([]byte("{}"))
	}))
}

// items is the reference: which metrics one emission goes into.
func (w *lbWorld) items(r *Rec) []lbItem {
	p := w.prefix
	if p != "" {
		p += "."
	}
	e, j := w.san(r.Event), w.san(r.Job)
	two := func(suffix string, count bool, units string, v float64) []lbItem {
		return []lbItem{{p + e + suffix, count, units, v}, {p + j + "." + e + suffix, count, units, v}}
	}
	switch r.Kind {
	case "event":
		return two(".count", true, "count", 1)
	case "err":
		return two(".error.count", true, "count", 1)
	case "timing":
		return two(".timing", false, "ms", float64(r.Nanos)/1e6)
	case "gauge":
		return two(".gauge", false, "", r.Value)
	}
	return []lbItem{{p + j + "." + statusNames[r.Status] + ".timing", false, "ms", float64(r.Nanos) / 1e6}}
}

type lbAgg struct {
	n        int64
	sum, sq  float64
	abs      float64
	min, max float64
	count    bool
	units    string
}

func (a *lbAgg) add(it lbItem) {
	a.count, a.units = it.count, it.units
	if a.n == 0 || it.v < a.min {
		a.min = it.v
	}
	if a.n == 0 || it.v > a.max {
		a.max = it.v
	}
	a.n++
	a.sum += it.v
	a.abs += math.Abs(it.v)
	a.sq += it.v * it.v
}

func (g *lbGauge) weight() int64 {
	if g.Value != nil {
		return *g.Value
	}
	return g.Count
}

func runLibrato(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	prop := c.Prop
	nw := simhttp.Of(s)
	w := &lbWorld{World: newWorld(c, node), prefix: []string{"", "metroid", "a.b"}[c.P("prefix")], san: lbSanitise}
	w.serve()
	sink := librato.New("me@x.org", "key:1", w.prefix)
	born := s.Now()
	source := "main"
	if c.P("san") == 1 {
		w.san = func(s string) string { return strings.ToUpper(lbSanitise(s)) }
		sink.SanitizationFunc = w.san
	}
	if c.P("src") == 1 {
		source = "db.7"
		sink.Source = source
	}
	w.add(sink)
	if prop == "C17" {
		spawnOutages(c)
		w.Late = func(a *Actor, d int64) {
			if d > int64(15*time.Minute) {
				c.Fail("C17", "emitter-blocked", "an operation of actor %d took %v", a.ID, time.Duration(d))
			}
		}
	}
	w.spawn(nil)
	c.JoinOrFail(prop, 24*time.Hour)
	s.NoStall(1)
	s.Sleep(int64(35 * time.Second))
	if prop == "C17" {
		s.Sleep(int64(3 * time.Minute))
		a := w.actor(50)
		op := kit.Op{A: 50, K: "ev", S: "probe"}
		if !c.Call(node, "probe", time.Hour, func() { a.Do(&op) }) {
			c.Fail("C17", "emitter-blocked", "an event emitted after the outage ended did not return")
			return
		}
		s.Sleep(int64(time.Minute))
		key := w.items(a.recs[0])[0].key
		n := int64(0)
		for _, b := range w.served {
			var p lbPost
			if json.Unmarshal([]byte(b), &p) == nil && p.Gauges[key] != nil {
				n += p.Gauges[key].weight()
			}
		}
		c.Check()
		if n != 1 {
			c.Fail("C17", "no-recovery", "an event emitted 3 minutes after the outage ended was counted %d times by Librato a minute later", n)
			return
		}
		attempts, clean, got := map[string]int{}, map[string]int{}, map[string]int{}
		for _, cl := range nw.Calls {
			attempts[string(cl.Body)]++
			if cl.Fault == simhttp.None || cl.Fault == simhttp.SlowHead || cl.Fault == simhttp.SlowBody {
				clean[string(cl.Body)]++
			}
		}
		for _, b := range w.served {
			got[b]++
		}
		for _, b := range keysOf(clean, nil) {
			n := clean[b]
			if got[b] < n {
				c.Fail("C17", "batch-lost", "a batch was sent %d times without a fault and received %d times", n, got[b])
			}
		}
		for _, b := range keysOf(got, nil) {
			n := got[b]
			if n > attempts[b] {
				c.Fail("C17", "batch-duplicated", "a batch was attempted %d times and received %d times", attempts[b], n)
			}
		}
	}
	w.batches(nw, source, born)
}

func (w *lbWorld) batches(nw *simhttp.Net, source string, born int64) {
	c := w.c
	prop := c.Prop
	// which keys belong to one goroutine, and which carry values JSON cannot
	owner := map[string]int{}
	exempt := map[string]bool{}
	for _, r := range w.recs {
		for _, it := range w.items(r) {
			if o, ok := owner[it.key]; !ok {
				owner[it.key] = r.Actor
			} else if o != r.Actor {
				owner[it.key] = -1
			}
			if !(math.Abs(it.v) < 1e150) {
				exempt[it.key] = true
			}
		}
	}
	next := map[int]int{}
	shared := map[string]int64{}
	for bi, cl := range nw.Calls {
		if !strings.Contains(cl.URL, "librato") {
			continue
		}
		c.Check()
		var p lbPost
		if err := json.Unmarshal(cl.Body, &p); err != nil {
			c.Fail(prop, "bad-batch", "batch %d is not JSON: %v: %s", bi, err, short(string(cl.Body)))
			return
		}
		if len(p.Gauges) == 0 {
			c.Fail(prop, "empty-batch", "batch %d has no metrics", bi)
		}
		if p.Period != 15 || p.Source != source {
			c.Fail("C16", "wrong-batch", "batch %d has period %d and source %q, want 15 and %q", bi, p.Period, p.Source, source)
		}
		if exactTime(c) {
			at := simtime.WallOf(w.node, cl.Start) / 1e9
			if p.MeasureTime != at {
				c.Fail("C16", "wrong-batch", "batch %d has measure time %d, and was sent at %d", bi, p.MeasureTime, at)
			}
		}
		acts := map[int]int64{}
		for _, k := range keysOf(p.Gauges, nil) {
			g := p.Gauges[k]
			o, ok := owner[k]
			if !ok {
				c.Fail(prop, "unexpected-metric", "batch %d has metric %q, which nobody emitted", bi, short(k))
				return
			}
			if exempt[k] {
				continue
			}
			if !g.Attributes.Aggregate {
				c.Fail("C16", "wrong-metric", "metric %q is not marked for aggregation", short(k))
			}
			if o < 0 {
				shared[k] += g.weight()
			} else {
				acts[o] += g.weight()
			}
		}
		ids := make([]int, 0, len(acts))
		for a := range acts {
			ids = append(ids, a)
		}
		sort.Ints(ids)
		for _, a := range ids {
			weight := acts[a]
			want := map[string]*lbAgg{}
			recs := w.acts[a].recs
			sum := int64(0)
			var first *Rec
			for next[a] < len(recs) && sum < weight {
				r := recs[next[a]]
				next[a]++
				for _, it := range w.items(r) {
					if exempt[it.key] || owner[it.key] != a {
						continue
					}
					if want[it.key] == nil {
						want[it.key] = &lbAgg{}
					}
					want[it.key].add(it)
					sum++
					if first == nil {
						first = r
					}
				}
			}
			for _, k := range keysOf(p.Gauges, nil) {
				if owner[k] == a && want[k] == nil && !exempt[k] {
					c.Fail(prop, "wrong-metric", "batch %d has metric %q, which is not among the emissions it covers", bi, short(k))
					return
				}
			}
			for _, k := range keysOf(want, nil) {
				x, g := want[k], p.Gauges[k]
				if g == nil {
					c.Fail(prop, "wrong-metric", "batch %d has no metric %q, of which it should have %d", bi, short(k), x.n)
					return
				}
				if d := x.diff(g); d != "" {
					c.Fail(prop, "wrong-metric", "batch %d, metric %q: %s", bi, short(k), d)
					return
				}
			}
			// an emission is counted in the flush after it, or the one after that
			if prop == "C16" && exactTime(c) && first != nil && cl.Start > first.T1+int64(31*time.Second) {
				c.Fail("C16", "late", "%s, emitted at t=%v, was sent at t=%v", first, time.Duration(first.T1-born), time.Duration(cl.Start-born))
			}
		}
	}
	total := map[string]int64{}
	for _, r := range w.recs {
		for _, it := range w.items(r) {
			if owner[it.key] < 0 {
				total[it.key]++
			}
		}
	}
	for _, k := range keysOf(total, shared) {
		if !exempt[k] && total[k] != shared[k] {
			c.Fail(prop, "wrong-count", "metric %q was emitted %d times and sent %d times", short(k), total[k], shared[k])
			return
		}
	}
	for _, id := range sortedActs(w.acts) {
		for _, r := range w.acts[id].recs[next[id]:] {
			for _, it := range w.items(r) {
				if owner[it.key] >= 0 && !exempt[it.key] {
					c.Fail(prop, "never-sent", "%s was never sent", r)
					return
				}
			}
		}
	}
}

func sortedActs(m map[int]*Actor) []int {
	var r []int
	for a := range m {
		r = append(r, a)
	}
	sort.Ints(r)
	return r
}

func (x *lbAgg) diff(g *lbGauge) string {
	if x.units != "" && g.Attributes.Units != x.units {
		return fmt.Sprintf("units %q, want %q", g.Attributes.Units, x.units)
	}
	if x.count {
		if g.Value == nil || *g.Value != x.n {
			return fmt.Sprintf("count %d, want %d", g.weight(), x.n)
		}
		return ""
	}
	near := func(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-9*scale+1e-300 }
	switch {
	case g.Value != nil || g.Count != x.n:
		return fmt.Sprintf("count %d, want %d", g.weight(), x.n)
	case !near(g.Sum, x.sum, x.abs):
		return fmt.Sprintf("sum %v, want %v", g.Sum, x.sum)
	case !near(g.SumSquares, x.sq, x.sq):
		return fmt.Sprintf("sum of squares %v, want %v", g.SumSquares, x.sq)
	case !kit.Eq(g.Min, x.min) || !kit.Eq(g.Max, x.max):
		return fmt.Sprintf("min and max %v and %v, want %v and %v", g.Min, g.Max, x.min, x.max)
	}
	return ""
}

func init() {
	suite.Add(&kit.Scenario{Name: "librato", Gen: genLibrato, Run: runLibrato})
	suite.Props["C16"] = &kit.PropSpec{Scenarios: []string{"librato"}, Quick: 1000000}
	suite.Props["C17"] = &kit.PropSpec{Scenarios: []string{"librato"}, Quick: 1000000}
}
