//go:build hd

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	topmain "github.com/gocraft/health/cmd/healthtop"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simhttp"
)

// healthtop on a terminal of its own, next to the fleet: C27.

func genTop(r *kit.Rng, p *kit.Plan, span time.Duration) {
	args := "hosts"
	if r.P(70) {
		args = "jobs"
		if so := kit.PickOf(r, sorts[1:13]); r.P(85) {
			args += " --sort=" + so
		}
		if r.P(30) {
			args += " --name=" + kit.Pick(r, "1", "~", "shared", "a", "nosuchjob", "Shared", "A", "e")
		}
	}
	p.Ops = append(p.Ops, kit.Op{A: 60, K: "top", S: args, N: int64(kit.Pick(r, 0, 4, 5, 6, 8, 24, 50))})
	if r.P(80) {
		genOutages(r, p, []string{"down", "flaky", "5xx", "5xxdata", "slow", "hang", "garbage", "mixed"}, 20*time.Second)
	}
	// a host that fails for good
	p.P["badhost"] = r.N(6) // > number of hosts: none
	p.P["badhow"] = r.N(4)
	p.P["badfrom"] = kit.Pick(r, 0, 0, 15, 25) // from this second on
	for i := r.In(0, 2); i > 0; i-- {
		p.Ops = append(p.Ops, kit.Op{A: 97, K: "sl", N: r.Dur(time.Millisecond, span)}, kit.Op{A: 97, K: "cuttop"},
			kit.Op{A: 97, K: "sl", N: r.Dur(time.Millisecond, 20*time.Second)}, kit.Op{A: 97, K: "mend"})
	}
}

type top struct {
	f       *fleet
	node    *rt.Node
	args    []string
	rows    int
	last    string
	lastAt  int64
	started int64
	n       int
	answers map[*simhttp.Call]*answer
}

func (f *fleet) bootTop() {
	s := f.c.S
	t := &top{f: f, node: s.Node("top"), started: s.Now(), lastAt: s.Now(), answers: map[*simhttp.Call]*answer{}}
	f.top = t
	args, lines := "hosts", 24
	for _, op := range f.c.Plan.ByActor()[60] {
		args, lines = op.S, int(op.N)
	}
	t.args = strings.Fields(args)
	t.rows = lines - 2
	if t.rows < 3 {
		t.rows = 3
	}
	t.node.Vars["ARGS"] = "--source=hd:5031 " + args
	t.node.Vars["LINES"] = fmt.Sprint(lines)
	t.node.Loc = kit.Zones[f.c.P("tz")%len(kit.Zones)]
	s.Stdout = func(n *rt.Node, b []byte) {
		if n != t.node {
			return
		}
		t.screen(string(b))
	}
	s.GoOn(t.node, "healthtop", func() {
		topmain.SimMain()
		f.c.Fail("C27", "ended", "healthtop has ended by itself")
	})
	nw := simhttp.Of(s)
	inner := nw.Policy
	nw.Policy = func(from *rt.Node, req *http.Request, target string) simhttp.Fault {
		if from == f.hdN && target == fmt.Sprintf("h%d:5020", f.c.P("badhost")) && s.Now() >= int64(f.c.P("badfrom"))*1e9 {
			return []simhttp.Fault{simhttp.Refused, simhttp.StatusData, simhttp.Status5xx, simhttp.Hang}[f.c.P("badhow")]
		}
		if inner == nil || from != t.node {
			return simhttp.None
		}
		return inner(from, req, target)
	}
}

// answer is what a response to healthtop said; ok < 0: that it failed, 0: who knows.
type answer struct {
	ok  int
	end int64
	agg *hdAgg
}

func (t *top) answer(cl *simhttp.Call) *answer {
	if a := t.answers[cl]; a != nil {
		return a
	}
	a := &answer{end: cl.Resp.EndAt}
	agg := &hdAgg{}
	switch b := cl.Resp.Data(); {
	case !json.Valid(b):
		a.ok = -1
	case cl.Fault != simhttp.Garbage && json.Unmarshal(b, agg) == nil:
		a.ok, a.agg = 1, agg
		if t.args[0] == "jobs" {
			// healthtop does this one itself
			for _, x := range t.args[1:] {
				if name, ok := strings.CutPrefix(x, "--name="); ok {
					var js []*hdJob
					for _, j := range agg.Jobs {
						if strings.Contains(j.Name, name) {
							js = append(js, j)
						}
					}
					agg.Jobs = js
				}
			}
		}
	}
	t.answers[cl] = a
	return a
}

// content checks that the screen shows what healthd told last.
func (t *top) content() {
	c, now := t.f.c, t.f.c.S.Now()
	const slack = int64(2 * time.Second)
	var as []*answer
	last := int64(-1)
	for _, cl := range simhttp.Of(c.S).Calls {
		if cl.From != t.node || cl.Err != nil || cl.Status != 200 || cl.Resp == nil || !cl.Resp.Ended || cl.Resp.Err != nil {
			continue
		}
		a := t.answer(cl)
		if a.ok < 0 {
			continue
		}
		as = append(as, a)
		if a.end <= now-slack && a.end > last {
			last = a.end
		}
	}
	if len(as) == 0 {
		if !strings.Contains(t.last, "no data") {
			c.Fail("C27", "made-up", "healthd has told nothing yet, and the screen says %q", short(t.last))
		}
		return
	}
	scr := ansi.ReplaceAllString(t.last, "")
	if strings.Contains(scr, "no data") {
		if last >= 0 {
			c.Fail("C27", "forgotten", "the screen says %q, and healthd has told what there is", short(scr))
		}
		return
	}
	rows := table(scr)
	if len(rows) == 0 || len(rows[0]) < 4 {
		c.Fail("C27", "no-table", "the screen shows no table: %q", short(scr))
		return
	}
	why := ""
	for i := len(as) - 1; i >= 0; i-- {
		if a := as[i]; a.end >= last-slack {
			if a.ok == 0 {
				return
			}
			d := t.cmp(rows[1:], a.agg)
			if d == "" {
				return
			}
			why = d
		}
	}
	c.Fail("C27", "stale-screen", "healthtop %s does not show what healthd told last: %s", strings.Join(t.args, " "), why)
}

func table(scr string) (rows [][]string) {
	lines := strings.Split(strings.TrimRight(scr, "\n"), "\n")
	for _, l := range lines[1:] {
		var row []string
		for _, x := range strings.Split(l, "  ") {
			if x = strings.TrimSpace(x); x != "" {
				row = append(row, x)
			}
		}
		if len(row) > 0 {
			rows = append(rows, row)
		}
	}
	return
}

var ansi = regexp.MustCompile("\033\\[[0-9;]*[A-Za-z]")

// screen sees every screen that is shown.
func (t *top) screen(b string) {
	c, s := t.f.c, t.f.c.S
	now := s.Now()
	if d := now - t.lastAt; d > int64(2500*time.Millisecond) {
		c.Fail("C27", "stands-still", "no new screen for %v", time.Duration(d))
	}
	t.last, t.lastAt = b, now
	t.n++
	c.Check()
	t.content()
	good, bad, unsure := t.outcome()
	if unsure > now-int64(9*time.Second) {
		return
	}
	head, _, _ := strings.Cut(t.last, "\n")
	switch {
	case good < 0 && bad < 0:
		if !strings.Contains(head, "[starting...]") && strings.Contains(head, "[success]") {
			c.Fail("C27", "wrong-status", "no request has been answered yet, and the screen says %q", head)
		}
	case bad >= 0 && good < now-int64(9*time.Second) && now > t.started+int64(9*time.Second):
		if !strings.Contains(head, "[error") {
			c.Fail("C27", "outage-not-shown", "no request of the last 9 s was answered, and the screen says %q", short(head))
		}
	case good >= 0 && bad < now-int64(9*time.Second) && good > now-int64(3*time.Second):
		if !strings.Contains(head, "[success]") {
			c.Fail("C27", "recovery-not-shown", "all requests of the last 9 s were answered, and the screen says %q", short(head))
		}
	}
}

// outcome is when a request was last answered well, and when one last failed.
func (t *top) outcome() (good, bad, unsure int64) {
	good, bad, unsure = -1, -1, -1<<62
	now := t.f.c.S.Now()
	for _, cl := range simhttp.Of(t.f.c.S).Calls {
		if cl.From != t.node {
			continue
		}
		switch {
		case cl.End == 0:
			// in progress; hangs for good if it is old
			if cl.Start < now-int64(6*time.Second) && cl.Start > bad {
				bad = now
			}
		case cl.Err != nil || cl.Status != 200:
			if cl.End > bad {
				bad = cl.End
			}
		case cl.Resp == nil || !cl.Resp.Ended:
			if cl.Start < now-int64(6*time.Second) {
				bad = now
			}
		case cl.Resp.Err != nil:
			if cl.Resp.EndAt > bad {
				bad = cl.Resp.EndAt
			}
		default:
			a := t.answer(cl)
			to := &good
			if a.ok < 0 {
				to = &bad
			} else if a.ok == 0 {
				to = &unsure
			}
			if a.end > *to {
				*to = a.end
			}
		}
	}
	return
}

// settled: faults have stopped; the screen must show what healthd reports.
func (t *top) settled() {
	c, s := t.f.c, t.f.c.S
	for i := 0; i < 4; i++ {
		path := "/healthd/jobs"
		if t.args[0] == "hosts" {
			path = "/healthd/hosts"
		}
		a := t.f.ask(path, false)
		s.Sleep(int64(2500 * time.Millisecond))
		scr, at := ansi.ReplaceAllString(t.last, ""), t.lastAt
		b := t.f.ask(path, false)
		if a == nil || b == nil {
			c.Fail("C27", "no-answer", "healthd does not answer")
			return
		}
		if s.Now()-at > int64(2500*time.Millisecond) {
			c.Fail("C27", "stands-still", "no new screen for %v", time.Duration(s.Now()-at))
			return
		}
		if fmt.Sprint(deref(a)) != fmt.Sprint(deref(b)) {
			continue
		}
		c.Check()
		lines := strings.Split(strings.TrimRight(scr, "\n"), "\n")
		if !strings.Contains(lines[0], "[success]") {
			c.Fail("C27", "recovery-not-shown", "healthd answers, and the screen says %q", short(lines[0]))
			return
		}
		rows := table(scr)
		if len(rows) == 0 || len(rows[0]) < 4 {
			c.Fail("C27", "no-table", "the screen shows no table: %q", short(scr))
			return
		}
		if d := t.cmp(rows[1:], a); d != "" {
			c.Fail("C27", "wrong-screen", "healthtop %s: %s", strings.Join(t.args, " "), d)
			return
		}
	}
}

func deref(a *hdAgg) (r []any) {
	for _, h := range a.Hosts {
		r = append(r, *h)
	}
	m := map[string]any{}
	for _, j := range a.Jobs {
		m[j.Name] = *j
	}
	for _, k := range keysOf(m, nil) {
		r = append(r, m[k])
	}
	return
}

func nanosAre(cell string, v float64) bool {
	var n float64
	num, unit, _ := strings.Cut(cell, " ")
	n, err := strconv.ParseFloat(num, 64)
	if err != nil {
		return false
	}
	u := map[string]float64{"ns": 1, "μs": 1e3, "ms": 1e6, "s": 1e9}[unit]
	return u > 0 && math.Abs(n*u-v) < u*1.001
}

func (t *top) cmp(rows [][]string, a *hdAgg) string {
	if t.args[0] == "hosts" {
		if len(rows) != len(a.Hosts) {
			return fmt.Sprintf("%d rows, and there are %d hosts", len(rows), len(a.Hosts))
		}
		for i, h := range a.Hosts {
			r := rows[i]
			want := "Success"
			if h.Check.IsZero() {
				want = "Unknown"
			} else if h.Code != 200 || h.Err != "" {
				want = "Failure: " + h.Err
			}
			if len(r) < 4 || r[0] != h.HostPort || !strings.HasPrefix(strings.Join(r[1:], "  "), strings.TrimSpace(want)) {
				return fmt.Sprintf("row %d is %q, want host %s, %s", i, r, h.HostPort, want)
			}
			if !nanosAre(r[len(r)-1], float64(h.Nanos)) {
				return fmt.Sprintf("row %d is %q, and the response time is %d ns", i, r, h.Nanos)
			}
			if r[len(r)-2] != h.Check.In(t.node.Loc).Format(time.RFC1123) && r[len(r)-2] != h.Check.Format(time.RFC1123) {
				return fmt.Sprintf("row %d is %q, and the host was checked at %v", i, r, h.Check)
			}
		}
		return ""
	}
	q := url.Values{"sort": {"name"}}
	name := ""
	for _, x := range t.args[1:] {
		k, v, _ := strings.Cut(strings.TrimPrefix(x, "--"), "=")
		if k == "sort" {
			q.Set("sort", v)
		} else if k == "name" {
			name = v
		}
	}
	jobs := map[string]*hdJob{}
	for _, j := range a.Jobs {
		if strings.Contains(j.Name, name) {
			jobs[j.Name] = j
		}
	}
	n := len(jobs)
	if name == "" && n > t.rows {
		n = t.rows
	}
	if len(rows) != n {
		return fmt.Sprintf("%d rows, want %d: %d jobs match, %d fit on the screen", len(rows), n, len(jobs), t.rows)
	}
	key := jobKey(q.Get("sort"))
	var list []*hdJob
	for i, r := range rows {
		j := jobs[r[0]]
		if j == nil {
			return fmt.Sprintf("row %d is %q, which is not a job that matches", i, r)
		}
		delete(jobs, r[0])
		list = append(list, j)
		if len(r) != 12 {
			return fmt.Sprintf("row %d is %q", i, r)
		}
		for k, v := range []int64{j.Count, j.Success, j.Valid, j.Panic, j.Error, j.Junk} {
			if r[1+k] != fmt.Sprint(v) {
				return fmt.Sprintf("row %d is %q, and the job is %+v", i, r, *j)
			}
		}
		for k, v := range []float64{j.Avg, j.StdDev, float64(j.Min), float64(j.Max), float64(j.Sum)} {
			if !nanosAre(r[7+k], v) {
				return fmt.Sprintf("row %d is %q, and the job is %+v", i, r, *j)
			}
		}
		if i > 0 {
			p := list[i-1]
			if q.Get("sort") == "name" && p.Name > j.Name || key(p) < key(j) {
				return fmt.Sprintf("rows are not sorted by %s: %q comes before %q", q.Get("sort"), p.Name, j.Name)
			}
		}
	}
	// those that do not fit are the last ones
	for _, name := range keysOf(jobs, nil) {
		if l := len(list); l > 0 && (key(jobs[name]) > key(list[l-1]) || q.Get("sort") == "name" && name < list[l-1].Name) {
			return fmt.Sprintf("job %q is not shown, and comes before %q by %s", name, list[l-1].Name, q.Get("sort"))
		}
	}
	return ""
}
