package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
)

// The writers scenario: applications log through a WriterSink or a
// JsonWriterSink to a writer that is slow and fails. Decides C18 and C19.

func genWriters(r *kit.Rng, prop string, big bool) *kit.Plan {
	p := newPlan()
	r.Sched(p.P, true)
	m := defMix()
	m.raw = kit.Pick(r, 0, 8)
	m.dc = 4
	m.slMax = time.Second
	m.nm.long = 2
	m.burst = 3
	k, n := r.In(1, 5), r.In(2, 14)
	if big {
		n *= 6
	}
	p.P["skv"] = r.N(2)
	p.P["fault"] = kit.Pick(r, 0, 0, 10, 50, 100)
	p.P["yield"] = kit.Pick(r, 0, 50, 100)
	p.P["sinks"] = kit.Pick(r, 1, 1, 2)
	genActors(r, p, k, n, &m)
	if r.P(30) {
		p.Ops = append(p.Ops, kit.Op{A: 70, K: "job", S: "bad"})
		for q := r.In(1, 4); q > 0; q-- {
			p.Ops = append(p.Ops, kit.Op{A: 70, K: "sl", N: r.Dur(time.Microsecond, m.slMax)}, kit.Op{A: 70, K: "ga", S: "bad", M: int64(r.In(1, 3))})
		}
	}
	return p
}

// simWriter is a log file, pipe or socket.
type simWriter struct {
	w    *wrWorld
	flt  int // percent of writes that go wrong
	seen map[string][]wrLine
	seq  []string
	n    int
	bad  string
}

type wrLine struct {
	ts  int64
	dur string
}

type wrWorld struct {
	*World
	ws   []*simWriter
	json bool
	want map[string]int // completed emissions by text
}

func (k *simWriter) Write(b []byte) (int, error) {
	s := k.w.c.S
	c := k.w.c
	before := append([]byte(nil), b...)
	k.n++
	n, err := len(b), error(nil)
	if pct := c.P("yield"); pct > 0 && s.Chance(pct, 100, rt.KFault) {
		rt.Yield()
	}
	if pct := k.flt; pct > 0 && s.Chance(pct, 100, rt.KFault) {
		switch s.Choose(5, rt.KFault) {
		case 0:
			s.Count("fault.write_error", 1)
			n, err = 0, errors.New("no space left on device")
		case 1:
			s.Count("fault.short_write", 1)
			n = s.Choose(len(b)+1, rt.KFault)
			if n < len(b) {
				err = io.ErrShortWrite
			}
		case 2:
			s.Count("fault.short_write_silent", 1)
			n = s.Choose(len(b)+1, rt.KFault)
		case 3:
			s.Count("fault.write_block", 1)
			s.Sleep(int64(1+s.Choose(3000, rt.KFault)) * 1e6)
		case 4:
			s.Count("fault.write_slow", 1)
			for i := s.Choose(20, rt.KFault); i > 0; i-- {
				rt.Yield()
			}
		}
	}
	c.Check()
	if !bytes.Equal(before, b) {
		c.Fail(c.Prop, "buffer-changed", "the bytes handed to Write changed while it ran: %q became %q", short(string(before)), short(string(b)))
	}
	var key, dur string
	var ts time.Time
	var perr error
	if k.w.json {
		key, dur, ts, perr = jsonKey(before)
	} else {
		key, dur, ts, perr = lineKey(before)
	}
	s.Event("write %q", key)
	if perr != nil {
		if k.bad == "" {
			k.bad = fmt.Sprintf("%v: %s", perr, short(string(before)))
		}
		c.Fail(c.Prop, "not-a-record", "a Write call that is not exactly one record (%v): %s", perr, kit.Short(string(before)))
		return n, err
	}
	k.seen[key] = append(k.seen[key], wrLine{ts.UnixNano(), dur})
	k.seq = append(k.seq, key)
	return n, err
}

func lineKey(b []byte) (string, string, time.Time, error) {
	t := string(b)
	i := strings.Index(t, "]: ")
	if !strings.HasPrefix(t, "[") || i < 0 {
		return "", "", time.Time{}, errors.New("no timestamp")
	}
	ts, err := time.Parse(time.RFC3339Nano, t[1:i])
	if err != nil {
		return "", "", ts, err
	}
	if !strings.HasSuffix(t, "\n") {
		return "", "", ts, errors.New("no newline at the end")
	}
	if _, off := ts.Zone(); off != 0 {
		return "", "", ts, errors.New("timestamp not in UTC")
	}
	key := t[i+3 : len(t)-1]
	key = strings.TrimSuffix(key, " kvs:[]")
	if strings.Contains(key, " event:panic err:") {
		if j := strings.Index(key, " kvs:["); j > 0 && strings.Contains(key[j:], "stack:") && strings.HasSuffix(key, "]") {
			key = key[:j] + " +stack"
		}
	}
	dur := ""
	if i := strings.LastIndex(key, " status:"); i > 0 {
		if j := strings.Index(key[i:], " time:"); j > 0 {
			d := key[i+j+6:]
			end := len(d)
			if e := strings.Index(d, " kvs:["); e >= 0 {
				end = e
			}
			dur = d[:end]
			key = key[:i+j+6] + d[end:]
		}
	}
	return key, dur, ts, nil
}

func nanosText(n int64) string {
	switch {
	case n > 2000000:
		return fmt.Sprintf("%d ms", n/1000000)
	case n > 2000:
		return fmt.Sprintf("%d μs", n/1000)
	}
	return fmt.Sprintf("%d ns", n)
}

// durOK reports whether text is how a duration in [lo,hi] is written.
func durOK(text string, lo, hi int64, exact bool) bool {
	var v int64
	var unit string
	if _, err := fmt.Sscanf(text, "%d %s", &v, &unit); err != nil {
		return false
	}
	u := map[string]int64{"ns": 1, "μs": 1000, "ms": 1000000}[unit]
	if u == 0 || exact && u != 1 {
		return false
	}
	a, b := v*u, v*u+u-1
	if a < lo {
		a = lo
	}
	if b > hi {
		b = hi
	}
	return a <= b && (exact || nanosText(a) == text || nanosText(b) == text)
}

// line is the reference for one emission's text.
func line(r *Rec) string {
	t := "job:" + r.Job
	switch r.Kind {
	case "event":
		t += " event:" + r.Event
	case "err":
		t += " event:" + r.Event + " err:" + r.ErrMsg
	case "timing":
		t += " event:" + r.Event + " time:" + nanosText(r.Nanos)
	case "gauge":
		t += " event:" + r.Event + " gauge:" + fmt.Sprintf("%g", r.Value)
	case "complete":
		t += " status:" + statusNames[r.Status] + " time:"
	}
	if r.HasStack {
		return t + " +stack"
	}
	if len(r.Kvs) > 0 {
		var ks []string
		for k, v := range r.Kvs {
			ks = append(ks, k+"\x00"+v)
		}
		sort.Strings(ks)
		for i := range ks {
			ks[i] = strings.Replace(ks[i], "\x00", ":", 1)
		}
		t += " kvs:[" + strings.Join(ks, " ") + "]"
	}
	return t
}

type jsonRec struct {
	Job, Event, Status, Err, Timestamp *string
	Nanoseconds                        *int64
	Value                              *float64
	Kvs                                map[string]string
}

func jsonKey(b []byte) (string, string, time.Time, error) {
	var j jsonRec
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(&j); err != nil {
		return "", "", time.Time{}, err
	}
	if rest, _ := io.ReadAll(d.Buffered()); len(bytes.TrimSpace(rest)) > 0 {
		return "", "", time.Time{}, errors.New("more than one document")
	}
	if j.Timestamp == nil {
		return "", "", time.Time{}, errors.New("no timestamp")
	}
	ts, err := time.Parse(time.RFC3339Nano, *j.Timestamp)
	if err != nil {
		return "", "", ts, err
	}
	if _, off := ts.Zone(); off != 0 {
		return "", "", ts, errors.New("timestamp not in UTC")
	}
	dur := ""
	if j.Status != nil && j.Nanoseconds != nil {
		dur = fmt.Sprintf("%d ns", *j.Nanoseconds)
		*j.Nanoseconds = 0
	}
	return j.key(), dur, ts, nil
}

func (j *jsonRec) key() string {
	f := func(p *string) string {
		if p == nil {
			return "-"
		}
		return fmt.Sprintf("%q", *p)
	}
	t := fmt.Sprintf("job %s event %s status %s err %s", f(j.Job), f(j.Event), f(j.Status), f(j.Err))
	if j.Nanoseconds != nil {
		t += fmt.Sprintf(" nanos %d", *j.Nanoseconds)
	}
	if j.Value != nil {
		t += fmt.Sprintf(" value %v", *j.Value)
	}
	if j.Kvs["stack"] != "" && j.Event != nil && *j.Event == "panic" {
		delete(j.Kvs, "stack")
		t += " +stack"
	}
	if len(j.Kvs) > 0 {
		t += fmt.Sprintf(" kvs %q", j.Kvs)
	}
	return t
}

func (w *wrWorld) text(r *Rec) string {
	if !w.json {
		return line(r)
	}
	j := jsonRec{Job: &r.Job, Kvs: union(r.Kvs)}
	st := statusNames[r.Status]
	switch r.Kind {
	case "event":
		j.Event = &r.Event
	case "err":
		j.Event, j.Err = &r.Event, &r.ErrMsg
	case "timing":
		j.Event, j.Nanoseconds = &r.Event, &r.Nanos
	case "gauge":
		if math.IsNaN(r.Value) || math.IsInf(r.Value, 0) {
			return ""
		}
		j.Event, j.Value = &r.Event, &r.Value
	case "complete":
		j.Status, j.Nanoseconds = &st, new(int64)
	}
	if r.HasStack {
		j.Kvs["stack"] = "x"
	}
	return j.key()
}

func runWriters(c *kit.Ctx) {
	s := c.S
	node := s.Node("main")
	w := &wrWorld{World: newWorld(c, node), json: c.Prop == "C19", want: map[string]int{}}
	for i := 0; i < c.P("skv"); i++ {
		w.streamKv("k1", "stream")
	}
	for i := 0; i < c.P("sinks"); i++ {
		k := &simWriter{w: w, flt: c.P("fault"), seen: map[string][]wrLine{}}
		w.ws = append(w.ws, k)
		if w.json {
			w.add(&health.JsonWriterSink{Writer: k})
		} else {
			w.add(&health.WriterSink{Writer: k})
		}
	}
	w.watch()
	w.spawn(nil)
	c.JoinOrFail(c.Prop, 24*time.Hour)
	c.Settle()
	w.exact()
}

func (w *wrWorld) watch() {
	c := w.c
	prev := w.After
	// when a call returns, its record has been written
	w.After = func(a *Actor, from int) {
		if prev != nil {
			prev(a, from)
		}
		for _, r := range a.recs[from:] {
			key := w.text(r)
			if key == "" {
				continue
			}
			w.want[key]++
			for i, k := range w.ws {
				c.Check()
				if len(k.seen[key]) < w.want[key] {
					c.Fail(c.Prop, "not-written", "%s returned, and writer %d has not been given its record %q", r, i, kit.Short(key))
					return
				}
			}
		}
	}
}

// exact compares everything written with everything emitted.
func (w *wrWorld) exact() {
	c := w.c
	want := map[string]int{}
	owner := map[string]int{}
	byKey := map[string][]*Rec{}
	for _, r := range w.recs {
		key := w.text(r)
		if key == "" {
			continue
		}
		want[key]++
		byKey[key] = append(byKey[key], r)
		if o, ok := owner[key]; ok && o != r.Actor {
			owner[key] = -1
		} else if !ok {
			owner[key] = r.Actor
		}
	}
	for i, k := range w.ws {
		for _, key := range keysOf(want, nil) {
			c.Check()
			ls := k.seen[key]
			if len(ls) != want[key] {
				c.Fail(c.Prop, "wrong-count", "writer %d was given %q %d times for %d emissions", i, kit.Short(key), len(ls), want[key])
				return
			}
			if owner[key] < 0 {
				continue
			}
			for n, l := range ls {
				r := byKey[key][n]
				if l.ts < r.W0 || l.ts > r.W1 {
					c.Fail(c.Prop, "wrong-timestamp", "%s ran from %v to %v, and its record says %v", r, time.Unix(0, r.W0).UTC(), time.Unix(0, r.W1).UTC(), time.Unix(0, l.ts).UTC())
					return
				}
				if r.Kind == "complete" && !durOK(l.dur, r.NLo, r.NHi, w.json) {
					c.Fail(c.Prop, "wrong-duration", "%s was written with duration %q", r, l.dur)
					return
				}
			}
		}
		for _, key := range keysOf(k.seen, nil) {
			if want[key] == 0 {
				c.Fail(c.Prop, "unexpected", "writer %d was given %q, which nobody emitted", i, kit.Short(key))
				return
			}
		}
		got := map[int][]string{}
		for _, key := range k.seq {
			if o := owner[key]; o >= 0 {
				got[o] = append(got[o], key)
			}
		}
		for _, id := range sortedActs(w.acts) {
			n := 0
			for _, r := range w.acts[id].recs {
				key := w.text(r)
				if key == "" || owner[key] < 0 {
					continue
				}
				if n >= len(got[id]) || got[id][n] != key {
					c.Fail(c.Prop, "out-of-order", "writer %d: record %d of actor %d is not %q", i, n, id, kit.Short(key))
					return
				}
				n++
			}
		}
	}
}

func init() {
	suite.Add(&kit.Scenario{Name: "writers", Gen: genWriters, Run: runWriters})
	suite.Props["C18"] = &kit.PropSpec{Scenarios: []string{"writers"}, Quick: 1000000}
	suite.Props["C19"] = &kit.PropSpec{Scenarios: []string{"writers"}, Quick: 1000000}
}
