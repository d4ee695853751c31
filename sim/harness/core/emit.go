// Command core is the harness for the library packages: the stream, its sinks,
// the aggregation types and the runtime metrics reporter.
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/gocraft/health"

	"vsim/harness/kit"
	"vsim/rt"
	"vsim/simtime"
)

// names the workload draws jobs and events from
var plainNames = []string{"foo", "foo.bar", "x", "users/get", "api.call_2", "MixedCase9", "a-b"}
var oddNames = []string{"a b", "x%d%s", "100%", "%", "%!s(MISSING)", "h\u00e9llo", "\u65e5\u672c", `q"uote`, `back\slash`, "new\nline", "tab\t", "<b>&amp;</b>", "a:b|c@0.1", "..", ".", "\u2028sep", "-neg", "emoji\U0001F600", "{\"json\":1}", "a,b=c", "#tag", "null", "success", "error", "count", "AZ@[az`{09/:;_^", "\x7f", "\u0000nul", "general", " ", " lead", "trail ", "  ", "trail.", "-"}
var badNames = []string{"\xff\xfe", "ok\xc3", "\x80abc"}

const hexTag = "\u0001hex:"

// enc makes a name safe for the JSON of a replay file; dec undoes it.
func enc(s string) string {
	if strings.ToValidUTF8(s, "") != s {
		return hexTag + hex.EncodeToString([]byte(s))
	}
	return s
}
func dec(s string) string {
	if strings.HasPrefix(s, hexTag) {
		b, _ := hex.DecodeString(s[len(hexTag):])
		return string(b)
	}
	return s
}

type nameOpts struct {
	odd  int // percent
	bad  int // percent invalid UTF-8
	long int // percent long names
}

func genName(r *kit.Rng, o nameOpts) string {
	switch {
	case r.P(o.bad):
		return enc(kit.PickOf(r, badNames))
	case r.P(o.long):
		return strings.Repeat(kit.Pick(r, "long.", "\u00e9x", "L", "a b"), r.In(20, 800))
	case r.P(o.odd):
		return kit.PickOf(r, oddNames)
	case r.P(3):
		return ""
	}
	return kit.PickOf(r, plainNames)
}

// Rec is one emission the workload made, and what every sink must see of it.
type Rec struct {
	Actor    int
	Seq      int // position among the actor's emissions
	Kind     string
	Job      string
	Event    string
	Nanos    int64 // exact, if NLo==NHi
	NLo, NHi int64
	Value    float64
	Status   health.CompletionStatus
	Err      error // as given to the library
	ErrMsg   string
	Muted    bool
	Fresh    bool // an error no sink has seen before
	Kvs      map[string]string
	HasStack bool // kvs carry a "stack" entry with unspecified content
	T0, T1   int64
	W0       int64 // wall clock when the call began
	W1       int64
	Done     bool
	Site     string   // function the error was emitted from
	Stack    []string // the functions on its stack from Site outwards, if known
	Direct   bool     // given straight to the sinks
}

func (r *Rec) String() string {
	s := fmt.Sprintf("%s job=%q event=%q", r.Kind, short(r.Job), short(r.Event))
	switch r.Kind {
	case "timing":
		s += fmt.Sprintf(" nanos=%d", r.Nanos)
	case "gauge":
		s += fmt.Sprintf(" value=%v", r.Value)
	case "complete":
		s += fmt.Sprintf(" status=%d nanos in [%d,%d]", r.Status, r.NLo, r.NHi)
	case "err":
		s += fmt.Sprintf(" err=%q muted=%v", short(r.ErrMsg), r.Muted)
	}
	return fmt.Sprintf("actor %d emission %d: %s kvs=%s", r.Actor, r.Seq, s, kit.Short(r.Kvs))
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

type jobModel struct {
	name     string
	kvs      map[string]string
	startLo  int64
	startHi  int64
	general  bool
	complete int
}

// Actor is one goroutine of the instrumented application.
type Actor struct {
	ID      int
	w       *World
	nothing []int
	job     *health.Job
	jm      *jobModel
	errs    []*sentErr
	same    error // an error the application uses again and again
	recs    []*Rec
	scratch map[string]string
	cur     *Rec
	depth   int
}

type sentErr struct {
	ret    error
	msg    string
	muted  bool
	marked bool // returned by an emitting call, so known to have been emitted
}

// World is an instrumented application.
type World struct {
	c     *kit.Ctx
	node  *rt.Node
	st    *health.Stream
	gen   *jobModel
	skvs  map[string]string
	sinks []health.Sink // for direct emissions
	recs  []*Rec
	acts  map[int]*Actor
	After func(a *Actor, from int)
	Limit time.Duration // an emission must return within this, if set
	Late  func(a *Actor, d int64)
	Uniq  int
}

func newWorld(c *kit.Ctx, node *rt.Node) *World {
	w := &World{c: c, node: node, acts: map[int]*Actor{}}
	t := c.S.Now()
	w.st = health.NewStream()
	w.gen = &jobModel{name: "general", startLo: t, startHi: c.S.Now(), general: true}
	return w
}

func (w *World) add(s health.Sink) {
	w.st.AddSink(s)
	w.sinks = append(w.sinks, s)
}

func (w *World) streamKv(k, v string) {
	w.st.KeyValue(k, v)
	if w.skvs == nil {
		w.skvs = map[string]string{}
	}
	w.skvs[k] = v
}

func (w *World) actor(id int) *Actor {
	a := w.acts[id]
	if a == nil {
		a = &Actor{ID: id, w: w}
		w.acts[id] = a
	}
	return a
}

// rawTag marks a name that is used as it is, and so may be empty and is shared
// by all actors; all others end in the actor's number.
const rawTag = "\x01="

func sfx(s string, a int) string {
	if strings.HasPrefix(s, rawTag) {
		return dec(s[len(rawTag):])
	}
	return dec(s) + fmt.Sprintf("~%d", a)
}

// actorOf finds the actor in a name made by sfx.
func actorOf(s string) int {
	i := strings.LastIndexByte(s, '~')
	if i < 0 {
		return -1
	}
	n := 0
	if i+1 == len(s) {
		return -1
	}
	for _, ch := range s[i+1:] {
		if ch < '0' || ch > '9' {
			return -1
		}
		n = n*10 + int(ch-'0')
	}
	return n
}

func union(ms ...map[string]string) map[string]string {
	r := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

func eqKvs(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func wall(w *World) int64 { return simtime.WallOf(w.node, w.c.S.Now()) }

func (a *Actor) rec(kind string, jm *jobModel, ev string, kv map[string]string) *Rec {
	w := a.w
	r := &Rec{Actor: a.ID, Seq: len(a.recs), Kind: kind, Job: jm.name, Event: ev, Kvs: union(w.skvs, jm.kvs, kv), T0: w.c.S.Now(), W0: wall(w)}
	a.recs = append(a.recs, r)
	w.recs = append(w.recs, r)
	return r
}

func (a *Actor) done(r *Rec) {
	r.T1 = a.w.c.S.Now()
	r.W1 = wall(a.w)
	r.Done = true
	a.w.c.S.Count("emissions", 1)
}

type custom struct{ A int }

func floatOf(op *kit.Op) float64 {
	switch op.M & 7 {
	case 1:
		return math.NaN()
	case 2:
		return math.Inf(1)
	case 3:
		return math.Inf(-1)
	}
	return op.F
}

var statuses = []health.CompletionStatus{health.Success, health.ValidationError, health.Panic, health.Error, health.Junk}

// Do performs one operation; false if it is not an emission op.
func (a *Actor) Do(op *kit.Op) bool {
	w := a.w
	s := w.c.S
	from := len(a.recs)
	t0 := s.Now()
	job, jm := a.job, a.jm
	if job == nil || op.T == "g" {
		job, jm = w.st.Job, w.gen
	}
	var kv map[string]string
	if op.Kv != nil {
		kv = op.Kv
		if op.M&8 != 0 { // the caller reuses one map for every call
			if a.scratch == nil {
				a.scratch = map[string]string{}
			}
			for k := range a.scratch {
				delete(a.scratch, k)
			}
			for k, v := range op.Kv {
				a.scratch[k] = v
			}
			kv = a.scratch
		} else {
			kv = union(op.Kv)
		}
	}
	kv0 := union(kv)
	ev := sfx(op.S, a.ID)
	switch op.K {
	case "job":
		lo := s.Now()
		a.job = w.st.NewJob(ev)
		a.jm = &jobModel{name: ev, startLo: lo, startHi: s.Now()}
		return true
	case "jkv":
		if jm.general {
			return true
		}
		job.KeyValue(dec(op.S), dec(op.T))
		if jm.kvs == nil {
			jm.kvs = map[string]string{}
		}
		jm.kvs[dec(op.S)] = dec(op.T)
		return true
	case "sl":
		if op.T == "b" { // until the next beat
			s.Sleep(op.N - s.Now()%op.N)
			return true
		}
		if op.T == "w" { // until an interval of length N begins, or a nanosecond before or after
			s.Sleep(slot(wall(w), time.Duration(op.N)) + op.N - wall(w) + op.M)
			return true
		}
		s.Sleep(op.N)
		return true
	case "yield":
		rt.Yield()
		return true
	case "bu": // N operations of kind T at once, with the same name or a new one each
		n := op.N
		if len(jm.name) > 100 || w.c.P("look") == 1 && op.M&1 != 0 {
			n = min(n, 60) // what each costs grows
		}
		for i := int64(0); i < n; i++ {
			sub := kit.Op{A: op.A, K: op.T, S: op.S, N: (op.M + i) % 997 * 1_000_003, F: float64(op.M + i)}
			if op.M&1 != 0 {
				sub.S = fmt.Sprintf("%s%d", op.S, i)
			}
			switch op.T {
			case "er":
				sub.N = 0
			case "dc":
				sub.M = (op.M + i) % 5 * 16
			case "jkv":
				sub.T = fmt.Sprintf("v%d", i)
			}
			a.Do(&sub)
		}
		return true
	case "ev":
		r := a.rec("event", jm, ev, kv)
		if kv == nil {
			job.Event(ev)
		} else {
			job.EventKv(ev, kv)
		}
		a.done(r)
	case "ti":
		r := a.rec("timing", jm, ev, kv)
		r.Nanos = op.N
		if kv == nil {
			job.Timing(ev, op.N)
		} else {
			job.TimingKv(ev, op.N, kv)
		}
		a.done(r)
	case "ga":
		r := a.rec("gauge", jm, ev, kv)
		r.Value = floatOf(op)
		if kv == nil {
			job.Gauge(ev, r.Value)
		} else {
			job.GaugeKv(ev, r.Value, kv)
		}
		a.done(r)
	case "er", "mu", "re":
		if d := op.M >> 8; d > 0 {
			a.deep(d, func() { a.emitErr(op, job, jm, ev, kv) })
			break
		}
		a.emitErr(op, job, jm, ev, kv)
	case "co":
		if jm.general {
			// the general job's name does not tell whose completion it is
			kv = union(kv, map[string]string{"actor": fmt.Sprintf("~%d", a.ID)})
			kv0 = union(kv)
		}
		r := a.rec("complete", jm, "", kv)
		r.Status = statuses[int(op.N)%len(statuses)]
		r.NLo = s.Now() - jm.startHi
		if kv == nil {
			job.Complete(r.Status)
		} else {
			job.CompleteKv(r.Status, kv)
		}
		r.NHi = s.Now() - jm.startLo
		r.Nanos = r.NLo
		a.done(r)
	case "dc": // straight to the sinks, with a chosen duration
		r := a.rec("complete", &jobModel{name: ev}, "", kv)
		r.Kvs = kv0
		r.Direct = true
		r.Status = statuses[int(op.M/16)%len(statuses)]
		r.Nanos, r.NLo, r.NHi = op.N, op.N, op.N
		for _, sk := range w.sinks {
			sk.EmitComplete(ev, r.Status, op.N, kv)
		}
		a.done(r)
	case "run":
		a.run(op, job, jm, ev)
	default:
		return false
	}
	if kv != nil && !eqKvs(kv, kv0) {
		w.c.Fail("C01", "caller-map-modified", "the map passed by the caller of %s was changed from %v to %v", op.K, kv0, kv)
	}
	if w.After != nil && len(a.recs) > from && a.depth == 0 {
		w.After(a, from)
	}
	if w.Late != nil {
		w.Late(a, s.Now()-t0)
	}
	return true
}

func (a *Actor) errFor(op *kit.Op) error {
	w := a.w
	if op.N%6 == 5 {
		if a.same == nil {
			a.same = fmt.Errorf("err %d", a.ID)
		}
		return a.same
	}
	w.Uniq++
	msg := fmt.Sprintf("err %d.%d %s", a.ID, w.Uniq, dec(op.S))
	if op.N%6 == 4 {
		msg = fmt.Sprintf("equal err %d", a.ID)
	}
	if op.N == 2 && a.ID == 1 { // only one actor: reports are told apart by actor
		return errors.New("")
	}
	if op.N > 5 && len(a.errs) > 0 { // an error about one that was emitted before is another
		last := a.errs[len(a.errs)-1].ret
		switch op.N {
		case 6:
			return fmt.Errorf("%s: %w", msg, last)
		case 7:
			return errors.Join(errors.New(msg), last)
		case 8:
			return fmt.Errorf("%s: %w", msg, health.Mute(last))
		}
	}
	switch op.N % 6 {
	case 1, 4:
		return fmt.Errorf("wrapped: %w", errors.New(msg))
	case 3:
		return listErr{msg}
	}
	return errors.New(msg)
}

//go:noinline
func (a *Actor) emitErr(op *kit.Op, job *health.Job, jm *jobModel, ev string, kv map[string]string) {
	r := a.rec("err", jm, ev, kv)
	var err error
	none := op.K != "re" && op.N == 2 && a.ID == 1 && a.w.Uniq%3 == 1 // no error at all
	switch op.K {
	case "er":
		err = a.errFor(op)
		if none {
			err = nil
		}
		r.Fresh = true
	case "mu":
		if op.N == 3 && len(a.errs) > 0 {
			err = health.Mute(a.errs[len(a.errs)-1].ret) // muted now
		} else {
			err = health.Mute(a.errFor(op))
			if none {
				err = health.Mute(nil)
			}
		}
		r.Muted = true
	case "re":
		if len(a.errs) == 0 {
			err = a.errFor(op)
			r.Fresh = true
		} else {
			e := a.errs[len(a.errs)-1-int(op.N)%6%len(a.errs)]
			err = e.ret
			r.Muted = e.muted
		}
	}
	r.Err = err
	if none {
		a.w.c.S.Count("nil error", 1)
		r.ErrMsg = "<nil>"
	} else {
		r.ErrMsg = err.Error()
	}
	r.Site = "emitErr"
	if r.Fresh && a.w.c.Prop == "C03" {
		pcs := make([]uintptr, 200)
		for _, pc := range pcs[:runtime.Callers(1, pcs)] {
			r.Stack = append(r.Stack, runtime.FuncForPC(pc).Name())
		}
	}
	var ret error
	if kv == nil {
		ret = job.EventErr(ev, err)
	} else {
		ret = job.EventErrKv(ev, err, kv)
	}
	a.done(r)
	if ret == nil || ret.Error() != r.ErrMsg {
		a.w.c.Fail("C01", "returned-error", "emitting error %q returned %v", r.ErrMsg, ret)
		ret = err
	}
	if op.K != "re" {
		a.errs = append(a.errs, &sentErr{ret: ret, msg: r.ErrMsg, muted: r.Muted})
	}
}

func sameErr(a, b error) bool {
	if _, ok := b.(listErr); ok {
		return reflect.DeepEqual(a, b)
	}
	if _, ok := a.(listErr); ok {
		return false
	}
	return a == b
}

// run calls Run on the stream or on the current job.
func (a *Actor) run(op *kit.Op, job *health.Job, jm *jobModel, ev string) {
	w := a.w
	s := w.c.S
	calls := 0
	var want error
	var wantMsg string
	panics := false
	exits := op.M%11 == 5 && op.F == 0 // the function ends its goroutine, as FailNow of a test does
	jobModelOf := jm
	if op.T == "j" && !jm.general || op.T == "g" && jm.general {
		// on the current job
	} else {
		jobModelOf = &jobModel{name: ev, startLo: s.Now(), startHi: -1}
	}
	var rp, rc *Rec
	nested := 0
	f := func() error {
		calls++
		if calls > 1 {
			return nil
		}
		if jobModelOf.startHi < 0 {
			jobModelOf.startHi = s.Now()
		}
		if op.M > 16 {
			s.Sleep(op.M)
		}
		if op.F == 1 && a.depth < 2 { // a nested emission
			nested++
			a.depth++
			a.Do(&kit.Op{A: op.A, K: "ev", S: "inside"})
			a.depth--
		} else if op.F == 2 && a.depth < 2 { // a job inside
			a.depth++
			a.Do(&kit.Op{A: op.A, K: "run", S: "inside", N: op.N/2 + 5, T: "n"})
			a.depth--
		}
		kind := int(op.N % 12)
		if exits {
			kind = 12
		}
		mk := func(k string, st health.CompletionStatus) {
			if k == "panic" {
				rp = a.rec("err", jobModelOf, "panic", nil)
				rp.HasStack = true
				rp.ErrMsg = wantMsg
				rp.Fresh = true
				rp.Site = "run.func"
			}
			rc = a.rec("complete", jobModelOf, "", nil)
			rc.Status = st
			rc.NLo = s.Now() - jobModelOf.startHi
		}
		switch kind {
		case 0, 1:
			mk("", health.Success)
			return nil
		case 2:
			want = a.errFor(op)
			if op.M%3 == 1 {
				want = listErr{"invalid", want.Error()}
			}
		case 3:
			want = health.Mute(a.errFor(op))
		case 4:
			if len(a.errs) > 0 {
				want = a.errs[len(a.errs)-1].ret
			} else {
				want = custErr{7}
			}
		case 5:
			w.Uniq++
			panics = true
			wantMsg = fmt.Sprintf("boom %d.%d %s", a.ID, w.Uniq, dec(op.S))
			if op.M%2 == 1 {
				wantMsg = fmt.Sprintf("boom %d", a.ID)
			}
			if op.M%7 == 3 && a.ID == 1 {
				wantMsg = ""
			}
			mk("panic", health.Panic)
			panic(wantMsg)
		case 6:
			panics = true
			e := a.errFor(op)
			if op.M%5 == 2 && a.ID == 1 {
				e = errors.New("")
			}
			wantMsg = fmt.Sprint(e)
			mk("panic", health.Panic)
			panic(e)
		case 7:
			panics = true
			w.Uniq++
			wantMsg = fmt.Sprint(custom{w.Uniq*100 + a.ID})
			mk("panic", health.Panic)
			panic(custom{w.Uniq*100 + a.ID})
		case 8:
			panics = true
			w.Uniq++
			wantMsg = fmt.Sprintf("runtime error: index out of range [%d] with length %d", w.Uniq*100+a.ID, len(a.nothing))
			mk("panic", health.Panic)
			a.ID += a.nothing[w.Uniq*100+a.ID]
		case 9:
			panics = true
			w.Uniq++
			wantMsg = fmt.Sprint(w.Uniq*100 + a.ID)
			mk("panic", health.Panic)
			panic(w.Uniq*100 + a.ID)
		case 10:
			panics = true
			e := health.Mute(a.errFor(op))
			wantMsg = e.Error()
			mk("panic", health.Panic)
			panic(e)
		case 11: // panics while it is panicking
			panics = true
			w.Uniq++
			wantMsg = fmt.Sprintf("second boom %d.%d", a.ID, w.Uniq)
			mk("panic", health.Panic)
			defer panic(wantMsg)
			panic("first")
		case 12:
			mk("", health.Error)
			runtime.Goexit()
		}
		mk("", health.Error)
		return want
	}
	var got error
	escaped := func() (esc bool) {
		defer func() {
			if s.Aborting() {
				return
			}
			if e := recover(); e != nil {
				esc = true
				w.c.Fail("C02", "panic-escaped", "a panic in the job function escaped from Run: %v", e)
			}
		}()
		call := func() {
			if jobModelOf == jm {
				got = job.Run(f)
			} else {
				got = w.st.Run(ev, f)
			}
		}
		if exits {
			w.c.S.Count("goexit", 1)
			me, ended := s.Cur(), false
			s.GoOn(w.node, me.Name+"/exits", func() {
				defer func() {
					if !s.Aborting() {
						ended = true
						s.Ready(me)
					}
				}()
				call()
				want = errExits // Run returned, which it must not
			})
			for !ended {
				rt.Park("exits")
			}
		} else {
			call()
		}
		return false
	}()
	if escaped {
		s.Finish()
		return
	}
	if calls != 1 {
		w.c.Fail("C02", "job-not-called-once", "Run called the job function %d times", calls)
	}
	if rc == nil {
		s.Finish()
		return
	}
	if rp != nil {
		a.done(rp)
	}
	rc.NHi = s.Now() - jobModelOf.startLo
	rc.Nanos = rc.NLo
	a.done(rc)
	if panics {
		if got == nil {
			w.c.Fail("C02", "panic-swallowed", "the job function panicked with %q and Run returned nil", wantMsg)
		} else if got.Error() != wantMsg {
			w.c.Fail("C02", "panic-error", "the job function panicked with %q and Run returned %q", wantMsg, got.Error())
		}
	} else if exits && want != nil {
		w.c.Fail("C02", "exit-swallowed", "the job function ended its goroutine and Run returned all the same")
	} else if !sameErr(got, want) {
		w.c.Fail("C02", "error-changed", "the job function returned %#v and Run returned %#v", want, got)
	}
	w.c.Check()
}

// deep calls f from d calls further down the stack.
//
//go:noinline
func (a *Actor) deep(d int64, f func()) {
	if d == 0 {
		f()
		return
	}
	a.deep(d-1, f)
}

var errExits = errors.New("returned")

// listErr is an error of a type that == and map keys panic on.
type listErr []string

func (e listErr) Error() string { return strings.Join(e, ", ") }

type custErr struct{ n int }

func (e custErr) Error() string { return fmt.Sprintf("custom %d", e.n) }

// ---- workload generation ----

type mix struct {
	nm      nameOpts
	ev, er  int
	ti, ga  int
	co, run int
	dc      int
	job     int
	jkv     int
	sl      int
	re, mu  int
	kv      int // percent of emissions with key/values
	share   int // percent of those that reuse the caller's map
	slMax   time.Duration
	slMin   time.Duration
	weird   bool // non-finite gauges
	special []string
	g       int   // percent on the stream's own job
	bound   int64 // sleeps are sometimes until a multiple of this on the wall clock
	beat    int64 // sleeps are mostly multiples of this
	raw     int   // percent of names shared by all actors
	rawGa   bool
	grun    bool    // Run on the stream's own job, too
	names   int     // size of the name pool of the run (0: unlimited)
	nanos   []int64 // durations and values are mostly from these, if set
	gauges  []float64
	many    int // names are numbered up to this
	deep    bool
	burst   int // percent of plans in which one actor does something hundreds of times
}

func defMix() mix {
	return mix{nm: nameOpts{odd: 30}, ev: 10, er: 5, ti: 6, ga: 5, co: 4, run: 3, job: 4, jkv: 3, sl: 4, re: 2, mu: 2, kv: 40, share: 30, slMin: time.Millisecond, slMax: 3 * time.Second, g: 15, names: 6}
}

func genKv(r *kit.Rng, o nameOpts) map[string]string {
	m := map[string]string{}
	n := r.In(0, 4)
	if r.P(3) {
		n = r.In(10, 50)
	}
	for ; n > 0; n-- {
		k := kit.Pick(r, "k1", "k2", "k3", "request", "formdata", "user id", "stack", "k\u00e9")
		if n > 4 {
			k = fmt.Sprintf("k%d", n)
		}
		v := genName(r, nameOpts{odd: o.odd, bad: o.bad})
		if strings.HasPrefix(v, hexTag) {
			v = "plain"
		}
		m[k] = v
	}
	return m
}

func genNanos(r *kit.Rng) int64 {
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return kit.Pick(r, int64(1999), 2000, 2001, 1999999, 2000000, 2000001, 9999999, 10000000, 10000001, 999999, 1000000)
	case 2:
		return -int64(r.In(1, 5000000))
	case 3:
		return r.Dur(time.Hour, 24*20*time.Hour)
	}
	return r.Dur(1, time.Minute)
}

func genGauge(r *kit.Rng) float64 {
	switch r.N(10) {
	case 0:
		return 0
	case 1:
		return kit.Pick(r, 0.1, -0.1, 0.0999999, -0.09, 0.05, 1e-9, 3.14, 2.005, 0.125, 99.995)
	case 2:
		return kit.Pick(r, 1e21, 1e15, -1e12, 123456789.987654321, 1.5e300)
	case 3:
		return -r.F() * 1000
	}
	return math.Round(r.F()*1e6) / 100
}

func (m *mix) genNanos(r *kit.Rng) int64 {
	if len(m.nanos) > 0 && r.P(75) {
		return kit.PickOf(r, m.nanos)
	}
	return genNanos(r)
}

func (m *mix) genGauge(r *kit.Rng) float64 {
	if len(m.gauges) > 0 && r.P(75) {
		return kit.PickOf(r, m.gauges)
	}
	return genGauge(r)
}

// genEmit makes the next operation of an actor.
func genEmit(r *kit.Rng, a int, m *mix, pool []string) kit.Op {
	name := func() string {
		if len(pool) > 0 {
			return kit.PickOf(r, pool)
		}
		n := genName(r, m.nm)
		if m.many > 0 && len(n) < 40 && !strings.HasPrefix(n, hexTag) && r.P(80) {
			n = fmt.Sprintf("%s%d", n, r.N(m.many))
		}
		return n
	}
	op := kit.Op{A: a}
	ks := []struct {
		k string
		w int
	}{{"ev", m.ev}, {"er", m.er}, {"ti", m.ti}, {"ga", m.ga}, {"co", m.co}, {"run", m.run}, {"dc", m.dc}, {"job", m.job}, {"jkv", m.jkv}, {"sl", m.sl}, {"re", m.re}, {"mu", m.mu}}
	t := 0
	for _, k := range ks {
		t += k.w
	}
	x := r.N(t)
	for _, k := range ks {
		if x < k.w {
			op.K = k.k
			break
		}
		x -= k.w
	}
	op.S = name()
	if m.raw > 0 && r.P(m.raw) && (op.K != "ga" || m.rawGa) && op.K != "sl" && !strings.HasPrefix(op.S, hexTag) {
		op.S = rawTag + kit.Pick(r, "", "", "x", "xerror", "x.error", "error", "y.x", "y", op.S)
	}
	emission := true
	switch op.K {
	case "job":
		emission = false
	case "jkv":
		op.S = kit.Pick(r, "k1", "k2", "j1", "request")
		op.T = kit.Pick(r, "v1", "v2", "v%d", "\u00fc")
		emission = false
	case "sl":
		op.S = ""
		op.N = r.Dur(m.slMin, m.slMax)
		if m.beat > 0 && r.P(60) {
			op.N, op.T = m.beat, "b"
		}
		if m.bound > 0 && r.P(30) {
			op.N, op.T, op.M = m.bound, "w", int64(r.In(0, 2)-1)
		}
		emission = false
	case "ti":
		op.N = m.genNanos(r)
	case "ga":
		op.F = m.genGauge(r)
		if m.weird && r.P(15) {
			op.M = int64(r.In(1, 3))
			op.F = 0
		}
	case "co":
		op.N = int64(r.N(5))
	case "dc":
		op.N = m.genNanos(r)
		op.M = int64(r.N(5)) * 16
	case "run":
		op.N = int64(r.N(12))
		if r.P(60) {
			op.M = r.Dur(time.Microsecond, 5*time.Second)
		}
		if r.P(30) {
			op.F = float64(r.In(1, 2))
		}
		if r.P(30) {
			op.T = "j"
			if m.grun && r.P(30) {
				op.T = "g"
			}
		}
		emission = false
	case "er", "mu", "re":
		op.N = int64(r.N(9))
		if m.deep && r.P(6) {
			op.M |= int64(r.In(3, 70)) << 8
		}
	}
	if emission {
		if r.P(m.kv) {
			op.Kv = genKv(r, m.nm)
			if r.P(m.share) {
				op.M |= 8
			}
		}
		if r.P(m.g) {
			op.T = "g"
		}
	}
	return op
}

func genPool(r *kit.Rng, m *mix) []string {
	if r.P(40) { // the same few values again and again
		for i := r.In(1, 2); i > 0; i-- {
			m.nanos = append(m.nanos, genNanos(r))
			m.gauges = append(m.gauges, genGauge(r))
		}
	}
	if m.names == 0 {
		return nil
	}
	var p []string
	for i := 0; i < m.names; i++ {
		p = append(p, genName(r, m.nm))
	}
	return p
}

// genBurst makes an operation that is many: to exceed what some part may hold.
func genBurst(r *kit.Rng, a int, m *mix, pool []string) kit.Op {
	op := kit.Op{A: a, K: "bu", S: kit.PickOf(r, plainNames), N: int64(kit.Pick(r, 40, 150, 300, 700, 1500)), M: int64(r.N(1000))}
	ks := []string{"dc"}
	for _, k := range []struct {
		k string
		w int
	}{{"ev", m.ev}, {"er", m.er}, {"ti", m.ti}, {"ga", m.ga}} {
		if k.w > 0 {
			ks = append(ks, k.k)
		}
	}
	op.T = kit.PickOf(r, ks)
	if len(pool) > 0 && op.M&1 == 0 {
		if n := kit.PickOf(r, pool); len(n) < 40 {
			op.S = n
		}
	}
	return op
}

// genActors fills a plan with n operations for each of k actors.
func genActors(r *kit.Rng, p *kit.Plan, k, n int, m *mix) {
	if n >= 100 && r.P(40) { // thousands of different names
		m.many, m.names = 6*n, 0
	}
	pool := genPool(r, m)
	if r.P(m.burst) {
		op := genBurst(r, r.In(1, k), m, pool)
		at := r.In(0, n)
		defer func() {
			i := min(at*k, len(p.Ops))
			p.Ops = append(p.Ops[:i:i], append([]kit.Op{op}, p.Ops[i:]...)...)
		}()
	}
	for i := 0; i < n; i++ {
		for a := 1; a <= k; a++ {
			p.Ops = append(p.Ops, genEmit(r, a, m, pool))
		}
	}
}

func newPlan() *kit.Plan { return &kit.Plan{P: map[string]int{}} }

// noStallTime makes simulated time pass only when everything is blocked.
func exactTime(c *kit.Ctx) bool { return c.P("stall") == 0 }

// go1 spawns the plan's emitting actors; other ops go to h.
func (w *World) spawn(h func(a *Actor, op *kit.Op)) {
	by := w.c.Plan.ByActor()
	for _, id := range kit.Actors(by) {
		if id < 1 || id >= 90 {
			continue
		}
		a := w.actor(id)
		ops := by[id]
		w.c.Spawn(w.node, fmt.Sprintf("app%d", id), func() {
			for i := range ops {
				rt.Y()
				if !a.Do(&ops[i]) && h != nil {
					h(a, &ops[i])
				}
			}
		})
	}
}
