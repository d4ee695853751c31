package rt

import (
	"fmt"
	"iter"
	"sort"
	"unsafe"
)

// A channel of the code under test is kept as an identity; its contents and
// wait queues live here, so that the scheduler decides every hand-over.
type schan struct {
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	keep   any
	ops    int
}

type waiter struct {
	t   *Task
	idx int
	val any
	sel *selState
}

type selState struct {
	fired bool
}

func chptr[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// bigQueue: channels of at least this capacity are work queues whose exact size
// is a guess; a run may make them smaller (Config.QueueCap), so that they fill.
const bigQueue = 1024

func (s *Sim) schanOf(p unsafe.Pointer, cp int, keep any) *schan {
	c := s.chans[p]
	if c == nil {
		if cp >= bigQueue && s.cfg.QueueCap > 0 {
			cp = s.cfg.QueueCap
		}
		c = &schan{cap: cp, keep: keep}
		s.chans[p] = c
	}
	return c
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired || w.t.done || w.t.Node.Down {
			continue
		}
		return w
	}
	return nil
}

func hasW(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sel.fired || w.t.done || w.t.Node.Down {
			*q = (*q)[1:]
			continue
		}
		return true
	}
	return false
}

func (s *Sim) fire(w *waiter, val any, ok bool) {
	w.sel.fired = true
	w.t.selIdx = w.idx
	w.t.selVal = val
	w.t.selOk = ok
	s.makeReady(w.t)
}

func (c *schan) canSend() bool { return c.closed || len(c.buf) < c.cap || hasW(&c.recvq) }
func (c *schan) canRecv() bool { return len(c.buf) > 0 || c.closed || hasW(&c.sendq) }

// doSend assumes canSend.
func (s *Sim) doSend(c *schan, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popW(&c.recvq); w != nil {
		s.fire(w, v, true)
		return
	}
	c.buf = append(c.buf, v)
}

// doRecv assumes canRecv.
func (s *Sim) doRecv(c *schan) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf[0] = nil
		c.buf = c.buf[1:]
		if w := popW(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			s.fire(w, nil, true)
		}
		return v, true
	}
	if w := popW(&c.sendq); w != nil {
		v := w.val
		s.fire(w, nil, true)
		return v, true
	}
	return nil, false // closed
}

func unbox[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func cur() *Sim {
	s := S
	if s == nil || s.cur == nil && !s.aborting {
		panic("vsim: channel operation outside a simulated task")
	}
	return s
}

type closedSendT struct{}

var closedMark any = &closedSendT{}

// SendTo is `ch <- v`, written SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := cur()
		Y()
		if s.aborting {
			Park("send")
		}
		if ch == nil {
			Park("send on nil channel")
		}
		c := s.schanOf(chptr(ch), cap(ch), ch)
		c.ops++
		if c.canSend() {
			s.doSend(c, v)
			return
		}
		w := &waiter{t: s.cur, val: v, sel: &selState{}}
		c.sendq = append(c.sendq, w)
		me := s.cur
		Park("chan send")
		if me.selVal == closedMark {
			me.selVal = nil
			panic("send on closed channel")
		}
	}
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := cur()
	Y()
	if s.aborting {
		Park("recv")
	}
	if ch == nil {
		Park("receive on nil channel")
	}
	c := s.schanOf(chptr(ch), cap(ch), ch)
	c.ops++
	if c.canRecv() {
		v, ok := s.doRecv(c)
		return unbox[T](v), ok
	}
	w := &waiter{t: s.cur, sel: &selState{}}
	c.recvq = append(c.recvq, w)
	me := s.cur
	Park("chan receive")
	v := me.selVal
	me.selVal = nil
	return unbox[T](v), me.selOk
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Range is `for v := range ch`.
func Range[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

func Close[T any](ch chan<- T) {
	s := cur()
	Y()
	if s.aborting {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	c := s.schanOf(chptr(ch), cap(ch), ch)
	if c.closed {
		panic("close of closed channel")
	}
	s.closeChan(c)
}

func (s *Sim) closeChan(c *schan) {
	c.closed = true
	for {
		w := popW(&c.recvq)
		if w == nil {
			break
		}
		s.fire(w, nil, false)
	}
	for {
		w := popW(&c.sendq)
		if w == nil {
			break
		}
		s.fire(w, closedMark, false)
	}
}

func Len[T any](ch <-chan T) int {
	s := S
	if s == nil || ch == nil {
		return 0
	}
	return len(s.schanOf(chptr(ch), cap(ch), ch).buf)
}

func Cap[T any](ch <-chan T) int {
	s := S
	if s == nil || ch == nil {
		return cap(ch)
	}
	return s.schanOf(chptr(ch), cap(ch), ch).cap
}

// TrySendSched is a non-blocking send for timer callbacks; capacity overrides
// the real one.
func TrySendSched[T any](s *Sim, ch chan T, v T) bool {
	c := s.schanOf(chptr(ch), cap(ch), ch)
	if c.closed || !(len(c.buf) < c.cap || hasW(&c.recvq)) {
		return false
	}
	s.doSend(c, v)
	return true
}

// DrainSched empties the channel's buffer (timer Stop/Reset).
func DrainSched[T any](s *Sim, ch chan T) {
	if c := s.chans[chptr(ch)]; c != nil {
		c.buf = nil
	}
}

// CloseSched closes without yielding; no-op if closed.
func CloseSched[T any](s *Sim, ch chan T) {
	c := s.schanOf(chptr(ch), cap(ch), ch)
	if !c.closed {
		s.closeChan(c)
	}
}

// ---- select ----

type Case interface {
	prep(s *Sim)
	ready() bool
	exec(s *Sim)
	enq(s *Sim, i int, st *selState)
	wake(t *Task)
	isNil() bool
}

type RC[T any] struct {
	ch <-chan T
	c  *schan
	V  T
	Ok bool
}

func RecvCase[T any](ch <-chan T) *RC[T] { return &RC[T]{ch: ch} }
func (r *RC[T]) prep(s *Sim) {
	if r.ch != nil {
		r.c = s.schanOf(chptr(r.ch), cap(r.ch), r.ch)
	}
}
func (r *RC[T]) isNil() bool { return r.ch == nil }
func (r *RC[T]) ready() bool { return r.c != nil && r.c.canRecv() }
func (r *RC[T]) exec(s *Sim) {
	v, ok := s.doRecv(r.c)
	r.V, r.Ok = unbox[T](v), ok
}
func (r *RC[T]) enq(s *Sim, i int, st *selState) {
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, &waiter{t: s.cur, idx: i, sel: st})
	}
}
func (r *RC[T]) wake(t *Task) {
	r.V, r.Ok = unbox[T](t.selVal), t.selOk
	t.selVal = nil
}
func (r *RC[T]) Get() (T, bool) { return r.V, r.Ok }

type SC[T any] struct {
	ch chan<- T
	c  *schan
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SC[T] {
	return func(v T) *SC[T] { return &SC[T]{ch: ch, v: v} }
}
func (r *SC[T]) prep(s *Sim) {
	if r.ch != nil {
		r.c = s.schanOf(chptr(r.ch), cap(r.ch), r.ch)
	}
}
func (r *SC[T]) isNil() bool { return r.ch == nil }
func (r *SC[T]) ready() bool { return r.c != nil && r.c.canSend() }
func (r *SC[T]) exec(s *Sim) { s.doSend(r.c, r.v) }
func (r *SC[T]) enq(s *Sim, i int, st *selState) {
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, &waiter{t: s.cur, idx: i, sel: st, val: r.v})
	}
}
func (r *SC[T]) wake(t *Task) {
	if t.selVal == closedMark {
		t.selVal = nil
		panic("send on closed channel")
	}
}

// Select returns the index of the case that fired, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := cur()
	Y()
	if s.aborting {
		Park("select")
	}
	var rdyBuf [8]int
	rdy := rdyBuf[:0]
	for i, c := range cases {
		c.prep(s)
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		i := rdy[s.Choose(len(rdy), KSelect)]
		cases[i].exec(s)
		return i
	}
	if hasDefault {
		return -1
	}
	st := &selState{}
	for i, c := range cases {
		c.enq(s, i, st)
	}
	me := s.cur
	Park("select")
	i := me.selIdx
	cases[i].wake(me)
	return i
}

// Forever is `select {}`.
func Forever() { Park("select {}") }

// ---- maps ----

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		strs := make([]string, len(keys))
		for i, k := range keys {
			strs[i] = fmt.Sprintf("%v", k)
		}
		sort.Sort(&byStr[K]{keys, strs, ordOf[M, K, V](m)})
	}
	if s := S; s != nil && !s.aborting && s.cur != nil {
		// a rotation plus one swap: cheap, and any key can come first or last
		n := len(keys)
		r := s.Choose(n, KMap)
		if r > 0 {
			keys = append(append([]K{}, keys[r:]...), keys[:r]...)
			if n > 2 {
				j := 1 + s.Choose(n-1, KMap)
				keys[1], keys[j] = keys[j], keys[1]
			}
		}
	}
	return keys
}

type byStr[K any] struct {
	k []K
	s []string
	o map[any]int
}

func (b *byStr[K]) Len() int { return len(b.k) }
func (b *byStr[K]) Less(i, j int) bool {
	if b.o != nil {
		if x, y := b.o[b.k[i]], b.o[b.k[j]]; x != y {
			return x < y
		}
	}
	return b.s[i] < b.s[j]
}
func (b *byStr[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// MapIter is `for k, v := range m` in an order the simulator chooses.
func MapIter[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sortedKeys(m) {
			mapNext[M, K, V](m)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range sortedKeys(m) {
			mapNext[M, K, V](m)
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapIter(m) {
			if !yield(v) {
				return
			}
		}
	}
}
