// Package simsync replaces package sync.
package simsync

import (
	"sync"

	"vsim/rt"
)

type Locker = sync.Locker

type waitq struct{ q []*rt.Task }

func (w *waitq) wait(why string) {
	w.q = append(w.q, rt.S.Cur())
	rt.Park(why)
}
func (w *waitq) wakeAll() {
	for _, t := range w.q {
		rt.S.Ready(t)
	}
	w.q = nil
}
func off() bool { return rt.S == nil || rt.S.Aborting() || rt.S.Cur() == nil }

type Mutex struct {
	locked bool
	w      waitq
}

func (m *Mutex) Lock() {
	if off() {
		return
	}
	rt.Y()
	for m.locked {
		m.w.wait("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if off() {
		return true
	}
	rt.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if off() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.w.wakeAll()
	rt.Y()
}

type RWMutex struct {
	w     bool
	r     int
	wantW int
	q     waitq
}

func (m *RWMutex) Lock() {
	if off() {
		return
	}
	rt.Y()
	m.wantW++
	for m.w || m.r > 0 {
		m.q.wait("rwmutex")
	}
	m.wantW--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if off() {
		return true
	}
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if off() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wakeAll()
	rt.Y()
}
func (m *RWMutex) RLock() {
	if off() {
		return
	}
	rt.Y()
	for m.w || m.wantW > 0 {
		m.q.wait("rwmutex read")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if off() {
		return true
	}
	if m.w || m.wantW > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if off() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.q.wakeAll()
	}
	rt.Y()
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	q waitq
}

func (w *WaitGroup) Add(d int) {
	if off() {
		return
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if off() {
		return
	}
	rt.Y()
	for w.n > 0 {
		w.q.wait("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type condW struct {
	t     *rt.Task
	fired bool
}

type Cond struct {
	L Locker
	q []*condW
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if off() {
		rt.Park("cond")
		return
	}
	w := &condW{t: rt.S.Cur()}
	c.q = append(c.q, w)
	c.L.Unlock()
	for !w.fired {
		rt.Park("cond")
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if off() {
		return
	}
	for len(c.q) > 0 {
		w := c.q[0]
		c.q = c.q[1:]
		if w.t.Done() || w.t.Node.Down {
			continue
		}
		w.fired = true
		rt.S.Ready(w.t)
		return
	}
}
func (c *Cond) Broadcast() {
	if off() {
		return
	}
	for _, w := range c.q {
		w.fired = true
		rt.S.Ready(w.t)
	}
	c.q = nil
}

// Pool hands back what was put most recently, so that anything that still
// holds a reference to a pooled value meets its next user.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	rt.Y()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.items = append(p.items, x)
	rt.Y()
}

// Map is sync.Map with a deterministic Range.
type Map struct{ m map[any]any }

func (m *Map) init() {
	rt.Y()
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) { m.init(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.init(); m.m[k] = v }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.init()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.init()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.init(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.init()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.init()
	if c, ok := m.m[k]; ok && c == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.init()
	if c, ok := m.m[k]; ok && c == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.init()
	for k, v := range rt.MapIter(m.m) {
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m = nil }
