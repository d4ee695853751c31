package rt

import "unsafe"

// Maps of the code under test: an access by one goroutine that overlaps a write
// by another is what the Go runtime aborts the process for ("concurrent map
// writes"), so it is reported as the crash that it is.
type mapState struct {
	writer  *Task
	readers []*Task
	keep    any
}

func (s *Sim) mapOp(p unsafe.Pointer, keep any, write bool) func() {
	st := s.maps[p]
	if st == nil {
		st = &mapState{keep: keep}
		s.maps[p] = st
	}
	me := s.cur
	alive := func(t *Task) bool { return t != nil && t != me && !t.done && !t.Node.Down }
	if alive(st.writer) {
		s.mapCrash(write)
	}
	if write {
		for _, r := range st.readers {
			if alive(r) {
				s.mapCrash(false)
			}
		}
		old := st.writer
		st.writer = me
		Y()
		return func() {
			st.writer = old
			if old == nil && len(st.readers) == 0 {
				delete(s.maps, p)
			}
		}
	}
	st.readers = append(st.readers, me)
	Y()
	return func() {
		for i, r := range st.readers {
			if r == me {
				st.readers = append(st.readers[:i], st.readers[i+1:]...)
				break
			}
		}
		if st.writer == nil && len(st.readers) == 0 {
			delete(s.maps, p)
		}
	}
}

func (s *Sim) mapCrash(write bool) {
	k := "concurrent map read and map write"
	if write {
		k = "concurrent map writes"
	}
	s.Fail("crash", "fatal error: %s (in %s)", k, s.cur.Name)
}

func nop() {}

func mapEnter[M ~map[K]V, K comparable, V any](m M, write bool) func() {
	s := S
	if s == nil || s.aborting || s.cur == nil || m == nil || s.cfg.Quantum == 0 {
		return nop
	}
	return s.mapOp(*(*unsafe.Pointer)(unsafe.Pointer(&m)), m, write)
}

// MapGet is m[k] in an expression.
func MapGet[M ~map[K]V, K comparable, V any](m M, k K) V {
	done := mapEnter[M, K, V](m, false)
	v := m[k]
	done()
	return v
}

// MapGet2 is v, ok := m[k].
func MapGet2[M ~map[K]V, K comparable, V any](m M, k K) (V, bool) {
	done := mapEnter[M, K, V](m, false)
	v, ok := m[k]
	done()
	return v, ok
}

// MapSet is m[k] = v, written MapSet(m)(k, v).
func MapSet[M ~map[K]V, K comparable, V any](m M) func(k K, v V) {
	return func(k K, v V) {
		done := mapEnter[M, K, V](m, true)
		noteKey[M, K, V](m, k)
		m[k] = v
		done()
	}
}

// noteKey remembers when a key was put into its map, if keys of its type can
// print alike (times in zones of their own, pointers): iteration needs an order
// that is the same in every run.
func noteKey[M ~map[K]V, K comparable, V any](m M, k K) {
	switch any(k).(type) {
	case string, int, int64, int32, uint64, uint32, bool:
		return
	}
	s := S
	if s == nil || m == nil {
		return
	}
	p := *(*unsafe.Pointer)(unsafe.Pointer(&m))
	o := s.keyOrd[p]
	if o == nil {
		o = &keyOrd{keep: m, at: map[any]int{}}
		s.keyOrd[p] = o
	}
	if _, ok := o.at[k]; !ok {
		o.n++
		o.at[k] = o.n
	}
}

type keyOrd struct {
	keep any
	at   map[any]int
	n    int
}

func ordOf[M ~map[K]V, K comparable, V any](m M) map[any]int {
	if s := S; s != nil {
		if o := s.keyOrd[*(*unsafe.Pointer)(unsafe.Pointer(&m))]; o != nil {
			return o.at
		}
	}
	return nil
}

// MapDelete is delete(m, k).
func MapDelete[M ~map[K]V, K comparable, V any](m M, k K) {
	done := mapEnter[M, K, V](m, true)
	delete(m, k)
	done()
}

// MapNext marks one step of an iteration as a read.
func mapNext[M ~map[K]V, K comparable, V any](m M) {
	mapEnter[M, K, V](m, false)()
}
