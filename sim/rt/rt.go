// Package rt is the simulator core: a cooperative scheduler that runs every
// goroutine of the system under test (and of the workload) one at a time, a
// discrete-event clock, and the single stream of choices from which every
// interleaving, delay and fault of a run is drawn.
package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// Choice kinds; only used for statistics and for readable replay files.
const (
	KSched = iota
	KQuantum
	KSelect
	KMap
	KTimer
	KStall
	KFault
	KRand
	NKinds
)

var KindNames = [NKinds]string{"sched", "quantum", "select", "mapiter", "timer", "stall", "fault", "rand"}

// Config are the scheduling parameters of one run.
type Config struct {
	Quantum   int    // >0: mean number of statements between forced preemptions; 0: run until block
	StallPct  int    // per mille chance, at a scheduling decision, that time passes although tasks are runnable
	StallMax  int    // at most this many such stalls per run
	Sticky    int    // percent chance that the scheduler keeps running the same task when it can
	QueueCap  int    // >0: the capacity of channels made with 1024 or more
	MaxSteps  int64  // steps allowed without simulated time moving; 8 times that in all
	WallBase  int64  // unix nanoseconds of simulated time 0
	Seed      uint64 // seed of the choice stream when no trace is given
	Trace     []uint32
	UseTrace  bool
	LogEvents bool
}

type Node struct {
	Name    string
	Offset  int64 // wall clock offset against true simulated time, ns
	Loc     *time.Location
	Down    bool
	Vars    map[string]string
	Fds     int
	EpochNo int
	globals []any
}

type Task struct {
	ID     int
	Name   string
	Node   *Node
	Sys    bool // spawned by code under test
	wake   chan struct{}
	ready  bool // in run queue
	done   bool
	onStk  bool
	waitOn string
	since  int64
	// select/recv results
	selIdx int
	selVal any
	selOk  bool
	Prio   int
}

type timer struct {
	when int64
	seq  int64
	idx  int
	f    func()
	node *Node
	dog  bool // a time limit of the harness: a stall never runs into it
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	n := len(o)
	t := o[n-1]
	*h = o[:n-1]
	t.idx = -1
	return t
}

// Violation is what a run reports.
type Violation struct {
	Class string
	Msg   string
}

type Outcome struct {
	Violation  *Violation
	HarnessErr string
	Steps      int64
	Still      int64 // most steps at one instant of simulated time
	Switches   int64
	SimTime    int64
	Trace      []uint32
	SchedHash  uint64
	EventHash  uint64
	Events     []string
	Counters   map[string]int64
	Tasks      int
	Kinds      [NKinds]int64
	StepCap    bool
}

type Sim struct {
	cfg       Config
	tasks     []*Task
	runq      []*Task
	cur       *Task
	now       int64
	timers    timerHeap
	tseq      int64
	idle      []*Task
	chans     map[unsafe.Pointer]*schan
	quantum   int
	burst     int
	steps     int64
	switches  int64
	stalls    int
	rng       uint64
	trace     []uint32
	tpos      int
	kinds     [NKinds]int64
	aborting  bool
	ended     bool
	signalled bool
	doneC     chan struct{}
	exitC     chan struct{}
	viol      *Violation
	herr      string
	shash     uint64
	ehash     uint64
	events    []string
	counters  map[string]int64
	nodes     map[string]*Node
	defNode   *Node
	quiet     int
	OnCrash   []func(n *Node)
	maps      map[unsafe.Pointer]*mapState
	keyOrd    map[unsafe.Pointer]*keyOrd
	lastNode  *Node
	stepCap   bool
	stepBase  int64 // steps when simulated time last moved
	still     int64
	Procs     map[string]any
	noStall   int
	Stdout    func(n *Node, b []byte)
	Ext       map[string]any
	seqNo     int64
}

// S is the simulation in progress. There is one per process at a time.
var S *Sim

const fnvOff = 14695981039346656037
const fnvPrime = 1099511628211

func New(cfg Config) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	s := &Sim{cfg: cfg, chans: map[unsafe.Pointer]*schan{}, maps: map[unsafe.Pointer]*mapState{}, keyOrd: map[unsafe.Pointer]*keyOrd{}, rng: cfg.Seed*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03,
		doneC: make(chan struct{}, 1), exitC: make(chan struct{}, 1), shash: fnvOff, ehash: fnvOff,
		counters: map[string]int64{}, nodes: map[string]*Node{}, Ext: map[string]any{}}
	s.defNode = s.Node("main")
	return s
}

func (s *Sim) Node(name string) *Node {
	n := s.nodes[name]
	if n == nil {
		n = &Node{Name: name, Loc: time.UTC, Vars: map[string]string{}, Fds: 7}
		s.nodes[name] = n
	}
	return n
}

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose draws the next decision of the run: a number in [0,n). 0 is always the
// plainest alternative (keep running, no fault), so a minimised trace is mostly zeros.
func (s *Sim) Choose(n int, kind int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.cfg.UseTrace {
		if s.tpos < len(s.cfg.Trace) {
			v = s.cfg.Trace[s.tpos]
		}
		s.tpos++
		if int(v) >= n {
			v = uint32(int(v) % n)
		}
	} else {
		v = uint32(splitmix(&s.rng) % uint64(n))
	}
	s.kinds[kind]++
	s.trace = append(s.trace, v)
	return int(v)
}

// Chance is true with probability num/den. The recorded choice is 0 for "no".
func (s *Sim) Chance(num, den int, kind int) bool {
	if num <= 0 {
		return false
	}
	v := s.Choose(den, kind)
	return v >= den-num
}

func (s *Sim) Now() int64     { return s.now }
func (s *Sim) Steps() int64   { return s.steps }
func (s *Sim) Seq() int64     { s.seqNo++; return s.seqNo }
func (s *Sim) Aborting() bool { return s.aborting }

func (s *Sim) Count(name string, d int64) { s.counters[name] += d }

func (s *Sim) hashEvent(b string) {
	h := s.ehash
	for i := 0; i < len(b); i++ {
		h = (h ^ uint64(b[i])) * fnvPrime
	}
	h = (h ^ 10) * fnvPrime
	s.ehash = h
}

// Event records one line of the run's history.
func (s *Sim) Event(format string, args ...any) {
	if s.aborting {
		return
	}
	line := fmt.Sprintf(format, args...)
	s.hashEvent(line)
	if s.cfg.LogEvents {
		tn := "-"
		if s.cur != nil {
			tn = s.cur.Name
		}
		s.events = append(s.events, fmt.Sprintf("t=%-12d %-18s %s", s.now, tn, line))
	}
}

// ---- tasks ----

func (s *Sim) spawn(node *Node, name string, sys bool, f func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Node: node, Sys: sys, wake: make(chan struct{}, 1)}
	s.tasks = append(s.tasks, t)
	go func() {
		<-t.wake
		defer s.taskExit(t)
		if s.aborting {
			runtime.Goexit()
		}
		f()
	}()
	s.makeReady(t)
	return t
}

func (s *Sim) taskExit(t *Task) {
	r := recover()
	t.done = true
	if s.aborting {
		s.exitC <- struct{}{}
		return
	}
	if r != nil && s.viol == nil && s.herr == "" {
		st := string(debug.Stack())
		msg := fmt.Sprint(r)
		if ownsPanic(st) {
			s.herr = "panic in harness: " + msg + "\n" + st
		} else {
			s.viol = &Violation{Class: "panic", Msg: fmt.Sprintf("goroutine %q panicked: %s at %s", t.Name, msg, panicSite(st))}
		}
		s.Event("panic %s", msg)
		s.endRun()
		return
	}
	if s.ended {
		s.exitC <- struct{}{}
		return
	}
	s.cur = nil
	s.next(nil)
}

// OwnsPanic is ownsPanic for other packages of the simulator.
func OwnsPanic(st string) bool { return ownsPanic(st) }

// PanicSite names the innermost repository frame of a panic.
func PanicSite(st string) string { return panicSite(st) }

// ownsPanic tells whether the innermost frame that is either ours or the
// repository's is ours.
func ownsPanic(st string) bool {
	i := strings.Index(st, "panic(")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/gocraft/") {
			return false
		}
		if strings.HasPrefix(l, "vsim/harness") || strings.HasPrefix(l, "vsim/hdharness") || strings.HasPrefix(l, "main.") {
			return true
		}
	}
	return true
}

func panicSite(st string) string {
	i := strings.Index(st, "panic(")
	if i < 0 {
		return "?"
	}
	for _, l := range strings.Split(st[i:], "\n") {
		if strings.HasPrefix(l, "github.com/gocraft/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}
			return l
		}
	}
	return "?"
}

// Go starts a task on the node of the current task; the rewriter turns every go
// statement of the code under test into a call to it.
func Go(f func()) {
	s := S
	if s == nil {
		panic("vsim: go statement outside a simulation")
	}
	if s.aborting {
		return
	}
	node := s.defNode
	name := "init"
	if s.cur != nil {
		node = s.cur.Node
		name = s.cur.Name
	}
	if len(name) > 60 {
		name = name[:60]
	}
	s.spawn(node, fmt.Sprintf("%s/go%d", name, len(s.tasks)), true, f)
	Y()
}

// GoOn starts a workload task on a node.
func (s *Sim) GoOn(node *Node, name string, f func()) *Task {
	return s.spawn(node, name, false, f)
}

// GoSys starts a task that stands for the environment's part of the system
// (an HTTP server's per-request goroutine).
func (s *Sim) GoSys(node *Node, name string, f func()) *Task {
	return s.spawn(node, name, true, f)
}

func (s *Sim) Cur() *Task { return s.cur }
func (s *Sim) CurNode() *Node {
	if s.cur != nil {
		return s.cur.Node
	}
	return s.defNode
}

func (s *Sim) makeReady(t *Task) {
	if t.ready || t.done || t.Node.Down {
		return
	}
	t.ready = true
	s.runq = append(s.runq, t)
}

// Y is the yield point the rewriter puts before every statement.
func Y() {
	s := S
	if s == nil || s.aborting || s.cur == nil || s.quiet > 0 {
		return
	}
	s.steps++
	s.burst++
	if s.quantum > 0 {
		s.quantum--
		if s.quantum == 0 {
			s.preempt()
			return
		}
	}
	if s.burst > 20000 {
		s.preempt()
	}
	if s.steps-s.stepBase > s.cfg.MaxSteps {
		s.overBudget()
	}
}

func (s *Sim) overBudget() {
	if s.viol == nil {
		s.stepCap = true
		s.viol = &Violation{Class: "no-progress", Msg: fmt.Sprintf("no progress within %d steps (live-lock) in %s", s.cfg.MaxSteps, s.cur.Name)}
	}
	s.endRunFromTask()
}

func (s *Sim) preempt() {
	t := s.cur
	t.waitOn = "runnable"
	s.makeReady(t)
	s.switchAway(t)
}

// Yield gives up the processor without blocking.
func Yield() {
	s := S
	if s == nil || s.aborting || s.cur == nil {
		return
	}
	s.steps++
	if s.steps-s.stepBase > s.cfg.MaxSteps {
		s.overBudget()
	}
	s.preempt()
}

// Park blocks the current task until Ready is called for it.
func Park(why string) {
	s := S
	if s == nil || s.cur == nil {
		panic("vsim: blocking operation outside a simulation: " + why)
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	t.waitOn = why
	t.since = s.now
	s.steps++
	s.switchAway(t)
}

func (s *Sim) Ready(t *Task) { s.makeReady(t) }

func (s *Sim) switchAway(t *Task) {
	s.cur = nil
	if s.next(t) {
		return
	}
	<-t.wake
	if s.aborting {
		runtime.Goexit()
	}
}

// next picks and resumes the next task. Returns true if it is self.
func (s *Sim) next(self *Task) bool {
	t := s.pick(self)
	if t == nil {
		s.endRun()
		return false
	}
	s.cur = t
	t.waitOn = ""
	s.burst = 0
	if s.cfg.Quantum > 0 {
		s.quantum = s.Choose(2*s.cfg.Quantum, KQuantum)
	}
	if t.Node != s.lastNode {
		s.swapGlobals(t.Node)
	}
	s.shash = (s.shash ^ uint64(t.ID+1)) * fnvPrime
	s.switches++
	if t == self {
		return true
	}
	t.wake <- struct{}{}
	return false
}

func (s *Sim) pick(self *Task) *Task {
	for {
		if s.ended {
			return nil
		}
		// drop dead ones
		k := 0
		for _, t := range s.runq {
			if t.done || t.Node.Down {
				t.ready = false
				continue
			}
			s.runq[k] = t
			k++
		}
		s.runq = s.runq[:k]
		if len(s.runq) > 0 {
			// a timer that is due at this very instant may fire before any of them runs
			if len(s.timers) > 0 && s.timers[0].when <= s.now && !s.timers[0].dog && s.Choose(3, KTimer) == 2 {
				s.advance()
				continue
			}
			if s.cfg.StallPct > 0 && s.noStall == 0 && s.stalls < s.cfg.StallMax && len(s.timers) > 0 && !s.timers[0].dog && s.timers[0].when-s.now < 30e9 {
				if s.Chance(s.cfg.StallPct, 1000, KStall) {
					s.stalls++
					s.counters["fault.stall"]++
					s.advance()
					continue
				}
			}
			// order: self first, then by position
			idx := 0
			n := len(s.runq)
			selfPos := -1
			if self != nil && self.ready {
				for i, t := range s.runq {
					if t == self {
						selfPos = i
						break
					}
				}
			}
			if n > 1 {
				if selfPos >= 0 && s.cfg.Sticky > 0 {
					if s.Choose(100, KSched) < s.cfg.Sticky {
						idx = selfPos
					} else {
						idx = s.Choose(n, KSched)
					}
				} else {
					c := s.Choose(n, KSched)
					idx = c
					if selfPos >= 0 {
						// 0 means: stay on self
						if c == 0 {
							idx = selfPos
						} else if c <= selfPos {
							idx = c - 1
						}
					}
				}
			}
			t := s.runq[idx]
			copy(s.runq[idx:], s.runq[idx+1:])
			s.runq = s.runq[:n-1]
			t.ready = false
			return t
		}
		if len(s.idle) > 0 {
			t := s.idle[0]
			s.idle = s.idle[1:]
			t.ready = false
			return t
		}
		if len(s.timers) == 0 {
			return nil
		}
		s.advance()
	}
}

// maxSim bounds a run: some call that must return doesn't, while tickers go on.
const maxSim = int64(40 * 24 * time.Hour)

// advance moves the clock to the next timer and fires one of those due then.
func (s *Sim) advance() {
	s.steps++
	if s.steps > 8*s.cfg.MaxSteps || s.now > maxSim {
		if s.viol == nil {
			s.stepCap = true
			s.viol = &Violation{Class: "no-progress", Msg: fmt.Sprintf("the run does not end: %d steps, %d s of simulated time", s.steps, s.now/1e9)}
		}
		s.ended = true
		return
	}
	t := s.timers[0]
	if t.when > s.now {
		s.still = max(s.still, s.steps-s.stepBase)
		s.stepBase = s.steps
	}
	// ties: any order
	n := 1
	var due []*timer
	if len(s.timers) > 1 {
		due = append(due, t)
		var walk func(i int)
		walk = func(i int) {
			for _, c := range []int{2*i + 1, 2*i + 2} {
				if c < len(s.timers) && s.timers[c].when == t.when && len(due) < 200 {
					due = append(due, s.timers[c])
					walk(c)
				}
			}
		}
		walk(0)
		n = len(due)
		if n > 1 {
			// deterministic base order
			for i := 1; i < n; i++ {
				for j := i; j > 0 && due[j].seq < due[j-1].seq; j-- {
					due[j], due[j-1] = due[j-1], due[j]
				}
			}
			t = due[s.Choose(n, KTimer)]
		}
	}
	heap.Remove(&s.timers, t.idx)
	if t.when > s.now {
		s.now = t.when
	}
	if t.node != nil && t.node.Down {
		return
	}
	t.f()
}

// Timer is a pending callback.
type Timer struct{ t *timer }

// After schedules f (run by the scheduler, must not block) d ns from now. A nil
// node means that the timer belongs to the environment and survives crashes.
func (s *Sim) After(node *Node, d int64, f func()) *Timer {
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &timer{when: s.now + d, seq: s.tseq, f: f, node: node}
	heap.Push(&s.timers, t)
	return &Timer{t}
}

// Watchdog is After for the time limits of the harness.
func (s *Sim) Watchdog(d int64, f func()) *Timer {
	t := s.After(nil, d, f)
	t.t.dog = true
	return t
}

// Stop cancels the timer; false if it has fired or was stopped.
func (s *Sim) Stop(t *Timer) bool {
	if t == nil || t.t == nil || t.t.idx < 0 || t.t.idx >= len(s.timers) || s.timers[t.t.idx] != t.t {
		return false
	}
	heap.Remove(&s.timers, t.t.idx)
	t.t.idx = -1
	return true
}

// Sleep blocks the current task for d ns of simulated time.
func (s *Sim) Sleep(d int64) {
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	if d <= 0 {
		Yield()
		return
	}
	s.After(nil, d, func() { s.makeReady(t) })
	Park("sleep")
}

// WaitIdle blocks the workload task until every other task is blocked; time
// does not pass.
func (s *Sim) WaitIdle() {
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	s.idle = append(s.idle, t)
	Park("idle")
}

// NoStall suspends (d=+1) or resumes (d=-1) stall faults.
func (s *Sim) NoStall(d int) { s.noStall += d }

// Crash kills a node: none of its system tasks runs again.
func (s *Sim) Crash(n *Node) {
	n.Down = true
	s.counters["fault.crash"]++
	for _, f := range s.OnCrash {
		f(n)
	}
}

// Restart brings a crashed node back as a new process: a new Node under the
// same name.
func (s *Sim) Restart(name string) *Node {
	old := s.Node(name)
	old.Down = true
	n := &Node{Name: name, Loc: old.Loc, Offset: old.Offset, Vars: map[string]string{}, Fds: 7, EpochNo: old.EpochNo + 1}
	s.nodes[name] = n
	s.counters["fault.restart"]++
	return n
}

// Fail reports a violation and ends the run.
func (s *Sim) Fail(class, format string, args ...any) {
	if s.aborting {
		runtime.Goexit()
	}
	if s.viol == nil {
		s.viol = &Violation{Class: class, Msg: fmt.Sprintf(format, args...)}
		s.Event("VIOLATION %s", s.viol.Class)
	}
	s.endRunFromTask()
}

func (s *Sim) HarnessError(format string, args ...any) {
	if s.aborting {
		runtime.Goexit()
	}
	if s.herr == "" {
		s.herr = fmt.Sprintf(format, args...)
	}
	s.endRunFromTask()
}

// Stop ends the run normally, from a task.
func (s *Sim) Finish() { s.endRunFromTask() }

func (s *Sim) endRunFromTask() {
	t := s.cur
	if t == nil { // scheduler context (timer callback)
		s.ended = true
		return
	}
	s.cur = nil
	s.endRun()
	<-t.wake
	runtime.Goexit()
}

func (s *Sim) endRun() {
	s.ended = true
	if !s.signalled {
		s.signalled = true
		s.doneC <- struct{}{}
	}
}

// Blocked lists the tasks that are blocked, for reports.
func (s *Sim) Blocked() []string {
	var r []string
	for _, t := range s.tasks {
		if !t.done && t != s.cur && !t.ready && !t.Node.Down {
			r = append(r, t.Name+": "+t.waitOn)
		}
	}
	return r
}

// LiveSys counts system tasks of a node that have not ended, by name filter.
func (s *Sim) LiveSys(n *Node) []*Task {
	var r []*Task
	for _, t := range s.tasks {
		if !t.done && t.Sys && t.Node == n {
			r = append(r, t)
		}
	}
	return r
}

func (s *Sim) TaskBlocked(t *Task) (string, bool) {
	if t.done || t.ready || t == s.cur {
		return "", false
	}
	return t.waitOn, true
}

func (t *Task) Done() bool { return t.done }

// Run executes main as the first task until the run ends, then unwinds every
// remaining task.
func (s *Sim) Run(main func()) *Outcome {
	S = s
	s.spawn(s.defNode, "main", false, func() {
		main()
		s.endRunFromTask()
	})
	s.next(nil)
	<-s.doneC
	s.aborting = true
	for _, t := range s.tasks {
		if !t.done {
			s.cur = t
			t.wake <- struct{}{}
			<-s.exitC
		}
	}
	S = nil
	return &Outcome{Violation: s.viol, HarnessErr: s.herr, Steps: s.steps, Still: max(s.still, s.steps-s.stepBase), Switches: s.switches, SimTime: s.now,
		Trace: s.trace, SchedHash: s.shash, EventHash: s.ehash, Events: s.events, Counters: s.counters, Tasks: len(s.tasks), Kinds: s.kinds, StepCap: s.stepCap}
}

// WallBase is the wall clock, in unix ns, at simulated time 0.
func (s *Sim) WallBase() int64 { return s.cfg.WallBase }

// LiveOn counts the live tasks of a node.
func (s *Sim) LiveOn(n *Node) int {
	k := 0
	for _, t := range s.tasks {
		if !t.done && t.Node == n {
			k++
		}
	}
	return k
}

// ---- packages under test ----

type pkgHooks struct {
	path  string
	reset func()
	save  func() any
	load  func(any)
}

var pkgs []pkgHooks

// RegisterPkg is called by the generated init function of a rewritten package.
func RegisterPkg(path string, reset func(), save func() any, load func(any)) {
	pkgs = append(pkgs, pkgHooks{path, reset, save, load})
}

// swapGlobals gives the node that runs next its own copy of every package-level
// variable; on a node's first step the initialisers run, as in a new process.
func (s *Sim) swapGlobals(n *Node) {
	if s.lastNode != nil {
		s.lastNode.globals = saveGlobals()
	}
	s.lastNode = n
	if n.globals == nil {
		s.quiet++
		ResetGlobals()
		s.quiet--
		n.globals = saveGlobals()
		return
	}
	loadGlobals(n.globals)
}

// ResetGlobals runs the initialisers of every rewritten package again: a new
// process. Must run in a task on the node that starts.
func ResetGlobals() {
	for _, p := range pkgs {
		p.reset()
	}
}

func saveGlobals() []any {
	r := make([]any, len(pkgs))
	for i, p := range pkgs {
		r[i] = p.save()
	}
	return r
}

func loadGlobals(v []any) {
	for i, p := range pkgs {
		p.load(v[i])
	}
}

func Box[T any](p *T) any      { return *p }
func Unbox[T any](p *T, v any) { *p = unbox[T](v) }
