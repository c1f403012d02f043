// Package simrt is the deterministic kernel every simulated run executes on.
//
// Tasks are real goroutines, but exactly one holds the run token at any
// moment; the token moves only inside this package, by a decision drawn from
// a seeded choice stream. Time is virtual: it advances, to the next timer,
// only when no task can run.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Policy says how one run schedules its tasks.
type Policy struct {
	Kind      int      // 0 random walk, 1 priorities with change points
	Preempt   float64  // chance of a preemption at an operation
	FuseMean  int      // mean number of statements between statement-level preemptions, 0 = none
	Changes   int      // priority change points (Kind 1)
	StallProb float64  // chance that a task is stalled at an operation
	StallMax  int64    // longest stall, ns
	Stalls    int      // most stalls in a run
	JumpAt    [2]int64 // when the wall clock is set, virtual ns, 0 = not
	JumpBy    [2]int64 // by how much, ns
}

// Config of one run.
type Config struct {
	Seed    uint64
	Policy  Policy
	MaxTime int64               // virtual ns
	MaxStep int64               // statement steps without time advancing
	Replay  map[string][]uint32 // nil: generate
	Verbose bool
}

// Outcome of one run.
type Outcome struct {
	End       string // "done", "crash", "deadlock", "livelock", "timelimit", "budget", "internal"
	Detail    string
	Stack     string
	Now       int64
	Steps     int64
	Switches  int64
	Preempts  int64
	Hash      uint64
	Choices   map[string][]uint32
	Faults    map[string]int
	Probes    map[string]int
	Log       []string
	TaskCount int
}

const (
	stNew = iota
	stReady
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	id     int
	name   string
	state  int
	wake   chan struct{}
	why    string
	prio   int
	wq     *WaitQ
	wtimer *Timer
	timedO bool
	since  int64
	handed bool
	app    bool
	slow   bool
	begun  bool
	hold   int
}

// Sim is the state of one run.
type Sim struct {
	cfg       Config
	now       int64
	cur       *Task
	runq      []*Task
	tasks     []*Task
	nextID    int
	timers    []*Timer
	tseq      int64
	steps     int64
	next      int64 // step count at which P takes its slow path
	fuseAt    int64
	limitAt   int64
	lastAdv   int64
	ops       int64
	switches  int64
	preempts  int64
	hash      uint64
	dying     bool
	ended     bool
	end       string
	detail    string
	stack     string
	over      chan struct{}
	exited    chan struct{}
	streams   []*Stream
	sched     *Stream
	fuse      *Stream
	tstream   *Stream
	stall     *Stream
	sel       *Stream
	stalled   int64
	jumped    int64
	stallEnd  int64 // when the last stall so far ends
	stallBase int64 // stalled before the stalls that may still last
	stalls    int
	prios     []int64
	faults    []counter
	probes    []counter
	log       []string
	waiters   []*chanWaiter
	seq       int64
	exitSync  int64
}

type counter struct {
	k string
	n int
}

// S is the running simulation, nil outside one.
var S *Sim

// Epoch is the wall clock reading at virtual time 0 (2024-01-01 UTC).
const Epoch = int64(1704067200) * 1000000000

type killed struct{}

// Run executes main as the first task of a new simulation and returns when it
// returned, or the run ended otherwise.
func Run(cfg Config, main func()) *Outcome {
	if S != nil {
		panic("simrt: nested Run")
	}
	s := &Sim{cfg: cfg, over: make(chan struct{}, 1), exited: make(chan struct{}, 1), hash: 14695981039346656037}
	if s.cfg.MaxStep == 0 {
		s.cfg.MaxStep = 4000000
	}
	if s.cfg.MaxTime == 0 {
		s.cfg.MaxTime = 3600 * 1e9 * 24
	}
	S = s
	s.runq = make([]*Task, 0, 64)
	s.tasks = make([]*Task, 0, 64)
	s.timers = make([]*Timer, 0, 64)
	s.waiters = make([]*chanWaiter, 0, 64)
	s.sched = s.stream("sched")
	s.fuse = s.stream("fuse")
	s.tstream = s.stream("timer")
	s.stall = s.stream("stall")
	s.sel = s.stream("select")
	s.limitAt = s.cfg.MaxStep
	s.newFuse()
	if cfg.Policy.Kind == 1 && cfg.Replay == nil {
		st := &Stream{state: mix64(cfg.Seed ^ hashString("pct"))}
		for i := 0; i < cfg.Policy.Changes; i++ {
			s.prios = append(s.prios, int64(st.next()%400))
		}
	}
	t := s.newTask("main", false, func() { main(); s.finish("done", "", "") })
	s.ready(t)
	s.runq = s.runq[:0]
	s.cur = t
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
	<-s.over
	// tear down: every remaining task is woken once and exits.
	s.dying = true
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDone {
			continue
		}
		s.cur = t
		raceDisable()
		t.wake <- struct{}{}
		raceEnable()
		<-s.exited
	}
	RaceAcquire(unsafe.Pointer(&s.exitSync))
	o := &Outcome{End: s.end, Detail: s.detail, Stack: s.stack, Now: s.now, Steps: s.steps,
		Switches: s.switches, Preempts: s.preempts, Hash: s.hash, TaskCount: s.nextID,
		Choices: map[string][]uint32{}, Faults: map[string]int{}, Probes: map[string]int{}, Log: s.log}
	for _, st := range s.streams {
		o.Choices[st.Name] = st.Rec
	}
	for _, c := range s.faults {
		o.Faults[c.k] += c.n
	}
	for _, c := range s.probes {
		o.Probes[c.k] += c.n
	}
	S = nil
	return o
}

// NamedStream returns the choice stream of that name, creating it.
func NamedStream(name string) *Stream { return S.stream(name) }

func (s *Sim) stream(name string) *Stream {
	for _, st := range s.streams {
		if st.Name == name {
			return st
		}
	}
	st := &Stream{Name: name, state: mix64(s.cfg.Seed ^ hashString(name))}
	if s.cfg.Replay != nil {
		st.replay = true
		st.in = s.cfg.Replay[name]
	}
	s.streams = append(s.streams, st)
	return st
}

func (s *Sim) newTask(name string, app bool, f func()) *Task {
	t := &Task{id: s.nextID, name: name, wake: make(chan struct{}, 1), app: app, slow: app}
	s.nextID++
	t.prio = int(mix64(s.cfg.Seed^uint64(t.id)*7919) >> 33)
	s.tasks = append(s.tasks, t)
	go func() {
		raceDisable()
		<-t.wake
		raceEnable()
		defer s.taskExit(t)
		if s.dying {
			return
		}
		t.begun = true
		f()
	}()
	return t
}

func (s *Sim) taskExit(t *Task) {
	r := recover()
	RaceReleaseMerge(unsafe.Pointer(&s.exitSync))
	if s.dying {
		t.state = stDone
		s.exited <- struct{}{}
		return
	}
	if r != nil {
		if _, ok := r.(killed); !ok {
			st := string(debug.Stack())
			if d, ok := r.(Deliberate); ok {
				s.mark("crash", fmt.Sprint(d), st)
			} else {
				s.crash(fmt.Sprint(r), st)
			}
		}
	}
	t.state = stDone
	s.mixHash(uint64(t.id), 0xdead)
	if s.ended {
		s.exitedEarly(t)
		return
	}
	for i, x := range s.tasks {
		if x == t {
			s.tasks = cut(s.tasks, i)
			break
		}
	}
	raceDisable()
	s.pass(t)
	raceEnable()
}

// exitedEarly: the run ended while t was the token holder and t is returning.
func (s *Sim) exitedEarly(t *Task) { s.over <- struct{}{} }

// crash records that the simulated process died.
func (s *Sim) crash(msg, stack string) {
	kind := "crash"
	if strings.HasPrefix(msg, "simrt-internal:") || !appStack(stack) {
		kind = "internal"
	}
	s.mark(kind, msg, stack)
}

// Deliberate is what harness callbacks panic with on purpose.
type Deliberate struct{ Msg string }

// AppPath is the import path of the code under test.
const AppPath = "github.com/things-go/go-modbus"

// appStack tells whether the innermost non-library frame of a panic is in the
// code under test rather than in the harness.
func appStack(stack string) bool {
	lines := strings.Split(stack, "\n")
	i := 0
	for i < len(lines) && !strings.HasPrefix(lines[i], "panic(") && !strings.Contains(lines[i], "simrt.Fatal(") {
		i++
	}
	for ; i < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, AppPath) {
			return true
		}
		if strings.HasPrefix(l, "verif.local/sim/") && !strings.HasPrefix(l, "verif.local/sim/simrt") && !strings.HasPrefix(l, "verif.local/sim/shim/") {
			return false
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func (s *Sim) mark(end, detail, stack string) {
	if s.ended {
		return
	}
	s.ended, s.end, s.detail, s.stack = true, end, detail, stack
	if s.cfg.Verbose {
		s.Logf("RUN ENDS: %s %s", end, detail)
	}
}

// finish ends the run from inside a task; it does not return.
func (s *Sim) finish(end, detail, stack string) {
	s.mark(end, detail, stack)
	panic(killed{})
}

// Fatal ends the run as a process crash no recover can stop.
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	if s.dying {
		runtime.Goexit()
	}
	s.crash("fatal error: "+msg, string(debug.Stack()))
	s.stop()
}

// Internal ends the run as an error of the simulator or harness.
func Internal(format string, a ...interface{}) {
	s := S
	if s == nil {
		panic(fmt.Sprintf(format, a...))
	}
	if s.dying {
		runtime.Goexit()
	}
	s.mark("internal", fmt.Sprintf(format, a...), string(debug.Stack()))
	s.stop()
}

// stop: the run is over; give the token back to Run and wait to be killed.
func (s *Sim) stop() {
	t := s.cur
	raceDisable()
	s.over <- struct{}{}
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// End ends the run as complete from any task.
func End() {
	s := S
	if s.dying {
		runtime.Goexit()
	}
	s.mark("done", "", "")
	s.stop()
}

func (s *Sim) mixHash(a, b uint64) {
	h := s.hash
	h ^= a
	h *= 1099511628211
	h ^= b
	h *= 1099511628211
	s.hash = h
}

// Dying tells whether the run is being torn down.
//
//go:noinline
func Dying() bool { return S != nil && S.dying }

func (s *Sim) ready(t *Task) {
	if t.state == stReady || t.state == stDone {
		return
	}
	t.state = stReady
	s.runq = append(s.runq, t)
}

// Spawn starts a task of the harness.
func Spawn(name string, f func()) *Task { return spawn(name, false, f) }

// Go starts a task for a go statement of the code under test.
//
//go:noinline
func Go(f func()) {
	spawn("go", true, f)
	Yield("go")
}

func spawn(name string, app bool, f func()) *Task {
	s := S
	if s == nil {
		go f()
		return nil
	}
	if s.dying {
		runtime.Goexit()
	}
	t := s.newTask(fmt.Sprintf("%s#%d", name, s.nextID), app, f)
	s.ready(t)
	return t
}

func (s *Sim) newFuse() {
	m := s.cfg.Policy.FuseMean
	s.fuseAt = 1 << 62
	if m > 0 || s.fuse.replay {
		g := s.fuse.Weighted(1<<20, func(u uint64) int {
			// roughly geometric with mean m, at least 1
			n := 1
			x := float64(u>>11) / (1 << 53)
			p := 1.0
			q := 1 - 1/float64(m+1)
			for p > x && n < 1<<19 {
				p *= q
				n++
			}
			return n
		})
		if g > 0 {
			s.fuseAt = s.steps + int64(g)
		}
	}
	s.setNext()
}

func (s *Sim) setNext() {
	s.next = s.fuseAt
	if s.limitAt < s.next {
		s.next = s.limitAt
	}
}

func (s *Sim) pSlow() {
	if s.dying {
		s.limitAt = s.steps + 2000000
		s.fuseAt = 1 << 62
		s.setNext()
		runtime.Goexit()
	}
	if s.steps >= s.limitAt {
		s.mark("livelock", fmt.Sprintf("task %s made %d steps at virtual time %v without blocking", s.cur.name, s.steps-s.lastAdv, s.now), string(debug.Stack()))
		s.stop()
	}
	if s.steps >= s.fuseAt {
		s.newFuse()
		s.yield("stmt", 0.8)
	}
}

// Yield is a scheduling point at an operation.
//
//go:noinline
func Yield(op string) {
	s := S
	if s == nil || s.dying {
		return
	}
	s.op(op)
	if s.cfg.Policy.StallProb > 0 && s.stalls < s.cfg.Policy.Stalls && s.cur.slow && s.cur.hold == 0 {
		if s.stall.Chance(s.cfg.Policy.StallProb) {
			s.stalls++
			d := int64(1 + s.stall.Choose(int(s.cfg.Policy.StallMax/1e6)))
			if s.now >= s.stallEnd {
				s.stallBase = s.stalled
			}
			s.stalled += d * 1e6
			if e := s.now + d*1e6; e > s.stallEnd {
				s.stallEnd = e
			}
			Fault("task-stall")
			sleep(d*1e6, "stall")
			return
		}
	}
	s.yield(op, s.cfg.Policy.Preempt)
}

// StalledFor is the total time tasks were stalled so far.
func StalledFor() int64 { return S.stalled }

// StallMark is what StalledFor was when no task was stalled the last time:
// the difference to a later StalledFor covers stalls that are under way now.
func StallMark() int64 {
	if S.now >= S.stallEnd {
		return S.stalled
	}
	return S.stallBase
}

func (s *Sim) op(op string) {
	s.steps += 8
	s.ops++
	if s.steps >= s.next {
		s.pSlow()
	}
}

func (s *Sim) yield(op string, p float64) {
	if s.cur.hold > 0 {
		return
	}
	n := len(s.runq)
	if n == 0 {
		return
	}
	idx := 0
	if s.cfg.Policy.Kind == 1 {
		if len(s.prios) > 0 {
			for i, at := range s.prios {
				if at == s.ops {
					s.cur.prio = -1 - i
				}
			}
		}
		idx = s.sched.Weighted(n+1, func(u uint64) int {
			best, bp := 0, s.cur.prio
			for i, t := range s.runq {
				if t.prio > bp {
					best, bp = i+1, t.prio
				}
			}
			if op == "stmt" && best == 0 {
				return int(u % uint64(n+1))
			}
			return best
		})
	} else {
		idx = s.sched.Weighted(n+1, func(u uint64) int {
			if float64(u>>40)/(1<<24) < p {
				return 1 + int((u&0xffffffff)%uint64(n))
			}
			return 0
		})
	}
	if idx == 0 {
		return
	}
	s.preempts++
	me := s.cur
	nx := s.runq[idx-1]
	s.runq = cut(s.runq, idx-1)
	me.state = stReady
	s.runq = append(s.runq, me)
	s.switchTo(me, nx)
}

func (s *Sim) switchTo(me, nx *Task) {
	s.switches++
	nx.state = stReady
	s.cur = nx
	s.mixHash(uint64(nx.id)<<32|uint64(uint32(s.steps)), uint64(s.now))
	raceDisable()
	nx.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if s.dying {
		runtime.Goexit()
	}
}

// block parks the current task until it is made ready again.
func (s *Sim) block(why string) {
	me := s.cur
	if me.hold > 0 {
		Internal("simrt-internal: blocking (%s) inside an atomic section", why)
	}
	me.state = stBlocked
	me.why = why
	me.since = s.now
	nx := s.pickNext()
	if nx == me {
		me.state = stReady
		return
	}
	if nx == nil {
		s.stop()
	}
	s.switchTo(me, nx)
}

// pass hands the token on from a task that has ended.
func (s *Sim) pass(t *Task) {
	nx := s.pickNext()
	if nx == nil {
		s.over <- struct{}{}
		return
	}
	s.switches++
	s.cur = nx
	s.mixHash(uint64(nx.id)<<32|uint64(uint32(s.steps)), uint64(s.now))
	nx.wake <- struct{}{}
}

// pickNext chooses the next task when the current one cannot go on, letting
// time pass if none can run. nil: the run has ended.
func (s *Sim) pickNext() *Task {
	for {
		if n := len(s.runq); n > 0 {
			idx := 0
			if n > 1 {
				if s.cfg.Policy.Kind == 1 {
					idx = s.sched.Weighted(n, func(uint64) int {
						b := 0
						for i, t := range s.runq {
							if t.prio > s.runq[b].prio {
								b = i
							}
						}
						return b
					})
				} else {
					idx = s.sched.Weighted(n, func(u uint64) int { return int(u % uint64(n)) })
				}
			}
			t := s.runq[idx]
			s.runq = cut(s.runq, idx)
			return t
		}
		if !s.advance() {
			return nil
		}
		if s.ended {
			return nil
		}
	}
}

// advance fires the next timers; false: the run has ended.
func (s *Sim) advance() bool {
	for len(s.timers) > 0 && s.timers[0].dead {
		s.popTimer(0)
	}
	if len(s.timers) == 0 {
		var b strings.Builder
		for _, t := range s.tasks {
			if t.state == stBlocked {
				fmt.Fprintf(&b, " %s:%s", t.name, t.why)
			}
		}
		s.mark("deadlock", "every task is blocked for ever:"+b.String(), "")
		return false
	}
	w := s.timers[0].when
	if w > s.cfg.MaxTime {
		s.mark("timelimit", fmt.Sprintf("virtual time limit %d reached", s.cfg.MaxTime), "")
		return false
	}
	if w > s.now {
		s.now = w
		s.lastAdv = s.steps
		s.limitAt = s.steps + s.cfg.MaxStep
		s.setNext()
	}
	// all timers due now, in a drawn order
	due := s.timers[:0:0]
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		t := s.popTimer(0)
		if !t.dead {
			due = append(due, t)
		}
	}
	for len(due) > 0 {
		i := 0
		if len(due) > 1 {
			i = s.tstream.Choose(len(due))
		}
		t := due[i]
		for k := i; k < len(due)-1; k++ {
			due[k] = due[k+1]
		}
		due = due[:len(due)-1]
		if !t.dead {
			t.dead = true
			t.fired = true
			t.f()
		}
	}
	return true
}

// Now is the virtual time in ns since the start of the run.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// Seq returns a fresh event sequence number.
func Seq() int64 { S.seq++; return S.seq }

// Timer calls f, in kernel context, at a virtual time.
type Timer struct {
	when  int64
	seq   int64
	f     func()
	dead  bool
	fired bool
}

// AddTimer schedules f at time when; f must not block.
func AddTimer(when int64, f func()) *Timer {
	s := S
	if when < s.now {
		when = s.now
	}
	t := &Timer{when: when, f: f, seq: s.tseq}
	s.tseq++
	if s.dying {
		return t
	}
	s.timers = append(s.timers, t)
	s.up(len(s.timers) - 1)
	return t
}

// Stop cancels the timer and tells whether it was pending.
func (t *Timer) Stop() bool {
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	return true
}

func (s *Sim) less(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}

func (s *Sim) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(i, p) {
			break
		}
		s.timers[i], s.timers[p] = s.timers[p], s.timers[i]
		i = p
	}
}

func (s *Sim) popTimer(i int) *Timer {
	t := s.timers[0]
	n := len(s.timers) - 1
	s.timers[0] = s.timers[n]
	s.timers[n] = nil
	s.timers = s.timers[:n]
	i = 0
	for {
		l, r, m := 2*i+1, 2*i+2, i
		if l < n && s.less(l, m) {
			m = l
		}
		if r < n && s.less(r, m) {
			m = r
		}
		if m == i {
			break
		}
		s.timers[i], s.timers[m] = s.timers[m], s.timers[i]
		i = m
	}
	return t
}

// Sleep lets virtual time pass for the current task.
func Sleep(ns int64) {
	s := S
	if s == nil {
		return
	}
	if s.dying {
		runtime.Goexit()
	}
	if ns <= 0 {
		Yield("sleep0")
		return
	}
	s.op("sleep")
	sleep(ns, "sleep")
}

func sleep(ns int64, why string) {
	s := S
	me := s.cur
	AddTimer(s.now+ns, func() { s.ready(me) })
	s.block(why)
}

// WaitQ is a queue of parked tasks.
type WaitQ struct {
	q []*Task
}

// Wait parks the current task until woken.
func (w *WaitQ) Wait(why string) { w.WaitUntil(why, 0) }

// WaitUntil parks the current task until woken or, when deadline > 0, until
// that time; it returns false if the deadline ended the wait.
func (w *WaitQ) WaitUntil(why string, deadline int64) bool {
	s := S
	if s == nil {
		panic("simrt: wait (" + why + ") outside a simulation")
	}
	if s.dying {
		runtime.Goexit()
	}
	me := s.cur
	me.timedO = false
	me.handed = false
	w.q = append(w.q, me)
	if deadline > 0 {
		me.wtimer = AddTimer(deadline, func() {
			if w.remove(me) {
				me.timedO = true
				s.ready(me)
			}
		})
	}
	s.block(why)
	if me.wtimer != nil {
		me.wtimer.Stop()
		me.wtimer = nil
	}
	return !me.timedO
}

func (w *WaitQ) remove(t *Task) bool {
	for i, x := range w.q {
		if x == t {
			w.q = cut(w.q, i)
			return true
		}
	}
	return false
}

// Len is the number of parked tasks.
func (w *WaitQ) Len() int { return len(w.q) }

// WakeAll makes every parked task ready.
func (w *WaitQ) WakeAll() {
	if S == nil || len(w.q) == 0 {
		return
	}
	q := w.q
	w.q = nil
	for _, t := range q {
		S.ready(t)
	}
}

// WakeOne makes the longest-parked task ready.
func (w *WaitQ) WakeOne() bool {
	if S == nil || len(w.q) == 0 {
		return false
	}
	t := w.q[0]
	w.q = w.q[1:]
	S.ready(t)
	return true
}

// HeadSince is when the longest-parked task parked.
func (w *WaitQ) HeadSince() (int64, bool) {
	if len(w.q) == 0 {
		return 0, false
	}
	return w.q[0].since, true
}

// HandOff makes the head ready and marks that ownership was passed to it.
func (w *WaitQ) HandOff() {
	t := w.q[0]
	w.q = w.q[1:]
	t.handed = true
	S.ready(t)
}

// Handed reports whether the current task was woken by HandOff.
func Handed() bool { return S.cur.handed }

// Alive tells whether t has not ended.
func (t *Task) Alive() bool { return t != nil && t.state != stDone }

// Blocked says what t is blocked on ("" if it is not).
func (t *Task) Blocked() string {
	if t == nil || t.state != stBlocked {
		return ""
	}
	return t.why
}

// Current returns the running task.
func Current() *Task { return S.cur }

// CurrentID identifies the running task.
func CurrentID() int {
	if S == nil {
		return -1
	}
	return S.cur.id
}

// MarkApp makes the task subject to stalls.
func (t *Task) MarkApp() { t.slow = true }

// IsApp tells whether the task was started by the code under test.
func (t *Task) IsApp() bool { return t.app }

// ID of the task.
func (t *Task) ID() int { return t.id }

// Name of the task.
func (t *Task) Name() string { return t.name }

// AppTasks lists the live tasks the code under test has started.
func AppTasks() []*Task {
	var r []*Task
	for _, t := range S.tasks {
		if t.app && t.state != stDone {
			r = append(r, t)
		}
	}
	return r
}

// Atomic runs f without any preemption.
func Atomic(f func()) {
	t := S.cur
	t.hold++
	f()
	t.hold--
}

// Fault counts an injected fault that fired.
func Fault(kind string) {
	if S == nil || S.dying {
		return
	}
	bump(&S.faults, kind)
	if S.cfg.Verbose {
		S.Logf("fault %s", kind)
	}
}

// Probe counts a condition worth reaching.
//
// Progress tells that the tasks do not run on without end: the harness has
// got one of a limited number of things done.
//
//go:noinline
func Progress() {
	if S == nil || S.dying {
		return
	}
	S.lastAdv = S.steps
	S.limitAt = S.steps + S.cfg.MaxStep
	S.setNext()
}

func Probe(kind string) {
	if S == nil || S.dying {
		return
	}
	bump(&S.probes, kind)
}

func bump(cs *[]counter, k string) {
	for i := range *cs {
		if (*cs)[i].k == k {
			(*cs)[i].n++
			return
		}
	}
	*cs = append(*cs, counter{k, 1})
}

// FaultCount is the number of faults that fired so far, without settings of
// the clock.
func FaultCount() int {
	n := 0
	for _, c := range S.faults {
		if c.k != "clock-jump" {
			n += c.n
		}
	}
	return n
}

// Verbose tells whether the run keeps a log.
func Verbose() bool { return S != nil && S.cfg.Verbose }

// Logf adds to the run's log.
func Logf(format string, a ...interface{}) {
	if S != nil && S.cfg.Verbose && !S.dying {
		S.Logf(format, a...)
	}
}

// Logf adds to the run's log.
func (s *Sim) Logf(format string, a ...interface{}) {
	if len(s.log) > 6000 {
		return
	}
	name := "-"
	if s.cur != nil {
		name = s.cur.name
	}
	s.log = append(s.log, fmt.Sprintf("%12.6fs %-14s %s", float64(s.now)/1e9, name, fmt.Sprintf(format, a...)))
}

// Mix folds an event into the trace hash.
func Mix(a, b uint64) {
	if S != nil && !S.dying {
		S.mixHash(a, b)
	}
}

// cut removes an element; the builtin copy would be seen by the race detector.
func cut(q []*Task, i int) []*Task {
	for k := i; k < len(q)-1; k++ {
		q[k] = q[k+1]
	}
	q[len(q)-1] = nil
	return q[:len(q)-1]
}

// SpawnApp starts a task of the code under test from kernel context.
func SpawnApp(f func()) { spawn("go", true, f) }
