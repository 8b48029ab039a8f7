// Package vsimrt is the simulator's runtime. It is compiled next to the
// instrumented code under test (through `go build -overlay`); nothing of it is
// in /repo.
//
// Exactly one task (goroutine) runs at any time. At every scheduling point the
// running task asks the scheduler who goes on; the decision comes from one
// seeded generator, or, in a replay, from a recorded list. Parking and waking
// uses real channels, hidden from the race detector.
//
// Everything that several tasks touch here lives in plain variables and
// preallocated arrays and is accessed from go:norace functions only: the race
// detector must see the accesses of the code under test and nothing else.
package vsimrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"
)

// Sites names the scheduling points ("file:line"), filled by the generated file.
var Sites []string

// Budget of a segment that is not to be preempted.
const forever = 1 << 30

const (
	stRunnable = iota
	stBlocked
	stDone
)

// Task is one simulated thread.
type Task struct {
	ID       int
	Name     string
	Child    bool // started by the code under test
	budget   int
	alone    bool // nobody else could run when it was picked
	state    int
	waitOn   unsafe.Pointer
	wake     chan struct{}
	fn       func()
	prio     int
	Panic    any
	Stack    string
	aborted  bool
	lastSite int32
	deadline int64 // >0: asleep until then
	daemon   bool  // a timer: does not keep the run going
}

// Decision is one scheduling decision: Task goes on for Budget scheduling points.
type Decision struct {
	Task   int32
	Budget int32
}

const (
	// From here on everybody gets a turn: a program may rely on a fair scheduler.
	fairAfter = 150000

	maxTasks   = 128
	maxSched   = 1 << 18
	maxChoices = 1 << 14
	maxKinds   = 64
)

// Config of one run.
type Config struct {
	Seed       uint64
	MeanBudget int  // mean number of scheduling points between preemptions; 0: none
	SyncP      int  // >0: every SyncP-th synchronisation, channel or disk operation is preempted
	PCT        int  // >0: priority scheduling with this many change points
	PCTSpan    int  // change points are drawn from [0,PCTSpan)
	MaxSteps   int  // liveness bound
	Replay     bool // take decisions from the lists below
	Sched      []Decision
	Choices    []int32
}

// Sim is one simulated execution.
type Sim struct {
	cfg      Config
	rng      uint64
	frng     uint64
	tasks    [maxTasks]*Task
	ntasks   int
	mainWake chan struct{}
	haltWake chan struct{}
	halting  bool
	finish   int64 // address used for the happens-before edge to the main goroutine
	started  bool

	nsched int
	spos   int

	nchoices int
	cpos     int

	changeAt [64]int
	nchange  int
	ichange  int

	Steps    int
	Switches int
	seq      int64
	Hash     uint64 // of the interleaving
	Deadlock bool
	Stuck    bool
	Overflow bool
	aborting bool

	nsleep  int // tasks asleep
	kinds   [maxKinds]string
	counts  [maxKinds]int64
	nkinds  int
	Visited []uint64 // bitmap of sites at which a switch happened; allocated by main
}

// The records of the current simulation.
var schedBuf [maxSched]Decision
var choiceBuf [maxChoices]int32

var cur *Task
var sim *Sim

//go:norace
func next(p *uint64) uint64 {
	*p += 0x9E3779B97F4A7C15
	z := *p
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// New prepares a run.
func New(cfg Config) *Sim {
	s := &Sim{cfg: cfg, mainWake: make(chan struct{}, 1), haltWake: make(chan struct{}, 1)}
	s.rng = cfg.Seed*0x9E3779B97F4A7C15 + 1
	s.frng = cfg.Seed*0xD1B54A32D192ED03 + 7
	if s.cfg.MaxSteps == 0 {
		s.cfg.MaxSteps = 2000000
	}
	s.Hash = 1469598103934665603
	s.Visited = make([]uint64, (len(Sites)+64)/64)
	if !cfg.Replay && cfg.PCT > 0 {
		span := cfg.PCTSpan
		if span < 1 {
			span = 1
		}
		for i := 0; i < cfg.PCT && i < len(s.changeAt); i++ {
			s.changeAt[i] = int(next(&s.rng) % uint64(span))
			s.nchange++
		}
		for i := 0; i < s.nchange; i++ {
			for j := i + 1; j < s.nchange; j++ {
				if s.changeAt[j] < s.changeAt[i] {
					s.changeAt[i], s.changeAt[j] = s.changeAt[j], s.changeAt[i]
				}
			}
		}
	}
	return s
}

//go:norace
func (s *Sim) add(name string, child bool, fn func()) *Task {
	slot := s.ntasks
	if child {
		for i := 0; i < s.ntasks; i++ {
			if s.tasks[i].Child && s.tasks[i].state == stDone && s.tasks[i] != cur {
				slot = i
				break
			}
		}
	}
	if slot == maxTasks {
		panic("vsim: too many tasks")
	}
	t := &Task{ID: slot, Name: name, Child: child, fn: fn, wake: make(chan struct{}, 1), lastSite: -1}
	if s.cfg.PCT > 0 && !s.cfg.Replay {
		t.prio = int(next(&s.rng)%1000) + 1000
	}
	s.tasks[slot] = t
	if slot == s.ntasks {
		s.ntasks++
	}
	return t
}

type abortT struct{}

//go:norace
func (t *Task) main() {
	raceOff()
	<-t.wake
	raceOn()
	defer t.end()
	if !sim.aborting {
		t.fn()
	}
}

//go:norace
func (t *Task) end() {
	if r := recover(); r != nil {
		if _, ok := r.(abortT); !ok && !sim.aborting {
			t.Panic = r
			t.Stack = string(debug.Stack())
		}
	}
	s := sim
	t.state = stDone
	RaceReleaseMerge(unsafe.Pointer(&s.finish))
	if s.aborting {
		raceOff()
		if s.halting {
			s.haltWake <- struct{}{}
		} else {
			s.mainWake <- struct{}{}
		}
		raceOn()
		return
	}
	if t.Panic != nil && t.Child {
		// a panic in a goroutine ends the process; end the run
		raceOff()
		cur = nil
		s.mainWake <- struct{}{}
		raceOn()
		return
	}
	s.reschedule(t)
}

// Spawn adds a task before the run starts.
func (s *Sim) Spawn(name string, fn func()) *Task {
	t := s.add(name, false, fn)
	return t
}

// Run executes all tasks to completion, or until a deadlock, a panic in a
// spawned goroutine or the step bound.
func (s *Sim) Run() {
	sim = s
	for i := 0; i < s.ntasks; i++ {
		go s.tasks[i].main()
	}
	s.run0()
	RaceAcquire(unsafe.Pointer(&s.finish))
	s.teardown()
	sim = nil
}

//go:norace
func (s *Sim) run0() {
	s.started = true
	t := s.pick(nil)
	if t == nil {
		return
	}
	cur = t
	raceOff()
	t.wake <- struct{}{}
	<-s.mainWake
	raceOn()
	cur = nil
}

//go:norace
func (s *Sim) teardown() {
	s.aborting = true
	cur = nil
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.state != stDone {
			t.aborted = true
			raceOff()
			t.wake <- struct{}{}
			<-s.mainWake
			raceOn()
			RaceAcquire(unsafe.Pointer(&s.finish))
		}
	}
}

// draw gives the length of a segment.
//
//go:norace
func (s *Sim) draw() int {
	m := uint64(s.cfg.MeanBudget)
	if m == 0 {
		if b := fairAfter - s.Steps; b > 0 {
			return b
		}
		m = 100
	}
	// geometric-like: mean m, many short segments
	b := 1 + int(next(&s.rng)%(2*m))
	if next(&s.rng)%8 == 0 {
		b *= 8
	}
	return b
}

// cut shortens the segment that t, the running task, is in.
//
//go:norace
func (s *Sim) cut(t *Task, b int) {
	if s.cfg.Replay || t.budget <= b || s.Overflow || s.nsched == 0 {
		return
	}
	schedBuf[s.nsched-1].Budget -= int32(t.budget - b)
	t.budget = b
}

// company: the running task is no longer the only one that can run.
//
//go:norace
func (s *Sim) company() {
	if t := cur; t != nil && t.alone {
		t.alone = false
		if !s.cfg.Replay {
			s.cut(t, s.draw())
		}
	}
}

// YS is a scheduling point at an operation on which goroutines depend on each other.
//
//go:norace
func YS() {
	if t := cur; t != nil && sim.cfg.SyncP > 0 && !t.alone && !sim.cfg.Replay && next(&sim.rng)%uint64(sim.cfg.SyncP) == 0 {
		sim.cut(t, 1)
	}
	Y(-1)
}

//go:norace
func (s *Sim) pick(t *Task) *Task {
	s.Switches++
	if s.nsleep > 0 && !s.timers() {
		return nil
	}
	n := 0
	var first *Task
	for i := 0; i < s.ntasks; i++ {
		if s.tasks[i].state == stRunnable {
			if first == nil {
				first = s.tasks[i]
			}
			n++
		}
	}
	if n == 0 {
		return nil
	}
	var p *Task
	b := forever
	if s.cfg.Replay {
		if s.spos < len(s.cfg.Sched) {
			d := s.cfg.Sched[s.spos]
			s.spos++
			if int(d.Task) < s.ntasks && s.tasks[d.Task].state == stRunnable {
				p = s.tasks[d.Task]
			}
			b = int(d.Budget)
		}
		if p == nil {
			if t != nil && t.state == stRunnable {
				p = t
			} else {
				p = first
			}
		}
	} else if s.cfg.PCT > 0 && s.Steps < fairAfter {
		for s.ichange < s.nchange && s.changeAt[s.ichange] <= s.Steps {
			if t != nil {
				t.prio = 64 - s.ichange
			}
			s.ichange++
		}
		p = first
		for i := 0; i < s.ntasks; i++ {
			if s.tasks[i].state == stRunnable && s.tasks[i].prio > p.prio {
				p = s.tasks[i]
			}
		}
		b = fairAfter - s.Steps
		if s.ichange < s.nchange {
			b = s.changeAt[s.ichange] - s.Steps
		}
	} else {
		k := int(next(&s.rng) % uint64(n))
		for i := 0; i < s.ntasks; i++ {
			if s.tasks[i].state == stRunnable {
				if k == 0 {
					p = s.tasks[i]
					break
				}
				k--
			}
		}
		p.alone = n == 1 && s.nsleep == 0
		if n > 1 {
			b = s.draw()
		}
	}
	if s.nsched < maxSched {
		schedBuf[s.nsched] = Decision{int32(p.ID), int32(b)}
		s.nsched++
	} else {
		s.Overflow = true
	}
	p.budget = b
	if t != nil && p != t {
		s.Hash = (s.Hash ^ uint64(t.ID*64+p.ID)) * 1099511628211
		s.Hash = (s.Hash ^ uint64(uint32(t.lastSite))) * 1099511628211
		if t.lastSite >= 0 {
			s.Visited[t.lastSite/64] |= 1 << (uint(t.lastSite) % 64)
		}
	}
	return p
}

// reschedule gives the processor away. t is the running task.
//
//go:norace
func (s *Sim) reschedule(t *Task) {
	if s.Steps > s.cfg.MaxSteps {
		s.Stuck = true
	}
	var p *Task
	if !s.Stuck {
		p = s.pick(t)
	}
	if p == nil {
		if !s.Stuck {
			for i := 0; i < s.ntasks; i++ {
				if s.tasks[i].state == stBlocked && !s.tasks[i].daemon {
					s.Deadlock = true
				}
			}
		}
		raceOff()
		cur = nil
		s.mainWake <- struct{}{}
		if t.state != stDone {
			<-t.wake
		}
		raceOn()
		if t.state != stDone && s.aborting {
			panic(abortT{})
		}
		return
	}
	if p == t {
		return
	}
	cur = p
	raceOff()
	p.wake <- struct{}{}
	if t.state != stDone {
		<-t.wake
	}
	raceOn()
	if t.state != stDone && t.aborted {
		panic(abortT{})
	}
}

// Y is a scheduling point.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	sim.Steps++
	clock += stepTime
	t.budget--
	if t.budget > 0 && sim.Steps <= sim.cfg.MaxSteps {
		return
	}
	t.lastSite = site
	sim.reschedule(t)
}

// block parks the running task until Wake(p).
//
//go:norace
func block(p unsafe.Pointer) {
	t := cur
	if t == nil {
		panic("vsim: would block for ever outside a simulation (a lock was left held)")
	}
	t.state = stBlocked
	t.waitOn = p
	sim.reschedule(t)
}

// wakeAll makes the tasks parked on p runnable.
//
//go:norace
func wakeAll(p unsafe.Pointer) {
	s := sim
	if s == nil {
		return
	}
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.waitOn == p {
			t.state = stRunnable
			t.waitOn = nil
			s.company()
		}
	}
}

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return cur != nil }

// InChild reports whether the running task was started by the code under test.
//
//go:norace
func InChild() bool { return cur != nil && cur.Child }

// ExitT is what the end of a simulated process unwinds with.
type ExitT struct{ Code int }

// Halted is a simulated process that has ended.
type Halted struct {
	t       *Task
	crashed bool
}

// Halt ends the simulated process: from here on nothing that the code under
// test still does (deferred calls) has an effect. The other goroutines are
// gone when Resume is called, which goes on with the task of the harness.
//
//go:norace
func Halt() *Halted {
	h := &Halted{cur, TheDisk.Crashed}
	TheDisk.Crashed = true
	sim.aborting = true
	cur = nil
	return h
}

//go:norace
func (h *Halted) Resume() {
	s := sim
	s.halting = true
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.Child && t.state != stDone {
			t.aborted = true
			raceOff()
			t.wake <- struct{}{}
			<-s.haltWake
			raceOn()
			RaceAcquire(unsafe.Pointer(&s.finish))
		}
	}
	s.halting = false
	cur = h.t
	s.aborting = false
	TheDisk.Crashed = h.crashed
}

// Aborting reports that the run is being torn down.
//
//go:norace
func Aborting() bool { return sim != nil && sim.aborting }

// Go starts a simulated goroutine.
//
//go:norace
func Go(fn func()) {
	s := sim
	if s == nil || cur == nil {
		go fn()
		return
	}
	t := s.add("goroutine", true, fn)
	go t.main()
	s.company()
	YS()
}

// GoCall starts f(args...) as a simulated goroutine.
func GoCall(f any, args ...any) {
	v := reflect.ValueOf(f)
	t := v.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a != nil {
			in[i] = reflect.ValueOf(a)
		} else if t.IsVariadic() && i >= t.NumIn()-1 {
			in[i] = reflect.Zero(t.In(t.NumIn() - 1).Elem())
		} else {
			in[i] = reflect.Zero(t.In(i))
		}
	}
	Go(func() { v.Call(in) })
}

// Seq returns the next global event number.
//
//go:norace
func Seq() int64 {
	sim.seq++
	return sim.seq
}

// Choose draws a value in [0,n) from the fault stream; 0 means "nothing special".
//
//go:norace
func Choose(n int) int {
	s := sim
	if s == nil || n <= 1 {
		return 0
	}
	v := 0
	if s.cfg.Replay {
		if s.cpos < len(s.cfg.Choices) {
			v = int(s.cfg.Choices[s.cpos]) % n
			s.cpos++
		}
	} else {
		v = int(next(&s.frng) % uint64(n))
	}
	if s.nchoices < maxChoices {
		choiceBuf[s.nchoices] = int32(v)
		s.nchoices++
	} else {
		s.Overflow = true
	}
	return v
}

// Count counts an event by kind (an injected fault, a probe).
//
//go:norace
func Count(kind string) {
	s := sim
	if s == nil {
		return
	}
	for i := 0; i < s.nkinds; i++ {
		if s.kinds[i] == kind {
			s.counts[i]++
			return
		}
	}
	if s.nkinds < maxKinds {
		s.kinds[s.nkinds] = kind
		s.counts[s.nkinds] = 1
		s.nkinds++
	}
}

// Counts returns the event counts of a finished run.
func (s *Sim) Counts() map[string]int64 {
	m := map[string]int64{}
	for i := 0; i < s.nkinds; i++ {
		m[s.kinds[i]] += s.counts[i]
	}
	return m
}

// Trace returns the decisions of a finished run.
func (s *Sim) Trace() ([]Decision, []int32) {
	return append([]Decision(nil), schedBuf[:s.nsched]...), append([]int32(nil), choiceBuf[:s.nchoices]...)
}

// Tasks returns the tasks of a finished run.
func (s *Sim) Tasks() []*Task { return s.tasks[:s.ntasks] }

// Describe says what every unfinished task waits for.
// Ended reports that the first n tasks have ended.
func (s *Sim) Ended(n int) bool {
	for i, t := range s.Tasks() {
		if i < n && t.aborted {
			return false
		}
	}
	return true
}

func (s *Sim) Describe() string {
	out := ""
	for _, t := range s.Tasks() {
		site := "?"
		if t.lastSite >= 0 && int(t.lastSite) < len(Sites) {
			site = Sites[t.lastSite]
		}
		if t.aborted && !t.daemon {
			out += fmt.Sprintf("task %d (%s) never finished, last scheduling point %s; ", t.ID, t.Name, site)
		}
	}
	return out
}

// SetMapSeed seeds the order in which maps are iterated. (The runtime is
// compiled with this one source of randomness behind a seam, see build.sh.)
func SetMapSeed(x uint64) { runtime.VsimSetMapSeed(x) }

// MapSeed tells where the stream is that orders the iteration of maps.
func MapSeed() uint64 { return runtime.VsimMapSeed() }

// IsAbort reports that a recovered value is the simulator's own unwinding.
func IsAbort(x any) bool {
	switch x.(type) {
	case abortT, CrashT, ExitT:
		return true
	}
	return false
}

var resetters []func()

// OnReset registers what puts the variables of one package back to their
// initial values.
func OnReset(f func()) { resetters = append(resetters, f) }

// ResetPackages makes the instrumented packages forget everything.
func ResetPackages() {
	for _, f := range resetters {
		f()
	}
}
