//go:build go1.24

// Package simrt is the simulator: it decides which task of the system runs, for
// how many steps, what the clock says and in which order maps are iterated.
// Real goroutines are parked and released one at a time; a step is one statement
// of the instrumented code.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
)

const unlimited = int64(1) << 60

// Step bookkeeping of the task which is running right now.
var (
	budget  int64  = unlimited // steps which the running task may still make before it has to yield
	granted int64  = unlimited // what budget was when the task was resumed
	watch   uint32             // site at which the running task yields, too
	current *Task              // nil: code runs outside of a simulation

	SiteHits [1 << 15]uint8 // which sites were reached in this process
)

type taskState int

const (
	stReady taskState = iota
	stBlocked
	stSleeping
	stDone
)

// Task is a simulated thread.
type Task struct {
	ID    int
	Name  string
	fn    func()
	state taskState
	wake  func() bool // blocked: whether the task could go on
	until int64       // sleeping: simulated time at which it goes on

	resume chan struct{}
	steps  int64 // steps made in this run
	opFrom int64 // value of steps at which the current operation began
	opMax  int64 // steps after which the current operation is regarded as hung; 0: not in an operation
	site   uint32

	Hung    bool // ended by the simulator, as an operation exceeded its bound
	HungAt  uint32
	Killed  bool
	Crashed interface{} // the panic which ended the task
	Stack   string
	prio    int
	stalled bool
	helper  bool
	yieldFn yieldKind

	lastPoll int64 // value of steps when the task looked for what it waits for
}

type yieldKind int

const (
	yPreempt yieldKind = iota
	yBlock
	yPoll
	yDone
)

// Segment is one uninterrupted slice of a task: N steps, or until it blocks or ends (N=0).
type Segment struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

// Switch tells where a slice of a task has ended.
type Switch struct {
	Task int
	Site uint32
	InOp bool
}

// Sim is one simulated execution.
type Sim struct {
	tasks    []*Task
	buried   []*Task
	ids      int
	yielded  chan struct{}
	clock    int64
	jumped   int64 // by how much the wall clock is away from it
	clockInc int64
	mapSeed  uint64
	randSt   uint64
	Env      Env

	Trace    []Segment
	Switches int    // slices which were cut off inside an operation
	Hash     uint64 // over (task, site) at which slices ended
	Steps    int64
	Stalls   int

	StalledIDs []int
	Left       int // goroutines of the code under test that had not ended
	lastInOp   bool
	work       int64  // slices in which a task did more than to look whether it may go on
	selects    uint64 // orders decided for select statements
	Deadlock   string
	CrashAt    int64          // not 0: the process dies once so many steps were made
	CrashedN   int            // how many tasks were in the middle of something when it died
	OnSwitch   func(s Switch) // invariants which are checked while the run proceeds
}

// Env is what the host looks like to the code.
type Env struct {
	ClockNS   int64  `json:"clock"`     // unix nanoseconds at the start
	ClockStep int64  `json:"clockStep"` // by how much each read of the clock advances it
	JumpEvery int64  `json:"jumpEvery"` // 0: never; every so many reads the clock jumps
	JumpNS    int64  `json:"jump"`      // size of the jump, may be negative
	Zone      int    `json:"zone"`      // seconds east of UTC of the local time zone
	MapSeed   uint64 `json:"mapSeed"`   // 0: maps are iterated in sorted order
	RandSeed  uint64 `json:"randSeed"`
	CPUs      int    `json:"cpus"`
	PoolDrop  uint64 `json:"poolDrop"` // one in so many items put into a sync.Pool is dropped
}

var active *Sim

// Y is called before each statement of the instrumented code.
//
//go:norace
func Y(site uint32) {
	SiteHits[site&(1<<15-1)] = 1
	budget--
	if budget <= 0 || site == watch {
		pause(site)
	}
}

// LenS and LenB stand around what is copied or handed to other packages: work which is
// done between two steps counts as one step for so many bytes or elements.
const lenStep = 8

//go:norace
func LenS[S ~string](s S) S {
	budget -= int64(len(s) / lenStep)
	return s
}

//go:norace
func LenB[S ~[]E, E any](s S) S {
	budget -= int64(len(s) / lenStep)
	return s
}

// LenN stands around a copy.
//
//go:norace
func LenN(n int) int {
	budget -= int64(n / lenStep)
	return n
}

// LenIndex and LenFound call a search, which ends where it finds something.
//
//go:norace
func LenIndex[S ~string | ~[]byte, B any](f func(S, B) int, s S, b B) int {
	i := f(s, b)
	if i < 0 {
		budget -= int64(len(s) / lenStep)
	} else {
		budget -= int64(i / lenStep)
	}
	return i
}

//go:norace
func LenFound[S ~string | ~[]byte, B any](f func(S, B) bool, s S, b B) bool {
	ok := f(s, b)
	if !ok {
		budget -= int64(len(s) / lenStep)
	}
	return ok
}

//go:norace
func pause(site uint32) {
	t := current
	if t == nil {
		budget, granted = unlimited, unlimited
		return
	}
	t.site = site
	t.settle()
	if t.opMax > 0 && t.steps-t.opFrom >= t.opMax {
		t.Hung, t.HungAt = true, site
		t.opMax = 0
		budget, granted = unlimited, unlimited
		runtime.Goexit()
	}
	t.yield(yPreempt)
}

// slice is how many steps a long operation makes between two looks at the memory.
const slice = 8_000_000

func heap() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// settle books the steps which were made since the task was resumed.
//
//go:norace
func (t *Task) settle() {
	used := granted - budget
	t.steps += used
	granted = budget
}

//go:norace
func (t *Task) yield(kind yieldKind) {
	t.yieldFn = kind
	s := active
	raceDisable()
	s.yielded <- struct{}{}
	if kind != yDone {
		<-t.resume
	}
	raceEnable()
	if t.Killed && kind != yDone {
		t.opMax = 0
		budget, granted = unlimited, unlimited
		runtime.Goexit()
	}
}

// Block lets other tasks run until cond holds. The condition is evaluated by the
// scheduler, it has to be a pure function of simulated state.
//
//go:norace
func Block(cond func() bool) {
	t := current
	if t == nil {
		if !cond() {
			panic("simrt: blocked outside of a simulation")
		}
		return
	}
	for !cond() {
		t.settle()
		t.state = stBlocked
		t.wake = cond
		t.yield(yBlock)
	}
}

// New creates a simulation.
//
//go:norace
func New(env Env) *Sim {
	s := &Sim{yielded: make(chan struct{}), Env: env, clock: env.ClockNS, mapSeed: env.MapSeed, randSt: env.RandSeed*0x9E3779B97F4A7C15 + 1, Hash: 14695981039346656037}
	return s
}

// Spawn adds a task to the simulation before it runs.
//
//go:norace
func (s *Sim) Spawn(name string, fn func()) *Task {
	t := &Task{ID: s.ids, Name: name, fn: fn, resume: make(chan struct{})}
	s.ids++
	s.tasks = append(s.tasks, t)
	s.start(t)
	return t
}

//go:norace
func (s *Sim) start(t *Task) {
	go func() {
		raceDisable()
		<-t.resume
		raceEnable()
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					t.Crashed = r
					t.Stack = string(debug.Stack())
				}
			}
			t.settle()
			raceRelease(&t.HungAt)
			t.state = stDone
			t.yield(yDone)
		}()
		if t.Killed {
			return
		}
		debug.SetPanicOnFault(true)
		t.fn()
		normal = true
	}()
}

// Go is what a go statement of the instrumented code becomes.
//
//go:norace
func Go(fn func()) {
	s := active
	if s == nil || current == nil {
		// Outside of a simulation: run it right away, which is one legal schedule.
		fn()
		return
	}
	t := &Task{ID: s.ids, Name: "go", fn: fn, resume: make(chan struct{}), helper: true, opMax: 50_000_000}
	s.ids++
	s.tasks = append(s.tasks, t)
	s.start(t)
}

// OpBegin marks the begin of an operation that may make max steps at the most.
//
//go:norace
func OpBegin(max int64) {
	t := current
	if t == nil {
		return
	}
	t.settle()
	t.opFrom = t.steps
	t.opMax = max
	if budget > max {
		budget, granted = max, max
	}
}

// OpEnd marks the end of an operation and returns how many steps it made.
//
//go:norace
func OpEnd() int64 {
	t := current
	if t == nil {
		return 0
	}
	t.settle()
	n := t.steps - t.opFrom
	t.opMax = 0
	return n
}

// HostSteps runs fn outside of a simulation and returns how many steps it made.
//
//go:norace
func HostSteps(fn func()) int64 {
	budget, granted = unlimited, unlimited
	fn()
	n := granted - budget
	budget, granted = unlimited, unlimited
	return n
}

// Policy decides who runs and for how long.
type Policy interface {
	// Next returns the index into ready of the task to run, the number of steps (0: until
	// it blocks or ends), and a site at which to yield (0: none).
	Next(s *Sim, ready []*Task) (int, int64, uint32)
	// Ended is told that a slice has ended.
	Ended(s *Sim, t *Task, preempted bool)
}

// InOp tells whether the task is in the middle of an operation.
//
//go:norace
func (t *Task) InOp() bool { return t.opMax > 0 }

//go:norace
func (t *Task) Site() uint32 { return t.site }

//go:norace
func (t *Task) Steps() int64 { return t.steps }

//go:norace
func (t *Task) Done() bool { return t.state == stDone }

//go:norace
func (t *Task) Helper() bool { return t.helper }

//go:norace
func (s *Sim) Tasks() []*Task { return s.tasks }

// Run executes the simulation until every task has ended.
//
//go:norace
func (s *Sim) Run(p Policy) {
	if active != nil {
		panic("simrt: nested simulation")
	}
	active = s
	var ready []*Task
	idle, held, ended := 0, 0, 0
	for {
		if s.CrashAt > 0 && s.Steps >= s.CrashAt {
			break
		}
		if ended > 32 {
			s.bury()
		}
		ready, ended = ready[:0], 0
		live, callers := 0, 0
		minUntil := int64(math.MaxInt64)
		for _, t := range s.tasks {
			switch t.state {
			case stDone:
				ended++
				continue
			case stBlocked:
				if t.wake() {
					t.state = stReady
				}
			case stSleeping:
				if t.until <= s.clock {
					t.state = stReady
				} else if t.until < minUntil {
					minUntil = t.until
				}
			}
			live++
			if !t.helper {
				callers++
			}
			if t.state == stReady {
				ready = append(ready, t)
			}
		}
		if live == 0 {
			break
		}
		if len(ready) == 0 {
			if callers == 0 {
				// What runs in the background has time for a while.
				if idle++; minUntil == math.MaxInt64 || idle > 100 {
					break
				}
			}
			if minUntil < math.MaxInt64 {
				s.clock = minUntil
				continue
			}
			s.Deadlock = s.describeBlocked()
			break
		}
		i, n, site := p.Next(s, ready)
		if held++; i < 0 && minUntil < math.MaxInt64 && held < 10_000 {
			s.clock = minUntil
			continue
		}
		if i < 0 {
			// The policy holds back every task which could run: they wait for one which is stalled.
			s.Deadlock = "every task that may run waits for a stalled one: " + s.describeBlocked()
			break
		}
		held = 0
		t := ready[i]
		before := t.steps
		b := unlimited
		if n > 0 {
			b = n
		}
		if t.opMax > 0 {
			if left := t.opMax - (t.steps - t.opFrom); left < b {
				b = left
			}
		}
		if t.opMax > 0 && b > slice {
			b = slice
		}
		if s.CrashAt > 0 && s.CrashAt-s.Steps < b {
			b = s.CrashAt - s.Steps
		}
		if b < 1 {
			b = 1
		}
		budget, granted = b, b
		watch = site
		current = t
		raceDisable()
		t.resume <- struct{}{}
		<-s.yielded
		raceEnable()
		current = nil
		watch = 0
		budget, granted = unlimited, unlimited
		used := t.steps - before
		s.Steps += used
		if used >= slice && t.opMax > 0 && heap() > 3<<30 {
			t.opMax = 1 // it will not end before the memory does
		}
		if t.yieldFn != yPoll {
			s.work++
		}
		pre := t.yieldFn == yPreempt
		seg := Segment{t.ID, 0}
		if pre {
			seg.N = used
			s.Hash = (s.Hash ^ uint64(t.ID+1)) * 1099511628211
			s.Hash = (s.Hash ^ uint64(t.site)) * 1099511628211
		}
		if k := len(s.Trace); k > 0 && s.Trace[k-1].T != t.ID && s.Trace[k-1].N > 0 && s.lastInOp {
			s.Switches++
		}
		s.lastInOp = t.opMax > 0
		if k := len(s.Trace); k > 0 && s.Trace[k-1].T == t.ID && s.Trace[k-1].N > 0 && pre {
			s.Trace[k-1].N += used
		} else if k > 0 && s.Trace[k-1].T == t.ID && s.Trace[k-1].N > 0 {
			s.Trace[k-1].N = 0
		} else {
			s.Trace = append(s.Trace, seg)
		}
		if s.OnSwitch != nil {
			s.OnSwitch(Switch{t.ID, t.site, t.opMax > 0})
		}
		p.Ended(s, t, pre)
	}
	// Whoever is left dies with the process.
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state != stDone {
			if t.steps > 0 {
				s.CrashedN++
			}
			if t.helper {
				s.Left++
			}
			t.Killed = true
			budget, granted = unlimited, unlimited
			current = t
			raceDisable()
			t.resume <- struct{}{}
			<-s.yielded
			raceEnable()
			current = nil
		}
	}
	for _, t := range append(s.tasks, s.buried...) {
		raceAcquire(&t.HungAt)
	}
	active = nil
}

// Work is in how many slices the tasks have done something.
func (s *Sim) Work() int64 { return s.work }

// bury takes the helpers that have ended off the list, so that it does not grow with each.
//
//go:norace
func (s *Sim) bury() {
	var tasks []*Task
	for _, t := range s.tasks {
		if t.state == stDone && t.helper {
			s.buried = append(s.buried, t)
		} else {
			tasks = append(tasks, t)
		}
	}
	s.tasks = tasks
}

//go:norace
func (s *Sim) describeBlocked() string {
	out := ""
	for _, t := range s.tasks {
		if t.state != stDone {
			out += fmt.Sprintf("[task %d %s at %s] ", t.ID, t.Name, SiteName(t.site))
		}
	}
	return out
}

// SiteName returns where a site is in the source.
func SiteName(site uint32) string {
	if int(site) < len(Sites) {
		return Sites[site]
	}
	return "?"
}
