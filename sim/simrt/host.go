//go:build go1.24

package simrt

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"time"
)

// What the host looks like when no simulation is running.
var idleEnv = Env{ClockNS: 1_600_000_000_000_000_000, CPUs: 8}
var idleReads int64

// SetIdleEnv sets the host for code which runs outside of a simulation.
//
//go:norace
func SetIdleEnv(e Env) {
	idleEnv = e
	idleReads = 0
	mapCounter = 0
	idleRand = e.RandSeed*0x9E3779B97F4A7C15 + 1
	time.Local = time.FixedZone("SIM", e.Zone)
}

var mapCounter uint64
var idleRand uint64

// Reads counts uses of the host by the code.
var Reads struct{ Clock, Rand, Map, Env, Pool int64 }

//go:norace
func env() *Env {
	if active != nil {
		return &active.Env
	}
	return &idleEnv
}

//go:norace
func nowNS() int64 {
	Reads.Clock++
	e := env()
	idleReads++
	var jump int64
	if e.JumpEvery > 0 && idleReads%e.JumpEvery == 0 {
		jump = e.JumpNS
	}
	if active != nil {
		// Timers go by a clock which does not jump.
		active.clock += e.ClockStep
		active.jumped += jump
		return active.clock + active.jumped
	}
	idleEnv.ClockNS += e.ClockStep + jump
	return idleEnv.ClockNS
}

// ClockNS returns the simulated time without advancing it.
//
//go:norace
func (s *Sim) ClockNS() int64 { return s.clock }

func Now() time.Time                  { return time.Unix(0, nowNS()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	t := current
	if t == nil || active == nil {
		idleEnv.ClockNS += int64(d)
		return
	}
	t.settle()
	t.state = stSleeping
	t.until = active.clock + int64(d)
	t.yield(yBlock)
}

func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() { Sleep(d); ch <- Now() })
	return ch
}

//go:norace
func RandU64() uint64 {
	Reads.Rand++
	p := &idleRand
	if active != nil {
		p = &active.randSt
	}
	*p += 0x9E3779B97F4A7C15
	z := *p
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func RandInt() int                { return int(RandU64() >> 1) }
func RandIntn(n int) int          { return int(RandU64()>>1) % n }
func RandInt63() int64            { return int64(RandU64() >> 1) }
func RandInt63n(n int64) int64    { return int64(RandU64()>>1) % n }
func RandInt31() int32            { return int32(RandU64() >> 33) }
func RandInt31n(n int32) int32    { return int32(RandU64()>>33) % n }
func RandUint32() uint32          { return uint32(RandU64()) }
func RandUint64() uint64          { return RandU64() }
func RandFloat64() float64        { return float64(RandU64()>>11) / (1 << 53) }
func RandFloat32() float32        { return float32(RandU64()>>40) / (1 << 24) }
func RandIntN(n int) int          { return RandIntn(n) }
func RandInt64() int64            { return RandInt63() }
func RandInt64N(n int64) int64    { return RandInt63n(n) }
func RandInt32() int32            { return RandInt31() }
func RandInt32N(n int32) int32    { return RandInt31n(n) }
func RandUint32N(n uint32) uint32 { return RandUint32() % n }
func RandUint64N(n uint64) uint64 { return RandU64() % n }
func RandUintN(n uint) uint       { return uint(RandU64()) % n }
func RandPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := RandIntn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}

// envWords are what variables of the environment are set to on some hosts.
var envWords = []string{"1", "true", "on", "1", "yes", "0", "false", "strict", "10", "legacy", ""}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }
func LookupEnv(k string) (string, bool) {
	Reads.Env++
	e := env()
	switch k {
	case "TZ":
		return fmt.Sprintf("SIM%+d", e.Zone/3600), true
	case "LANG", "LC_ALL":
		return []string{"C", "de_DE.UTF-8", "tr_TR.UTF-8"}[e.RandSeed%3], true
	case "HOSTNAME":
		return fmt.Sprintf("host%d", e.RandSeed%97), true
	}
	// Any other variable is set on some hosts only.
	if e.RandSeed%2 == 1 {
		return envWords[e.RandSeed/2%uint64(len(envWords))], true
	}
	return "", false
}
func Hostname() (string, error) { Reads.Env++; return fmt.Sprintf("host%d", env().RandSeed%97), nil }
func Getpid() int               { Reads.Env++; return 1 + int(env().RandSeed%30000) }
func Getuid() int               { Reads.Env++; return int(env().RandSeed % 3 * 500) }
func Environ() []string         { return []string{"TZ=" + Getenv("TZ"), "LANG=" + Getenv("LANG")} }
func Getwd() (string, error)    { Reads.Env++; return fmt.Sprintf("/sim%d", env().RandSeed%7), nil }
func TempDir() string           { d, _ := Getwd(); return d }

// ReadFile finds a file on some hosts only.
func ReadFile(name string) ([]byte, error) {
	Reads.Env++
	if env().RandSeed%2 == 1 {
		return []byte("1\n"), nil
	}
	return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
}

func Getpagesize() int { Reads.Env++; return 4096 << (env().RandSeed % 3 * 2) }

// Stat finds any file on some hosts, and none on others.
func Stat(name string) (os.FileInfo, error) {
	Reads.Env++
	if env().RandSeed%2 == 1 {
		return os.Stat("/")
	}
	return nil, &os.PathError{Op: "stat", Path: name, Err: os.ErrNotExist}
}

// ReadMemStats tells of as much memory and as many collections as the host has seen.
func ReadMemStats(m *runtime.MemStats) {
	Reads.Env++
	n := env().RandSeed*0x9E3779B97F4A7C15 + 1
	*m = runtime.MemStats{NumGC: uint32(n >> 50), Alloc: n >> 28, Sys: n >> 27, HeapObjects: n >> 36, Mallocs: n >> 30, Frees: n >> 31}
	m.TotalAlloc, m.HeapAlloc, m.HeapInuse, m.HeapSys, m.NextGC = m.Alloc, m.Alloc, m.Alloc, m.Sys, m.Sys
}

// LoadLocation fails on hosts that have no time zone database.
func LoadLocation(name string) (*time.Location, error) {
	switch name {
	case "", "UTC", "Local":
		return time.LoadLocation(name)
	}
	Reads.Env++
	if env().RandSeed%4 == 0 {
		return nil, errors.New("unknown time zone " + name)
	}
	return time.LoadLocation(name)
}

func NumCPU() int {
	Reads.Env++
	if n := env().CPUs; n > 0 {
		return n
	}
	return 8
}
func GOMAXPROCS(int) int { return NumCPU() }
func NumGoroutine() int {
	Reads.Env++
	return 1 + int(env().RandSeed%7)
}

// Gosched is a point at which the scheduler may switch.
//
//go:norace
func Gosched() {
	if current == nil {
		runtime.Gosched()
		return
	}
	current.settle()
	current.yield(yPreempt)
}

// Entry is one entry of a map that is iterated.
type Entry[K comparable, V any] struct {
	Key K
	m   map[K]V
}

func (e Entry[K, V]) Val() V     { return e.m[e.Key] }
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.Key]; return ok }

// MapRange returns the entries of a map in the order in which this host iterates it.
func MapRange[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	if len(m) == 0 {
		return nil
	}
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{k, m})
	}
	sortEntries(out)
	seed := nextMapSeed()
	if seed != 0 {
		r := Rng{seed}
		for i := len(out) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

//go:norace
func nextMapSeed() uint64 {
	Reads.Map++
	e := env()
	if e.MapSeed == 0 {
		return 0
	}
	mapCounter++
	return e.MapSeed*0x9E3779B97F4A7C15 + mapCounter*0xD1B54A32D192ED03
}

func sortEntries[K comparable, V any](es []Entry[K, V]) {
	if len(es) < 2 {
		return
	}
	switch any(es[0].Key).(type) {
	case string:
		sort.Slice(es, func(i, j int) bool { return any(es[i].Key).(string) < any(es[j].Key).(string) })
	case int:
		sort.Slice(es, func(i, j int) bool { return any(es[i].Key).(int) < any(es[j].Key).(int) })
	default:
		ss := make(map[K]string, len(es))
		for _, e := range es {
			ss[e.Key] = fmt.Sprintf("%v", e.Key)
		}
		sort.Slice(es, func(i, j int) bool { return ss[es[i].Key] < ss[es[j].Key] })
	}
}

// Send and Recv replace the channel operations of the instrumented code.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		sent := false
		for !sent {
			select {
			case ch <- v:
				sent = true
			default:
				waitChan(func() bool { return len(ch) < cap(ch) })
			}
		}
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	for {
		select {
		case v, ok := <-ch:
			return v, ok
		default:
			waitPoll()
		}
	}
}

func waitChan(cond func() bool) { Block(cond) }

// waitPoll lets somebody else run, until another task has done something that may
// change what the task waits for. Tasks that only look again and again whether they
// may go on do not keep each other busy.
//
//go:norace
func waitPoll() {
	t := current
	if t == nil {
		panic("simrt: blocked outside of a simulation")
	}
	s := active
	t.settle()
	if t.steps != t.lastPoll {
		s.work++
	}
	saw := s.work
	t.wake = func() bool { return s.work != saw }
	t.state = stBlocked
	t.yield(yPoll)
	t.settle()
	t.lastPoll = t.steps
}

// Poll is called by select statements that have to wait.
func Poll() { waitPoll() }

// Turn tells which clause of a select statement is tried next.
type Turn struct {
	order []int
	k     int
}

// Select begins a select statement with n clauses besides the default.
//
//go:norace
func Select(n int) *Turn {
	t := &Turn{order: make([]int, n)}
	t.shuffle()
	return t
}

//go:norace
func (t *Turn) shuffle() {
	for i := range t.order {
		t.order[i] = i
	}
	s := active
	if s == nil {
		return
	}
	for i := len(t.order) - 1; i > 0; i-- {
		s.selects++
		r := Rng{s.Env.RandSeed ^ s.selects*0xD1B54A32D192ED03}
		j := r.Intn(i + 1)
		t.order[i], t.order[j] = t.order[j], t.order[i]
	}
}

//go:norace
func (t *Turn) At(i int) bool { return t.k < len(t.order) && t.order[t.k] == i }

// More goes on to the next clause. When none is ready it waits if it may.
func (t *Turn) More(wait bool) bool {
	if t.k++; t.k < len(t.order) {
		return true
	}
	if wait {
		waitPoll()
		t.k = 0
		t.shuffle()
	}
	return wait
}

// SelSend and SelRecv are the operations of the clauses of a select statement.
type SelSend[T any] struct {
	ch chan<- T
	V  T
}

func SendOp[T any](ch chan<- T, v T) SelSend[T] { return SelSend[T]{ch, v} }

func (s SelSend[T]) Chan(on bool) chan<- T {
	if on {
		return s.ch
	}
	return nil
}

type SelRecv[T any] struct{ ch <-chan T }

func RecvOp[T any](ch <-chan T) SelRecv[T] { return SelRecv[T]{ch} }

func (s SelRecv[T]) Chan(on bool) <-chan T {
	if on {
		return s.ch
	}
	return nil
}

// PoolDrops tells whether the host drops an item which is put into a sync.Pool.
//
//go:norace
func PoolDrops() bool {
	Reads.Pool++
	e := env()
	if e.PoolDrop == 0 {
		return false
	}
	return RandU64()%e.PoolDrop == 0
}
