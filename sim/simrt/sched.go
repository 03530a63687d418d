package simrt

import (
	"bytes"
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"runtime"
	"runtime/debug"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

type State uint8

const (
	Ready State = iota
	Running
	Blocked // parked on a key (simulated lock, simulated I/O)
	Native  // really blocked inside a channel operation or sleep
	Done
)

// Task is one simulated thread of control. Exactly one task runs at a time.
type Task struct {
	ID     int
	Name   string
	St     State
	Key    any    // what a Blocked task waits for
	Why    string // description of the wait
	Site   uint32 // last scheduling point passed
	Local  any    // owner's context, inherited by tasks it starts
	Panic  any
	Stack  string
	Daemon bool // not expected to finish (server side)
	Lib    bool // started by the code under test

	g       uintptr
	gid     uint64
	resume  chan struct{}
	abortCh chan struct{}
	fuel    int
	abort   bool
	NYields int
	rnd     *rand.Rand
	rnd2    *randv2.Rand
	// Reported marks a panic already reported.
	Reported bool
}

type Sched struct {
	mu    sync.Mutex
	Tasks []*Task
	Cur   *Task
	Str   *Stream // schedule decisions

	Steps   int
	Hash    uint64
	Switch  uint64 // hash of the preemption sequence only
	Tracing bool
	Trace   []string
	// OnAnyStep is called by the main loop between steps.
	Picks int
	quiet bool // a goroutine that is no task is inside the network

	pub, base uint64
}

// Begin orders what was done so far before everything the tasks do.
func (s *Sched) Begin() { ReleaseMerge(unsafe.Pointer(&s.base)) }

// S is the scheduler of the run in progress; one run at a time per process.
var S *Sched

func NewSched(str *Stream) *Sched {
	return &Sched{Str: str, Hash: 14695981039346656037, Switch: 14695981039346656037}
}

func (s *Sched) mix(h *uint64, v uint64) {
	for i := 0; i < 8; i++ {
		*h = (*h ^ (v & 0xff)) * 1099511628211
		v >>= 8
	}
}

// Ev records one event of the execution in the run's hash and, when tracing, as text.
func (s *Sched) Ev(format string, args ...any) {
	Hide()
	defer Unhide()
	str := fmt.Sprintf(format, args...)
	for i := 0; i < len(str); i++ {
		s.Hash = (s.Hash ^ uint64(str[i])) * 1099511628211
	}
	if s.Tracing {
		s.Trace = append(s.Trace, fmt.Sprintf("%6d t=%-10s %s", s.Steps, time.Since(Epoch), str))
	}
}

// Epoch is the instant every synctest bubble starts at.
var Epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// Spawn creates a task; it runs when first scheduled.
func (s *Sched) Spawn(name string, local any, f func()) *Task {
	t := &Task{Name: name, Local: local, resume: make(chan struct{}), abortCh: make(chan struct{}), St: Ready}
	Hide()
	s.mu.Lock()
	t.ID = len(s.Tasks)
	s.Tasks = append(s.Tasks, t)
	s.mu.Unlock()
	Unhide()
	go func() {
		t.g, t.gid = getg(), goid()
		Hide()
		<-t.resume
		Unhide()
		Acquire(unsafe.Pointer(&s.base))
		defer Publish()
		defer func() {
			if r := recover(); r != nil {
				t.Panic = r
				t.Stack = string(debug.Stack())
			}
			t.St = Done
		}()
		if t.abort {
			return
		}
		f()
	}()
	return t
}

// Step lets t run until it has passed fuel scheduling points, blocks or ends.
func (s *Sched) Step(t *Task, fuel int) {
	s.Steps++
	s.mix(&s.Switch, uint64(t.ID)<<32|uint64(t.Site))
	t.fuel = fuel
	t.St = Running
	s.Cur = t
	Hide()
	t.resume <- struct{}{}
	synctest.Wait()
	Unhide()
	Acquire(unsafe.Pointer(&s.pub))
	s.Cur = nil
	if t.St == Running {
		t.St = Native
	}
}

// Abort ends every task. It returns the tasks stuck in operations nothing can end.
func (s *Sched) Abort() (stuck []*Task) {
	countRaces()
	for round := 0; round < 50; round++ {
		any := false
		stuck = nil
		for i := 0; i < len(s.Tasks); i++ {
			t := s.Tasks[i]
			if !t.abort {
				t.abort = true
				Hide()
				close(t.abortCh)
				synctest.Wait()
				Unhide()
			}
			switch t.St {
			case Ready, Blocked:
				any = true
				s.Step(t, 1<<30)
			case Native, Running:
				stuck = append(stuck, t)
			}
		}
		if !any {
			break
		}
	}
	return stuck
}

func (t *Task) park(st State) {
	if t.abort {
		runtime.Goexit()
	}
	t.St = st
	Hide()
	<-t.resume
	Unhide()
	if t.abort {
		runtime.Goexit()
	}
}

// Publish orders what the running task has done so far before what the main loop does next: the results of a
// finished call are there for the oracles.
func Publish() {
	if s := S; s != nil {
		ReleaseMerge(unsafe.Pointer(&s.pub))
	}
}

// Current returns the running task, or nil outside of one.
func Current() *Task {
	if S == nil {
		return nil
	}
	return S.Cur
}

// Y is a scheduling point; the instrumented code passes one before every statement.
func Y(site uint32) {
	s := S
	if s == nil {
		return
	}
	t := s.Cur
	if t == nil || s.quiet {
		return
	}
	t.NYields++
	t.Site = site
	t.fuel--
	if t.fuel > 0 || t.abort {
		return
	}
	t.park(Ready)
}

func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	return number(b[len("goroutine "):n])
}

func number(b []byte) (x uint64) {
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		x = x*10 + uint64(c-'0')
	}
	return x
}

// Enter is called on entry into the simulated network. Goroutines of the standard library (crypto/tls ends a
// handshake whose context is done from one) are no tasks: they act at once, on behalf of the task that started
// them, and Enter returns what ends that. A task that got out of a wait inside the standard library takes its turn.
func Enter() (leave func()) {
	s := S
	if s == nil || s.quiet {
		return nil
	}
	g := getg()
	if s.Cur != nil && s.Cur.g == g {
		return nil
	}
	for _, t := range s.Tasks {
		if t.g == g && t.St != Done {
			if t.St == Native {
				t.park(Ready)
			}
			return nil
		}
	}
	buf := make([]byte, 8192)
	buf = buf[:runtime.Stack(buf, false)]
	var by *Task
	if i := bytes.LastIndex(buf, []byte(" in goroutine ")); i >= 0 {
		id := number(buf[i+len(" in goroutine "):])
		for _, t := range s.Tasks {
			if t.gid == id {
				by = t
			}
		}
	}
	cur := s.Cur
	s.Cur, s.quiet = by, true
	return func() { s.Cur, s.quiet = cur, false }
}

// Block parks the current task until Wake(key).
func Block(key any, why string) {
	t := Current()
	if t == nil {
		panic("simrt: blocking operation outside a task: " + why)
	}
	t.Key, t.Why = key, why
	t.park(Blocked)
	t.Key, t.Why = nil, ""
}

// Wake makes every task blocked on key ready again.
func Wake(key any) {
	if S == nil {
		return
	}
	for _, t := range S.Tasks {
		if t.St == Blocked && t.Key == key {
			t.St = Ready
		}
	}
}

// Go stands for the go statement.
func Go(f func()) {
	local, name := inherit()
	goWith(name, local, f)
}

func inherit() (local any, name string) {
	if t := Current(); t != nil {
		return t.Local, t.Name + ".go"
	}
	return nil, "go"
}

func goWith(name string, local any, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	marked(func() { s.Spawn(name, local, f).Lib = true })
}

// Tok brackets an operation that may really block.
type Tok struct{ t *Task }

func Before() Tok { return Tok{Current()} }

// Abort is ready once the run is over; it is one more case of every blocking operation.
func (k Tok) Abort() <-chan struct{} {
	if k.t == nil {
		return nil
	}
	return k.t.abortCh
}

// Die ends the task of an aborted run.
func (k Tok) Die() { runtime.Goexit() }

func (k Tok) After() {
	t := k.t
	if t == nil {
		return
	}
	if t.abort {
		runtime.Goexit()
	}
	if t.St == Native {
		t.park(Ready)
	}
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	k := Before()
	Y(0)
	select {
	case v, ok := <-ch:
		k.After()
		return v, ok
	case <-k.Abort():
		k.Die()
		panic("unreachable")
	}
}

// RecvCase and SendCase are the cases of a rewritten select.
type RecvCase[T any] struct {
	C  <-chan T
	V  T
	OK bool
}

func NewRecv[T any](c <-chan T) *RecvCase[T] { return &RecvCase[T]{C: c} }

func (r *RecvCase[T]) Try() bool {
	select {
	case r.V, r.OK = <-r.C:
		return true
	default:
		return false
	}
}

type SendCase[T any] struct {
	C chan<- T
	V T
}

func NewSend[T any](c chan<- T) *SendCase[T] { return &SendCase[T]{C: c} }

func (s *SendCase[T]) Val(v T) *SendCase[T] { s.V = v; return s }

func (s *SendCase[T]) Try() bool {
	select {
	case s.C <- s.V:
		return true
	default:
		return false
	}
}

// Send performs the send statement.
func (s *SendCase[T]) Send() {
	k := Before()
	Y(0)
	select {
	case s.C <- s.V:
		k.After()
	case <-k.Abort():
		k.Die()
	}
}

// Select tries the cases in an order the scheduler decides and returns the one that happened, or -1.
func Select(cases ...interface{ Try() bool }) int {
	Y(0)
	n := len(cases)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + Pick(n-i)
		order[i], order[j] = order[j], order[i]
		if cases[order[i]].Try() {
			return order[i]
		}
	}
	if n > 0 && cases[order[n-1]].Try() {
		return order[n-1]
	}
	return -1
}

func Sleep(d time.Duration) {
	if d <= 0 {
		Y(0)
		return
	}
	Recv2(time.NewTimer(d).C)
}

func Gosched() { Y(0) }

// Pick decides which ready case of a select is tried first.
func Pick(n int) int {
	s := S
	if s == nil || s.Cur == nil {
		return 0
	}
	s.Picks++
	return s.draw(n)
}

func (s *Sched) draw(n int) (v int) {
	marked(func() { v = s.Str.N(n) })
	return v
}

// Forever stands for select{}.
func Forever() {
	k := Before()
	<-k.Abort()
	k.Die()
}
