// Package zz_simrt is the simulation runtime.  It is added to the module under
// test through a build overlay; the instrumented copies of the module's sources
// call it at every point where the real program would meet something the
// environment decides: map iteration order, time, randomness, files, exits,
// goroutine scheduling, locks, memory.
//
// Exactly one simulated task runs at a time, so the package state needs no
// locks.  Functions that touch scheduler state are marked norace: the hand-off
// between tasks is invisible to the race detector, which therefore still sees
// the tasks as concurrent.
package zz_simrt

import (
	"fmt"
	"math"
	"runtime"
	"sync/atomic"
)

// Stop reasons that unwind a simulated task.  They are never swallowed by a
// recover() in the code under test.
type (
	// Hang: the step budget of the run is used up.
	Hang struct{ Steps int64 }
	// Deep: recursion went deeper than the stack of the simulated machine.
	Deep struct{ Depth int }
	// Huge: one allocation asked for more than the simulated memory.
	Huge struct{ N int64 }
	// Exit: the program asked to exit.
	Exit struct{ Code int }
	// Crash: the simulated machine lost power or the process was killed.
	Crash struct{ At string }
	// Deadlock: no task can proceed.
	Deadlock struct{ What string }
	// Abort: another task stopped the run.
	Abort struct{}
)

func (h Hang) Error() string     { return fmt.Sprintf("step budget exhausted after %d steps", h.Steps) }
func (d Deep) Error() string     { return fmt.Sprintf("recursion depth %d", d.Depth) }
func (h Huge) Error() string     { return fmt.Sprintf("allocation of %d elements", h.N) }
func (e Exit) Error() string     { return fmt.Sprintf("exit(%d)", e.Code) }
func (c Crash) Error() string    { return "crash at " + c.At }
func (d Deadlock) Error() string { return "deadlock: " + d.What }

// Preempt makes the running task hand over at the given step.
type Preempt struct {
	Step int64 `json:"s"`
	Task int   `json:"t"`
}

// Jump moves the simulated clock at the given step.
type Jump struct {
	Step int64 `json:"s"`
	Ns   int64 `json:"ns"`
}

// Config of one simulated run.
type Config struct {
	MapMode   string // "sorted", "reverse", "shuffle", "rotate"
	MapSeed   uint64
	MapLo     int // calls outside [MapLo,MapHi) iterate sorted (MapHi 0: no bound)
	MapHi     int
	StepLimit int64
	Depth     int
	Alloc     int64
	ClockNs   int64
	ZoneSec   int
	TickNs    int64
	Jumps     []Jump
	RandSeed  uint64
	RandFail  []int // numbers of the random reads that fail (1-based)
	FS        *FS
	Preempts  []Preempt
	CrashStep int64 // 0: none
	PoolSeed  uint64
}

// Counters of one run.
type Counters struct {
	Steps      int64
	MapRanges  int
	MapElems   int
	RandReads  int
	RandFails  int
	RandBytes  int
	TimeReads  int
	ClockNs    int64
	Switches   int
	Tasks      int
	LockWaits  int
	FSOps      int
	MaxDepth   int
	MapSig     uint64
	SchedSig   uint64
	JumpsFired int
}

type task struct {
	id    int
	turn  bool // plain word: see norace
	done  bool
	depth int
	f     func()
	pan   interface{}
	stack string
	join  int32
	fs    *FS     // the disk of the task, nil: that of the run
	rnd   *uint64 // the random stream of the task, nil: that of the run
}

var (
	active  bool
	cfg     Config
	cnt     Counters
	steps   int64
	next    int64 = math.MaxInt64
	depth   int
	dead    bool
	tasks   []*task
	cur     *task
	preIdx  int
	jumpIdx int
	clockNs int64
	mapRng  uint64
	rndRng  uint64
	poolRng uint64
	disk    *FS
	aborted bool
	abortBy interface{}
	blocked int
)

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(h uint64, v uint64) uint64 {
	h ^= v
	h *= 0x100000001b3
	h ^= h >> 29
	return h
}

// Begin starts a run.
//
//go:norace
func Begin(c Config) {
	cfg = c
	cnt = Counters{MapSig: 14695981039346656037, SchedSig: 14695981039346656037}
	steps = 0
	depth = 0
	dead = false
	tasks = nil
	cur = &task{id: 0, turn: true}
	tasks = append(tasks, cur)
	preIdx, jumpIdx = 0, 0
	clockNs = c.ClockNs
	mapRng = c.MapSeed
	rndRng = c.RandSeed
	poolRng = c.PoolSeed
	disk = c.FS
	if disk == nil {
		disk = NewFS()
	}
	aborted = false
	abortBy = nil
	blocked = 0
	active = true
	arm()
}

// End closes the run and returns what it did.
//
//go:norace
func End() Counters {
	for i := 1; i < len(tasks); i++ {
		if !tasks[i].done {
			// a task the program leaked: unwind it
			aborted = true
			switchTo(tasks[i])
		}
	}
	active = false
	next = math.MaxInt64
	cnt.Steps = steps
	cnt.ClockNs = clockNs + steps*cfg.TickNs - cfg.ClockNs
	cnt.Tasks = len(tasks)
	cnt.FSOps = disk.ops
	return cnt
}

// Steps taken so far in this run.
//
//go:norace
func Steps() int64 { return steps }

// SetStepLimit changes the step budget: limit more steps from now on.
//
//go:norace
func SetStepLimit(limit int64) {
	cfg.StepLimit = steps + limit
	arm()
}

// CurrentFS is the disk of this run.
//
//go:norace
func CurrentFS() *FS { return disk }

//go:norace
func fsCur() *FS {
	if cur != nil && cur.fs != nil {
		return cur.fs
	}
	return disk
}

//go:norace
func rndCur() *uint64 {
	if cur != nil && cur.rnd != nil {
		return cur.rnd
	}
	return &rndRng
}

// Revive undoes the effect of a crash or exit on the disk: the next process starts.
//
//go:norace
func Revive() { dead = false; depth = 0 }

// SetCrashStep arms a crash n steps from now (0: none).
//
//go:norace
func SetCrashStep(n int64) {
	if n <= 0 {
		cfg.CrashStep = 0
	} else {
		cfg.CrashStep = steps + n
	}
	arm()
}

//go:norace
func arm() {
	n := int64(math.MaxInt64)
	if cfg.StepLimit > 0 && cfg.StepLimit < n {
		n = cfg.StepLimit
	}
	if cfg.CrashStep > 0 && cfg.CrashStep < n {
		n = cfg.CrashStep
	}
	if preIdx < len(cfg.Preempts) && cfg.Preempts[preIdx].Step < n {
		n = cfg.Preempts[preIdx].Step
	}
	if jumpIdx < len(cfg.Jumps) && cfg.Jumps[jumpIdx].Step < n {
		n = cfg.Jumps[jumpIdx].Step
	}
	next = n
}

// Y is the yield point at function entries and loop iterations.
//
//go:norace
func Y() {
	steps++
	if steps >= next {
		slow()
	}
}

//go:norace
func slow() {
	if !active {
		next = math.MaxInt64
		return
	}
	if aborted && cur.id != 0 {
		panic(Abort{})
	}
	for jumpIdx < len(cfg.Jumps) && steps >= cfg.Jumps[jumpIdx].Step {
		clockNs += cfg.Jumps[jumpIdx].Ns
		cnt.JumpsFired++
		jumpIdx++
	}
	if cfg.CrashStep > 0 && steps >= cfg.CrashStep {
		cfg.CrashStep = 0
		arm()
		dead = true
		panic(Crash{At: fmt.Sprintf("step %d", steps)})
	}
	if cfg.StepLimit > 0 && steps >= cfg.StepLimit {
		cfg.StepLimit = 0
		arm()
		panic(Hang{Steps: steps})
	}
	want := -1
	for preIdx < len(cfg.Preempts) && steps >= cfg.Preempts[preIdx].Step {
		want = cfg.Preempts[preIdx].Task
		preIdx++
	}
	arm()
	if want >= 0 && len(tasks) > 1 {
		switchTo(pick(want))
	}
}

// pick the first live task at or after want (never task 0 while others live).
//
//go:norace
func pick(want int) *task {
	n := len(tasks)
	for i := 0; i < n; i++ {
		t := tasks[(want+i)%n]
		if !t.done && t.id != 0 && t != cur {
			return t
		}
	}
	if !cur.done {
		return cur
	}
	return tasks[0]
}

//go:norace
func switchTo(t *task) {
	if t == cur {
		return
	}
	me := cur
	me.depth = depth
	depth = t.depth
	cur = t
	cnt.Switches++
	cnt.SchedSig = mix(cnt.SchedSig, uint64(steps)<<8|uint64(t.id))
	me.turn = false
	t.turn = true
	if me.done {
		return
	}
	waitTurn(me)
	if aborted && me.id != 0 {
		panic(Abort{})
	}
}

//go:norace
func waitTurn(t *task) {
	for !t.turn {
		runtime.Gosched()
	}
}

// Spawn adds a task; it does not run until Run.
//
//go:norace
func spawn(f func(), disk *FS, rnd *uint64) *task {
	t := &task{id: len(tasks), f: f, fs: disk, rnd: rnd}
	tasks = append(tasks, t)
	go t.main()
	return t
}

//go:norace
func (t *task) main() {
	waitTurn(t)
	t.body()
	t.finish()
}

func (t *task) body() {
	defer t.caught()
	t.check()
	t.f()
}

//go:norace
func (t *task) check() {
	if aborted {
		panic(Abort{})
	}
}

//go:norace
func (t *task) caught() {
	if r := recover(); r != nil {
		if _, ok := r.(Abort); !ok {
			t.pan = r
			t.stack = stackOf()
			if !aborted {
				aborted = true
				abortBy = r
			}
		}
	}
}

//go:norace
func (t *task) finish() {
	t.release()
	t.done = true
	switchTo(pick(t.id + 1))
}

// release and acquire order everything a finished task did before what the
// joining task does next (the only such edge the runtime adds).
func (t *task) release() { atomic.AddInt32(&t.join, 1) }
func (t *task) acquire() { atomic.LoadInt32(&t.join) }

// Go starts a task of the program under test.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	spawn(f, cur.fs, cur.rnd)
	blocked = 0
}

// RunTasks runs the functions as simulated threads until all have finished.
// It returns the panic value and stack of each.
// Every task has its own disk and its own random stream.
func RunTasks(fns []func()) ([]interface{}, []string) {
	first := startTasks(fns)
	_ = first
	return collect(first, len(fns))
}

//go:norace
func startTasks(fns []func()) int {
	first := len(tasks)
	for _, f := range fns {
		seed := cfg.RandSeed
		spawn(f, NewFS(), &seed)
	}
	for {
		all := true
		for _, t := range tasks[1:] {
			if !t.done {
				all = false
				break
			}
		}
		if all {
			break
		}
		// task 0 only runs again when every other task is done or the run is aborted
		switchTo(pick(first))
	}
	return first
}

//go:norace
func collect(first, n int) ([]interface{}, []string) {
	var ps []interface{}
	var ss []string
	for _, t := range tasks[first : first+n] {
		t.acquire()
		ps = append(ps, t.pan)
		ss = append(ss, t.stack)
	}
	return ps, ss
}

// Blocked is called in a loop by an operation that cannot proceed yet.
//
//go:norace
func Blocked(what string) {
	if !active {
		runtime.Gosched()
		return
	}
	steps++
	cnt.LockWaits++
	blocked++
	if blocked > 100000 {
		panic(Deadlock{What: what})
	}
	if steps >= next {
		slow()
	}
	// round robin over all live tasks, task 0 included when it is the one waiting
	n := len(tasks)
	for i := 1; i < n; i++ {
		t := tasks[(cur.id+i)%n]
		if !t.done && t != cur {
			switchTo(t)
			return
		}
	}
	panic(Deadlock{What: what})
}

// Progress tells the deadlock detector that something moved.
//
//go:norace
func Progress() { blocked = 0 }

func stackOf() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}

// Enter and Leave bound the recursion depth.
//
//go:norace
func Enter() {
	depth++
	if depth > cnt.MaxDepth {
		cnt.MaxDepth = depth
		if cfg.Depth > 0 && depth > cfg.Depth && active {
			depth--
			panic(Deep{Depth: depth + 1})
		}
	}
	steps++
	if steps >= next {
		slow2()
	}
}

//go:norace
func slow2() {
	// slow may panic before the caller's deferred Leave is registered
	d := depth
	depth = d - 1
	slow()
	depth = d
}

//go:norace
func Leave() { depth-- }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Sz checks the size of an allocation against the simulated memory.
func Sz[T integer](n T) T {
	if cfg.Alloc > 0 && active {
		if n > 0 && uint64(n) > uint64(cfg.Alloc) {
			panic(Huge{N: int64(n)})
		}
	}
	return n
}

// Recover wraps recover() in the code under test: simulator stops pass through.
func Recover(r interface{}) interface{} {
	switch r.(type) {
	case Hang, Deep, Huge, Exit, Crash, Deadlock, Abort:
		panic(r)
	}
	return r
}
