// Package vs is a controlled scheduler: it runs the goroutines of the program
// under test one at a time, decides at every synchronisation operation which
// one continues, owns virtual time, and records every decision it takes, so
// that an explorer can enumerate all executions within a deviation bound.
//
// Every function of this package is compiled without race instrumentation
// (the build inserts go:norace), and hand-offs between goroutines use raw
// runtime semaphores, so that the scheduler adds no happens-before edge and
// the race detector still sees the program's own synchronisation only.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// Waiter is a condition a thread blocks on.
type Waiter interface{ Enabled() bool }

type Thread struct {
	ID   int
	Name string

	sem    uint32
	w      Waiter // nil: enabled
	idle   bool   // enabled only when nothing else is
	parked bool   // held back until nothing else can run
	done   bool
	what   string

	// channel rendezvous
	sel   *selState
	site  uintptr         // of the last select with a choice
	sites map[uintptr]int // what it took, by site

	joinTag byte // address used for happens-before of join
	start   func()
}

func (t *Thread) Enabled() bool { return t.done } // as a Waiter: join

const (
	OK        = "ok"
	Deadlock  = "deadlock"
	Crash     = "crash"
	StepLimit = "steplimit"
	Diverged  = "diverged"
)

// Dev is one deviation from the default decision.
type Dev struct {
	Pos uint32
	Alt uint16
	Sig uint16
}

// PointRec describes one recorded decision of an execution.
type PointRec struct {
	N    uint16
	Free bool // alternatives cost nothing
	Sig  uint16
}

// Config of an execution.
type Config struct {
	FreeBlocked bool // a switch away from a blocked thread costs nothing (preemption bounding)
	EarlyTimers bool // the earliest timer may fire although threads can run (one deviation)
	NoPark      bool // no thread is held back until nothing else can run (one deviation)
	MaxSteps    int
	Trace       bool
	NoPoints    bool // only data choices are recorded as decisions (sequential harness)
	KeepGoing   bool // a deadlock while main is blocked is the only one reported (default)
}

type Exec struct {
	cfg     Config
	threads []*Thread
	cur     *Thread
	now     int64
	timers  []*Timer
	tseq    int64
	devs    []Dev
	nextDev int
	points  []PointRec
	steps   int

	aborting bool
	abortOps int
	outcome  string
	msg      string
	fails    []string
	trace    []string
	chans    []*chanState
	finish   uint32
	log      []any
	hash     uint64
	Locals   []local
	ptrs     []uintptr
	mute     int
	parked   int
}

type local struct {
	key string
	val any
}

// S is the execution in progress (nil outside of one).
var S *Exec

const epoch = 1_700_000_000 * int64(time.Second)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

// Result of one execution.
type Result struct {
	Outcome string
	Msg     string
	Fails   []string
	Points  []PointRec
	Steps   int
	Trace   []string
	Threads int
	Hash    uint64
	Leaked  []string
	Races   int
}

// Run executes body under the scheduler with the given deviations.
func Run(cfg Config, devs []Dev, body func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 300000
	}
	e := &Exec{cfg: cfg, devs: devs, now: epoch, hash: 14695981039346656037}
	e.points = make([]PointRec, 0, 256)
	S = e
	resetHooks()
	t := e.newThread("main", body)
	e.cur = t
	races0 := raceErrors()
	go threadMain(t)
	semrelease(&t.sem, true, 0)
	semacquire(&e.finish)
	// The execution has ended: unwind the remaining threads one by one.
	if e.outcome == "" {
		e.outcome = OK
	}
	var leaked []string
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		leaked = append(leaked, fmt.Sprintf("t%d(%s) at %s", t.ID, t.Name, t.what))
		e.abortOps = 0
		e.cur = t
		semrelease(&t.sem, true, 0)
		semacquire(&e.finish)
	}
	if e.nextDev < len(e.devs) && e.outcome == OK && len(e.fails) == 0 {
		e.outcome, e.msg = Diverged, fmt.Sprintf("deviation at point %d never reached (%d points)", e.devs[e.nextDev].Pos, len(e.points))
	}
	res := &Result{Outcome: e.outcome, Msg: e.msg, Fails: e.fails, Points: e.points, Steps: e.steps,
		Trace: e.trace, Threads: len(e.threads), Hash: e.hash, Leaked: leaked, Races: raceErrors() - races0}
	S = nil
	return res
}

func (e *Exec) newThread(name string, f func()) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, start: f, what: "start"}
	e.threads = append(e.threads, t)
	return t
}

type abortToken struct{}

func threadMain(t *Thread) {
	semacquire(&t.sem)
	e := S
	defer threadExit(e, t)
	if e.aborting {
		return
	}
	callBody(t.start)
}

//go:noinline
func callBody(f func()) { f() }

func threadExit(e *Exec, t *Thread) {
	if r := recover(); r != nil {
		if !e.aborting {
			e.crash(fmt.Sprintf("panic: %v", r), string(debug.Stack()))
		}
	}
	t.done = true
	raceRelease(unsafe.Pointer(&t.joinTag))
	if e.aborting {
		semrelease(&e.finish, true, 0)
		return
	}
	if t.ID == 0 {
		e.end(OK, "")
		semrelease(&e.finish, true, 0)
		return
	}
	t.what = "exit"
	n := e.pick(nil)
	if n == nil {
		semrelease(&e.finish, true, 0)
		return
	}
	e.cur = n
	semrelease(&n.sem, true, 0)
}

func (e *Exec) end(outcome, msg string) {
	if e.outcome == "" {
		e.outcome, e.msg = outcome, msg
	}
	e.aborting = true
}

func (e *Exec) crash(msg, stack string) {
	e.end(Crash, msg+"\n"+stack)
}

// Fatal reports what would be a fatal runtime error of the program.
func Fatal(msg string) {
	e := S
	if e == nil {
		panic(msg)
	}
	if e.aborting {
		return
	}
	e.crash("fatal error: "+msg, string(debug.Stack()))
	leave(e)
}

// leave ends the current thread in an execution that is over.
func leave(e *Exec) {
	runtime.Goexit()
}

// enabledList computes the enabled threads in canonical order.
func (e *Exec) enabledList(cur *Thread, out []*Thread) []*Thread {
	start := 0
	if cur != nil {
		if !cur.done && !cur.idle && !cur.parked && (cur.w == nil || cur.w.Enabled()) {
			out = append(out, cur)
		}
		start = cur.ID + 1
	} else if e.cur != nil {
		start = e.cur.ID + 1
	}
	n := len(e.threads)
	for k := 0; k < n; k++ {
		t := e.threads[(start+k)%n]
		if t == cur || t.done || t.idle || t.parked {
			continue
		}
		if t.w == nil || t.w.Enabled() {
			out = append(out, t)
		}
	}
	return out
}

// pick chooses the next thread; cur is the thread giving up control (nil when it exits).
func (e *Exec) pick(cur *Thread) *Thread {
	var buf [24]*Thread
	for {
		if e.aborting {
			return nil
		}
		e.steps++
		if e.steps > e.cfg.MaxSteps {
			e.end(StepLimit, e.describe())
			return nil
		}
		en := e.enabledList(cur, buf[:0])
		if len(en) == 0 {
			if e.parked > 0 {
				for _, t := range e.threads {
					t.parked = false
				}
				e.parked = 0
				continue
			}
			for _, t := range e.threads {
				if t.idle && !t.done {
					return t
				}
			}
			if e.fireTimers() {
				continue
			}
			e.end(Deadlock, e.describe())
			return nil
		}
		n := len(en)
		park := n > 1 && !e.cfg.NoPark
		if park {
			n++
		}
		early := false
		if e.cfg.EarlyTimers && len(e.timers) > 0 {
			n++
			early = true
		}
		if n == 1 {
			return en[0]
		}
		free := e.cfg.FreeBlocked && (cur == nil || en[0] != cur) && !early
		if e.cfg.NoPoints || e.mute > 0 {
			return en[0]
		}
		c := e.decide(n, free, uint16(en[0].ID)<<8|uint16(n))
		if e.aborting {
			return nil
		}
		if early && c == n-1 {
			e.fireTimer()
			continue
		}
		if park && c == len(en) {
			e.parked++
			en[0].parked = true
			e.tracef("-- point %d: t%d(%s) is held back", len(e.points)-1, en[0].ID, en[0].Name)
			if en[0] == cur {
				cur = nil
			}
			return en[1]
		}
		if e.cfg.Trace && c != 0 {
			e.tracef("-- point %d: switch to t%d(%s) instead of t%d", len(e.points)-1, en[c].ID, en[c].Name, en[0].ID)
		}
		return en[c]
	}
}

func (e *Exec) decide(n int, free bool, sig uint16) int {
	pos := len(e.points)
	e.points = append(e.points, PointRec{N: uint16(n), Free: free, Sig: sig})
	c := 0
	if e.nextDev < len(e.devs) && e.devs[e.nextDev].Pos == uint32(pos) {
		d := e.devs[e.nextDev]
		e.nextDev++
		if int(d.Alt) >= n || (d.Sig != 0 && d.Sig != sig) {
			e.end(Diverged, fmt.Sprintf("at point %d: alt %d of %d, sig %d/%d", pos, d.Alt, n, d.Sig, sig))
			return 0
		}
		c = int(d.Alt)
	}
	return c
}

func (e *Exec) describe() string {
	s := ""
	for _, t := range e.threads {
		if t.done {
			continue
		}
		s += fmt.Sprintf("t%d(%s) at %s; ", t.ID, t.Name, t.what)
	}
	return s
}

func (e *Exec) tracef(f string, args ...any) {
	if e.cfg.Trace && len(e.trace) < 20000 {
		e.trace = append(e.trace, fmt.Sprintf(f, args...))
	}
}

// Yield is the scheduling point: the current thread waits for w (nil: runnable).
func Yield(w Waiter, what string) {
	e := S
	if e == nil {
		if w != nil && !w.Enabled() {
			panic("vs: blocking outside of a controlled execution: " + what)
		}
		return
	}
	if e.aborting {
		e.abortOps++
		if e.abortOps > 5000 {
			// A deferred function that never ends: park the goroutine for good.
			t := e.cur
			t.done = true
			semrelease(&e.finish, true, 0)
			var never uint32
			semacquire(&never)
		}
		return
	}
	t := e.cur
	t.w, t.what = w, what
	if e.cfg.Trace {
		e.tracef("t%d(%s) %s", t.ID, t.Name, what)
	}
	e.switchFrom(t)
	t.w = nil
}

func (e *Exec) switchFrom(t *Thread) {
	n := e.pick(t)
	if n == nil {
		// The execution is over.
		semrelease(&e.finish, true, 0)
		semacquire(&t.sem)
		leave(e)
		return
	}
	if n == t {
		return
	}
	e.cur = n
	semrelease(&n.sem, true, 0)
	semacquire(&t.sem)
	if e.aborting {
		leave(e)
	}
}

// Point is an always-enabled scheduling point.
func Point(what string) { Yield(nil, what) }

// Aborting tells whether the current execution is being unwound.
func Aborting() bool { return S != nil && S.aborting }

// Go starts a thread.
func Go(f func()) { GoNamed("go", f) }

func GoNamed(name string, f func()) *Thread {
	e := S
	if e == nil {
		panic("vs: go statement outside of a controlled execution")
	}
	if e.aborting {
		return &Thread{done: true}
	}
	t := e.newThread(name, f)
	go threadMain(t)
	Point("go")
	return t
}

// Join waits for threads to end, with the happens-before edge that gives.
func Join(ts ...*Thread) {
	for _, t := range ts {
		Yield(t, fmt.Sprintf("join t%d", t.ID))
		raceAcquire(unsafe.Pointer(&t.joinTag))
	}
}

// Done tells whether a thread has ended.
func (t *Thread) Done() bool { return t.done }

func (t *Thread) At() string { return t.what }

// Quiesce blocks the (main) thread until no other thread can run without the clock advancing.
func Quiesce() {
	e := S
	if e == nil || e.aborting {
		return
	}
	t := e.cur
	t.idle, t.what = true, "quiesce"
	e.switchFrom(t)
	t.idle = false
}

// Choose is a data choice among n answers; answer 0 is the default, any other one is a deviation.
func Choose(n int, what string) int {
	e := S
	if e == nil || e.aborting || n <= 1 {
		return 0
	}
	c := e.decide(n, false, uint16(n))
	if e.aborting {
		leave(e)
	}
	if e.cfg.Trace {
		e.tracef("   choose %s: %d of %d", what, c, n)
	}
	return c
}

// ChooseFree is Choose whose answers all cost nothing.
func ChooseFree(n int, what string) int {
	e := S
	if e == nil || e.aborting || n <= 1 {
		return 0
	}
	c := e.decide(n, true, uint16(n))
	if e.aborting {
		leave(e)
	}
	if e.cfg.Trace {
		e.tracef("   choose %s: %d of %d", what, c, n)
	}
	return c
}

// Mute turns decisions off (counted): while muted the default is taken.
func Mute(on bool) {
	if S == nil {
		return
	}
	if on {
		S.mute++
	} else {
		S.mute--
	}
}

// Failf records a property violation of this execution.
func Failf(f string, args ...any) {
	e := S
	m := fmt.Sprintf(f, args...)
	if e == nil {
		panic("violation outside of execution: " + m)
	}
	if e.aborting {
		return
	}
	if len(e.fails) < 20 {
		e.fails = append(e.fails, m)
	}
	e.tracef("FAIL %s", m)
}

// Failed tells whether a violation has been recorded.
func Failed() bool { return S != nil && len(S.fails) > 0 }

// Tracef adds a line to the trace of a replayed execution.
func Tracef(f string, args ...any) {
	if S != nil && S.cfg.Trace {
		S.tracef("   "+f, args...)
	}
}

// Mix adds an observation to the execution's outcome hash.
func Mix(s string) {
	if S == nil {
		return
	}
	h := S.hash
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	h ^= 0xff
	h *= 1099511628211
	S.hash = h
}

// Log appends to a per-execution list without any synchronisation of its own.
func Log(v any) {
	if S != nil && !S.aborting {
		S.log = append(S.log, v)
	}
}

func Logged() []any {
	if S == nil {
		return nil
	}
	return S.log
}

// Local is per-execution storage for the shims and harnesses.
func Local(key string) any {
	if S == nil {
		return nil
	}
	for i := range S.Locals {
		if S.Locals[i].key == key {
			return S.Locals[i].val
		}
	}
	return nil
}

func SetLocal(key string, v any) {
	for i := range S.Locals {
		if S.Locals[i].key == key {
			S.Locals[i].val = v
			return
		}
	}
	S.Locals = append(S.Locals, local{key, v})
}

func CurID() int {
	if S == nil || S.cur == nil {
		return -1
	}
	return S.cur.ID
}

func CurThread() *Thread {
	if S == nil {
		return nil
	}
	return S.cur
}

func Threads() []*Thread {
	if S == nil {
		return nil
	}
	return S.threads
}

func Steps() int {
	if S == nil {
		return 0
	}
	return S.steps
}

var hooks []func()

// OnReset registers a function run before every execution.
func OnReset(f func()) { hooks = append(hooks, f) }

func resetHooks() {
	for _, f := range hooks {
		f()
	}
}

// Spawn starts a thread without a scheduling point (timers).
func Spawn(name string, f func()) *Thread {
	e := S
	if e == nil || e.aborting {
		return &Thread{done: true}
	}
	t := e.newThread(name, f)
	go threadMain(t)
	return t
}
