package vs

import (
	"os"
	"runtime"
	"slices"
	"unsafe"
)

type chanState struct {
	ptr    unsafe.Pointer
	keep   any
	closed bool
}

func (e *Exec) chanOf(p unsafe.Pointer, keep any) *chanState {
	if p == nil {
		return nil
	}
	for i := len(e.chans) - 1; i >= 0; i-- {
		if e.chans[i].ptr == p {
			return e.chans[i]
		}
	}
	c := &chanState{ptr: p, keep: keep}
	e.chans = append(e.chans, c)
	return c
}

// Case is one case of a select statement.
type Case interface {
	state() *chanState
	isSend() bool
	bufReady() bool // can complete without a counterpart
	doBuf()
	give() any
	take(v any)
}

type selState struct {
	cases []Case
	done  bool
	idx   int
	tag   byte
	t     *Thread
}

type RecvCase[T any] struct {
	ch  <-chan T
	st  *chanState
	Val T
	OK  bool
}

func NewRecv[T any](ch <-chan T) *RecvCase[T] {
	c := &RecvCase[T]{ch: ch}
	if S != nil {
		c.st = S.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch)
	}
	return c
}

func (c *RecvCase[T]) state() *chanState { return c.st }
func (c *RecvCase[T]) isSend() bool      { return false }
func (c *RecvCase[T]) bufReady() bool {
	return c.st != nil && (len(c.ch) > 0 || c.st.closed)
}
func (c *RecvCase[T]) doBuf()    { c.Val, c.OK = <-c.ch }
func (c *RecvCase[T]) give() any { panic("vs: give on receive") }
func (c *RecvCase[T]) take(v any) {
	if v != nil {
		c.Val = v.(T)
	}
	c.OK = true
}

type SendCase[T any] struct {
	ch chan<- T
	st *chanState
	v  T
}

func SendTo[T any](ch chan<- T) *SendCase[T] {
	c := &SendCase[T]{ch: ch}
	if S != nil {
		c.st = S.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch)
	}
	return c
}

// With sets the value to send.
func (c *SendCase[T]) With(v T) *SendCase[T] { c.v = v; return c }

// Send performs a send statement.
func (c *SendCase[T]) Send(v T) {
	c.v = v
	if S == nil {
		c.ch <- v
		return
	}
	Select(false, c)
}

func (c *SendCase[T]) state() *chanState { return c.st }
func (c *SendCase[T]) isSend() bool      { return true }
func (c *SendCase[T]) bufReady() bool {
	return c.st != nil && (c.st.closed || len(c.ch) < cap(c.ch))
}
func (c *SendCase[T]) doBuf()     { c.ch <- c.v }
func (c *SendCase[T]) give() any  { return c.v }
func (c *SendCase[T]) take(v any) { panic("vs: take on send") }

func Recv[T any](ch <-chan T) T {
	if S == nil {
		return <-ch
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if S == nil {
		v, ok := <-ch
		return v, ok
	}
	c := NewRecv(ch)
	Select(false, c)
	return c.Val, c.OK
}

func Close[T any](ch chan<- T) {
	e := S
	if e == nil {
		close(ch)
		return
	}
	Point("close")
	if e.aborting {
		defer ignorePanic()
		close(ch)
		return
	}
	st := e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch)
	if st != nil && st.closed {
		panic("close of closed channel")
	}
	close(ch)
	st.closed = true
}

// CloseQuiet closes without a scheduling point (for shims).
func CloseQuiet[T any](ch chan<- T) {
	e := S
	if e != nil {
		st := e.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch)
		if st.closed {
			return
		}
		st.closed = true
	}
	close(ch)
}

func ignorePanic() { recover() }

// counterpart finds a thread waiting on the other side of case c.
func (e *Exec) counterpart(self *Thread, c Case) (*Thread, int) {
	st := c.state()
	if st == nil {
		return nil, 0
	}
	for _, t := range e.threads {
		if t == self || t.done || t.sel == nil || t.sel.done {
			continue
		}
		for i, o := range t.sel.cases {
			if o.state() == st && o.isSend() != c.isSend() {
				return t, i
			}
		}
	}
	return nil, 0
}

// Enabled: a blocked select can go on. A receiver is completed by its sender,
// so only senders look for a waiting counterpart.
func (s *selState) Enabled() bool {
	if s.done {
		return true
	}
	for _, c := range s.cases {
		if c.bufReady() {
			return true
		}
		if c.isSend() {
			if t, _ := S.counterpart(s.t, c); t != nil {
				return true
			}
		}
	}
	return false
}

// Select performs a select statement over cases and returns the index of the
// case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	e := S
	if e == nil {
		panic("vs: select outside of a controlled execution")
	}
	if e.aborting {
		Yield(nil, "select(abort)")
		if hasDefault {
			return -1
		}
		for i, c := range cases {
			if c.bufReady() && !c.isSend() {
				c.doBuf()
				return i
			}
		}
		if len(cases) == 1 {
			return 0
		}
		leave(e)
	}
	t := e.cur
	s := &selState{cases: cases, t: t}
	what := "recv"
	if len(cases) > 1 {
		what = "select"
	} else if len(cases) == 1 && cases[0].isSend() {
		what = "send"
	}
	if hasDefault {
		Yield(nil, "select-default")
	} else {
		raceRelease(unsafe.Pointer(&s.tag))
		t.sel = s
		Yield(s, what)
		t.sel = nil
		if s.done {
			raceAcquire(unsafe.Pointer(&s.tag))
			return s.idx
		}
	}
	var ready []int
	for i, c := range cases {
		if c.bufReady() {
			ready = append(ready, i)
		} else if o, _ := e.counterpart(t, c); o != nil {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if hasDefault {
			return -1
		}
		panic("vs: select scheduled with nothing ready")
	}
	k := 0
	if len(ready) > 1 {
		t.fair(ready, len(cases))
		k = Choose(len(ready), "select")
	}
	i := ready[k]
	if len(ready) > 1 {
		t.took(i)
	}
	c := cases[i]
	if c.bufReady() {
		c.doBuf()
		return i
	}
	o, oi := e.counterpart(t, c)
	oc := o.sel.cases[oi]
	raceAcquire(unsafe.Pointer(&o.sel.tag))
	raceRelease(unsafe.Pointer(&o.sel.tag))
	if c.isSend() {
		oc.take(c.give())
	} else {
		c.take(oc.give())
	}
	o.sel.done = true
	o.sel.idx = oi
	return i
}

// fair puts first what this select statement is to choose by default: the case
// after the one it took the last time there was a choice. Otherwise a case
// could starve another for good, which depends on the order they are written
// in and does not happen with the real select.
func (t *Thread) fair(ready []int, n int) {
	var pcs [1]uintptr
	runtime.Callers(3, pcs[:])
	t.site = pcs[0]
	last, ok := t.sites[t.site]
	if selReversed {
		slices.Reverse(ready)
	}
	if !ok {
		return
	}
	key := func(i int) int {
		if selReversed {
			return (last - i + n - 1) % n
		}
		return (i - last - 1 + n) % n
	}
	slices.SortFunc(ready, func(a, b int) int { return key(a) - key(b) })
}

func (t *Thread) took(i int) {
	if t.sites == nil {
		t.sites = map[uintptr]int{}
	}
	t.sites[t.site] = i
}

// selReversed prefers the last case, to see that nothing depends on it.
var selReversed = os.Getenv("ZZV_SELREV") != ""

// Chan ranges over a channel.
func Chan[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}
