package main

import (
	"errors"
	"fmt"

	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	small := mk(2, 4)
	multi := mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2})
	big := mk(block+1, block+1)
	two := mk(block+1, block+3)
	ab := func(l *layout) []cop {
		var out []cop
		for _, b := range l.blocks() {
			out = append(out, cop{kind: cPut, b: b})
		}
		for i := 0; i < l.pieces(); i++ {
			out = append(out, cop{kind: cGet, b: blk{i, 0, len(l.bytes(i))}})
		}
		b := l.blocks()[0]
		return append(out, cop{kind: cPut, b: b, bad: true}, cop{kind: cReset, b: b}, cop{kind: cCount})
	}
	cfg := vs.Config{}
	mc.Register(&mc.Check{
		ID: "C19", QuickSecs: 45,
		Units: []mc.Unit{
			{Name: "two threads of two", Cfg: cfg, Bound: 1, BoundT: 2, Weight: 2, Body: func() { concBody(small, ab(small), 2, 2) }},
			{Name: "three threads", Cfg: cfg, Bound: 2, BoundT: 3, Weight: 2, Body: func() { concBody(small, ab(small), 3, 1) }},
			{Name: "three threads, files", Cfg: cfg, Bound: 2, BoundT: 3, Weight: 2, Body: func() { concBody(multi, ab(multi), 3, 1) }},
			{Name: "two threads of two, blocks", Cfg: cfg, Bound: 1, BoundT: 2, Weight: 2, Body: func() { concBody(big, ab(big), 2, 2) }},
			{Name: "three threads, blocks", Cfg: cfg, Bound: 2, BoundT: 2, Weight: 3, Body: func() { concBody(two, ab(two), 3, 1) }},
			{Name: "completion", Cfg: cfg, Bound: 2, BoundT: 3, Weight: 2, Body: func() { finishBody(small) }},
			{Name: "completion, files", Cfg: cfg, Bound: 2, BoundT: 3, Weight: 2, Body: func() { finishBody(multi) }},
			{Name: "two threads race", Cfg: cfg, Bound: 1, BoundT: 2, Race: true, Body: func() { concBody(small, ab(small), 2, 1) }},
			{Name: "two threads race, blocks", Cfg: cfg, Bound: 1, BoundT: 2, Race: true, Body: func() { concBody(big, ab(big), 2, 1) }},
			{Name: "completion race", Cfg: cfg, Bound: 2, BoundT: 3, Race: true, Body: func() { finishBody(multi) }},
		},
		Explain:     "every program of two threads with two operations each, and of three threads with one, over puts of every block (right and wrong), gets, resets and the counter, from an empty and a nearly complete storage, under all schedules within the bound including a switch at every file-system operation; each history must be linearizable with respect to the model, no execution may deadlock or race",
		Assumptions: []string{"sequentially consistent memory; data races are looked for separately on the same bodies"},
	})
}

const (
	cPut = iota
	cGet
	cReset
	cCount
)

type cop struct {
	kind int
	b    blk
	bad  bool
}

func (o cop) String() string {
	switch o.kind {
	case cPut:
		if o.bad {
			return fmt.Sprintf("putbad(%d,%d)", o.b.p, o.b.off)
		}
		return fmt.Sprintf("put(%d,%d)", o.b.p, o.b.off)
	case cGet:
		return fmt.Sprintf("get(%d)", o.b.p)
	case cReset:
		return fmt.Sprintf("reset(%d)", o.b.p)
	}
	return "downloaded"
}

type call struct {
	op       cop
	inv, ret int
	res      string
	n        int64
	done     bool
}

// concBody chooses a program, runs it, and looks for a sequential order that explains the results.
func concBody(l *layout, ops []cop, threads, each int) {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	m := newModel(l)
	if vs.ChooseFree(2, "start") == 1 {
		// all but the first block is there
		for _, b := range l.blocks()[1:] {
			m.put(b, false)
			if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
				vs.Failf("put: %v", err)
				return
			}
		}
	}
	f.Quiet = false
	prog := make([][]*call, threads)
	clock := 0
	for t := range prog {
		for k := 0; k < each; k++ {
			lo := 0
			if k == 0 && t > 0 {
				// threads are interchangeable
				for lo < len(ops) && ops[lo] != prog[t-1][0].op {
					lo++
				}
			}
			prog[t] = append(prog[t], &call{op: ops[lo+vs.ChooseFree(len(ops)-lo, "operation")]})
		}
	}
	var ts []*vs.Thread
	for t := range prog {
		ts = append(ts, vs.GoNamed("client", func() {
			for _, c := range prog[t] {
				clock++
				c.inv = clock
				perform(l, s, c)
				clock++
				c.ret = clock
				c.done = true
			}
		}))
	}
	vs.Join(ts...)
	f.Quiet = true
	var all []*call
	for _, p := range prog {
		all = append(all, p...)
	}
	for _, c := range all {
		vs.Mix(c.res)
	}
	ms := linearize(m, all)
	if len(ms) == 0 {
		vs.Failf("no order of the operations explains %s", describe(prog))
		return
	}
	// the final state is that of one of the orders
	done := served(l, s, vs.Failf)
	ok := false
	for _, x := range ms {
		same := x.downloaded() == s.Downloaded() && targetEmpty(f) != x.all
		for i := range done {
			same = same && done[i] == x.done[i] && has(s, i) == x.done[i]
		}
		ok = ok || same
	}
	if !ok {
		vs.Failf("after %s no order explains that %v is served, %d downloaded, target %v", describe(prog), done, s.Downloaded(), !targetEmpty(f))
	}
	if !targetEmpty(f) {
		if d := targetDiff(f, l); d != "" {
			vs.Failf("the target %s", d)
		}
	}
	onDisk(f, l, nil)
	// and the torrent can still be completed
	x := ms[0]
	if x.all {
		return
	}
	for i := range done {
		if !done[i] {
			s.ResetPiece(i)
			for _, b := range l.blocksOf(i) {
				if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
					vs.Failf("after %s block %d of piece %d is refused: %v", describe(prog), b.off, b.p, err)
				}
			}
		}
	}
	if d := targetDiff(f, l); d != "" {
		vs.Failf("in the end the target %s", d)
	}
}

func describe(prog [][]*call) string {
	s := ""
	for t, p := range prog {
		s += fmt.Sprintf(" thread %d:", t)
		for _, c := range p {
			s += fmt.Sprintf(" %v=%s[%d-%d]", c.op, c.res, c.inv, c.ret)
		}
	}
	return s
}

func perform(l *layout, s *storage.Storage, c *call) {
	switch c.op.kind {
	case cPut:
		d := l.good(c.op.b)
		if c.op.bad {
			d = l.bad(c.op.b)
		}
		c.res = resultOf(s.PutBlock(c.op.b.p, c.op.b.off, d))
	case cGet:
		got, err := s.GetBlock(c.op.b.p, 0, c.op.b.n)
		switch {
		case err == nil && string(got) == string(l.bytes(c.op.b.p)):
			c.res = "data"
		case err == nil:
			c.res = "wrong data"
		case errors.Is(err, storage.ErrIncompletePiece):
			c.res = "incomplete"
		default:
			c.res = err.Error()
		}
	case cReset:
		s.ResetPiece(c.op.b.p)
		c.res = "reset"
	case cCount:
		c.n = s.Downloaded()
		c.res = fmt.Sprint(c.n)
	}
}

func (m *model) clone() *model {
	c := &model{l: m.l, all: m.all, done: append([]bool(nil), m.done...), fail: append([]bool(nil), m.fail...)}
	for _, h := range m.have {
		c.have = append(c.have, append([]byte(nil), h...))
	}
	return c
}

// linearize returns the final states of all orders that respect real time and give the results seen.
func linearize(m *model, calls []*call) (out []*model) {
	if len(calls) == 0 {
		return []*model{m}
	}
	for i, c := range calls {
		first := true
		for _, d := range calls {
			if d != c && d.ret < c.inv {
				first = false
			}
		}
		if !first {
			continue
		}
		x := m.clone()
		if !x.explains(c) {
			continue
		}
		rest := append(append([]*call(nil), calls[:i]...), calls[i+1:]...)
		out = append(out, linearize(x, rest)...)
	}
	return
}

// explains applies a call to the model and tells whether its result is right.
func (m *model) explains(c *call) bool {
	switch c.op.kind {
	case cPut:
		failed := m.fail[c.op.b.p]
		r := m.put(c.op.b, c.op.bad)
		if failed {
			return c.res != rOK
		}
		return c.res == r
	case cGet:
		if m.done[c.op.b.p] {
			return c.res == "data"
		}
		return c.res == "incomplete"
	case cReset:
		m.reset(c.op.b.p)
		return true
	}
	return c.n == m.downloaded()
}

// finishBody: the last blocks arrive at the same time, among duplicates and readers.
func finishBody(l *layout) {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	f.Quiet = false
	var ts []*vs.Thread
	oks := 0
	for i := 0; i < l.pieces(); i++ {
		b := l.blocksOf(i)[0]
		n := 1
		if i == 0 {
			n = 2
		}
		for k := 0; k < n; k++ {
			ts = append(ts, vs.GoNamed("put", func() {
				err := s.PutBlock(b.p, b.off, l.good(b))
				if err == nil {
					vs.RaceDisable()
					oks++
					vs.RaceEnable()
					if _, err := s.GetBlock(b.p, 0, b.n); err != nil {
						vs.Failf("the piece just completed is not served: %v", err)
					}
				} else if !errors.Is(err, storage.ErrBlockExists) {
					vs.Failf("put: %v", err)
				}
			}))
		}
	}
	ts = append(ts, vs.GoNamed("wait", func() {
		if err := s.Torrent.Wait(); err != nil {
			vs.Failf("Wait: %v", err)
		}
	}))
	vs.Join(ts...)
	f.Quiet = true
	if oks != l.pieces() {
		vs.Failf("%d of %d blocks were accepted", oks, l.pieces())
	}
	complete(l, s, f, "in the end")
	leftovers(f)
}
