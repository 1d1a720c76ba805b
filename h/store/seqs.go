package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID:          "C15",
		Units:       seqUnits(fData),
		Explain:     "every sequence of puts (right and wrong data for every block), resets and restarts up to the depth, on layouts of one to three pieces and of one to three blocks, against a model of what is complete; after each sequence every byte served, the bitfield, every piece file and the target are compared",
		Assumptions: []string{"no file-system errors or crashes (C17, C18)", "SHA-1 collisions do not occur"},
	})
	mc.Register(&mc.Check{
		ID: "C20", QuickSecs: 30,
		Units:   append(seqUnits(fWait), waitUnits()...),
		Explain: "sequences of puts, resets and restarts with a fresh waiter for every piece and the torrent before each operation: which waiters have returned, and with what, against the model; waiters, puts and resets on concurrent threads under all schedules within the bound",
	})
	mc.Register(&mc.Check{
		ID:      "C22",
		Units:   append(seqUnits(fArgs), mc.Unit{Name: "arguments", Enum: argsEnum, Weight: 2}),
		Explain: "every combination of boundary values (negative, around every block and piece edge, extreme) of index, offset and length, for puts and gets, in every phase of a download; invalid puts mixed into every sequence of operations",
	})
	mc.Register(&mc.Check{
		ID:      "C23",
		Units:   append(seqUnits(fCount), mc.Unit{Name: "faults", Enum: func(e *mc.Enum) { faultEnum(e, 1); faultEnum(e, -1) }, Weight: 0.5}, mc.Unit{Name: "loading", Enum: loadFaults, Weight: 0.5}, mc.Unit{Name: "foreign files", Enum: foreignFiles, Weight: 0.5}),
		Explain: "the download counter after every sequence of puts, resets and restarts, and after every failure of a file operation, and after restarts that find foreign files, against the model's sum of the complete pieces' lengths",
	})
}

type facet int

const (
	fData facet = iota
	fWait
	fArgs
	fCount
)

// The operations of a sequence.
const (
	oGood = iota
	oBad
	oReset
	oRestart
	oJunk // a put with arguments that are invalid
)

type op struct {
	kind int
	b    blk
	n    int
}

func (o op) String() string {
	switch o.kind {
	case oGood:
		return fmt.Sprintf("put(%d,%d)", o.b.p, o.b.off)
	case oBad:
		return fmt.Sprintf("putbad(%d,%d)", o.b.p, o.b.off)
	case oReset:
		return fmt.Sprintf("reset(%d)", o.b.p)
	case oJunk:
		return fmt.Sprintf("junk%d(%d)", o.n, o.b.p)
	}
	return "restart"
}

func seqLayouts() []*layout {
	return []*layout{
		mk(block+3, block+3),
		mk(3, 5),
		mk(2, 5, fileSpec{"a", 1}, fileSpec{"d/b", 4}),
		mk(block+3, block+5, fileSpec{"d/a", block}, fileSpec{"d/b", 5}),
		mk(2*block, 2*block+1),
		mk(4, 4),
	}
}

func seqUnits(f facet) (out []mc.Unit) {
	for _, l := range seqLayouts() {
		var ops []op
		for _, b := range l.blocks() {
			ops = append(ops, op{kind: oGood, b: b}, op{kind: oBad, b: b})
		}
		for i := 0; i < l.pieces(); i++ {
			ops = append(ops, op{kind: oReset, b: blk{p: i}})
		}
		ops = append(ops, op{kind: oRestart})
		if f == fArgs {
			for k := range junks(l) {
				ops = append(ops, op{kind: oJunk, n: k})
			}
		}
		depth := [...]int{0, 0, 0, 0, 7, 7, 6, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4}
		u := mc.Unit{Name: "sequences " + l.name, Enum: func(e *mc.Enum) {
			d := depth[min(len(ops), len(depth)-1)]
			if mc.Thorough {
				d++
			}
			for n := 0; n <= d; n++ {
				seqEnum(e, l, ops, n, f)
			}
		}}
		out = append(out, u)
	}
	return
}

func seqEnum(e *mc.Enum, l *layout, ops []op, n int, f facet) {
	pick := make([]op, n)
	var rec func(k int)
	rec = func(k int) {
		if e.Stopped() {
			return
		}
		if k == n {
			if !e.Mine() {
				return
			}
			s := append([]op(nil), pick...)
			e.Run([]byte(fmt.Sprint(s)), func() {
				var m *model
				seq(e, func() { m = runSeq(l, s, f) })
				if m != nil {
					e.State(m.key())
				}
				e.Trans(len(s))
			})
			return
		}
		for _, o := range ops {
			pick[k] = o
			rec(k + 1)
		}
	}
	rec(0)
}

// model is the reference model of the storage.
type model struct {
	l    *layout
	have [][]byte // per piece, per block: 0 nothing, 1 good, 2 bad
	done []bool
	fail []bool
	all  bool
}

func newModel(l *layout) *model {
	m := &model{l: l, done: make([]bool, l.pieces()), fail: make([]bool, l.pieces())}
	for i := 0; i < l.pieces(); i++ {
		m.have = append(m.have, make([]byte, len(l.blocksOf(i))))
	}
	return m
}

func (m *model) key() string { return fmt.Sprint(m.l.name, m.have, m.done, m.fail) }

func (m *model) downloaded() (n int64) {
	for i, d := range m.done {
		if d {
			n += int64(len(m.l.bytes(i)))
		}
	}
	return
}

const (
	rOK       = "accepted"
	rExists   = "refused as existing"
	rChecksum = "a checksum error"
	rInvalid  = "refused as invalid"
	rIO       = "an I/O error"
)

// put is the effect of a put.
func (m *model) put(b blk, bad bool) string {
	if m.done[b.p] || m.fail[b.p] || m.have[b.p][b.off/block] != 0 {
		return rExists
	}
	v := byte(1)
	if bad {
		v = 2
	}
	m.have[b.p][b.off/block] = v
	right := true
	for _, x := range m.have[b.p] {
		if x == 0 {
			return rOK
		}
		right = right && x == 1
	}
	if !right {
		m.fail[b.p] = true
		return rChecksum
	}
	m.done[b.p] = true
	m.all = true
	for _, d := range m.done {
		m.all = m.all && d
	}
	return rOK
}

func (m *model) reset(p int) {
	if m.done[p] {
		return
	}
	m.fail[p] = false
	for i := range m.have[p] {
		m.have[p][i] = 0
	}
}

func (m *model) restart() {
	for i := range m.done {
		m.reset(i)
	}
}

func resultOf(err error) string {
	switch {
	case err == nil:
		return rOK
	case isChecksum(err):
		return rChecksum
	case errors.Is(err, storage.ErrBlockExists):
		return rExists
	}
	return rInvalid
}

type waiter struct {
	piece int // -1: the torrent
	step  int
	t     *vs.Thread
	err   error
	// what the model says
	ended bool
	want  string // nil, checksum, error
}

// runSeq performs a sequence and compares what is seen with the model.
func runSeq(l *layout, ops []op, fa facet) *model {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return nil
	}
	m := newModel(l)
	js := junks(l)
	var waits []*waiter
	watch := func(step int) {
		for i := -1; i < l.pieces(); i++ {
			w := &waiter{piece: i, step: step}
			if i < 0 {
				t := s.Torrent
				w.t = vs.GoNamed("wait torrent", func() { w.err = t.Wait() })
				if m.all {
					w.ended = true
				}
			} else {
				p := s.GetPiece(i)
				w.t = vs.GoNamed("wait piece", func() { w.err = p.Wait() })
				if m.done[i] {
					w.ended = true
				} else if m.fail[i] {
					w.ended, w.want = true, "checksum"
				}
			}
			waits = append(waits, w)
		}
	}
	settle := func(step int, what string) {
		vs.Quiesce()
		for _, w := range waits {
			name := fmt.Sprintf("a waiter for piece %d", w.piece)
			if w.piece < 0 {
				name = "a waiter for the torrent"
			}
			if w.t.Done() != w.ended {
				vs.Failf("%s: %s that came before operation %d has returned=%v, should have=%v", what, name, w.step, w.t.Done(), w.ended)
			} else if w.ended {
				ok := w.err == nil
				switch w.want {
				case "checksum":
					ok = isChecksum(w.err)
				case "error":
					ok = w.err != nil
				}
				if !ok {
					vs.Failf("%s: %s that came before operation %d got %v, want %s", what, name, w.step, w.err, w.want)
				}
			}
		}
	}
	if fa == fWait {
		watch(0)
		settle(0, "at the start")
	}
	for k, o := range ops {
		if vs.Failed() {
			break
		}
		before := m.downloaded()
		switch o.kind {
		case oGood, oBad:
			d := l.good(o.b)
			if o.kind == oBad {
				d = l.bad(o.b)
			}
			failed := m.fail[o.b.p]
			want := m.put(o.b, o.kind == oBad)
			err := s.PutBlock(o.b.p, o.b.off, d)
			if failed {
				// a piece that failed takes nothing until it is reset; how it says so is open
				if err == nil {
					vs.Failf("operation %d %v: a block is accepted for a piece that has failed", k, o)
				}
			} else if got := resultOf(err); got != want {
				vs.Failf("operation %d %v: %s (%v), want %s", k, o, got, err, want)
			}
		case oReset:
			s.ResetPiece(o.b.p)
			m.reset(o.b.p)
		case oRestart:
			if s, err = open(l); err != nil {
				vs.Failf("operation %d: Load: %v", k, err)
				return m
			}
			m.restart()
			for i := range waits {
				waits[i].step = -1
			}
			if fa == fWait {
				waits = waits[:0]
			}
		case oJunk:
			j := js[o.n]
			if err := s.PutBlock(j.index, j.begin, make([]byte, j.n)); err == nil || isChecksum(err) {
				vs.Failf("operation %d: put of %d bytes at %d of piece %d: %v", k, j.n, j.begin, j.index, err)
			}
		}
		if fa == fWait {
			for _, w := range waits {
				if w.ended {
					continue
				}
				switch {
				case w.piece < 0:
					w.ended = m.all
				case m.done[w.piece]:
					w.ended = true
				case m.fail[w.piece]:
					w.ended, w.want = true, "checksum"
				case o.kind == oReset && o.b.p == w.piece:
					w.ended, w.want = true, "error"
				}
			}
			watch(k + 1)
			settle(k, fmt.Sprintf("after operation %d %v", k, o))
		}
		if fa == fCount {
			if got, want := s.Downloaded(), m.downloaded(); got != want {
				vs.Failf("operation %d %v: downloaded is %d, before it was %d, the complete pieces have %d", k, o, got, before, want)
			}
		}
	}
	if fa == fData || fa == fArgs {
		observe(f, l, s, m)
	}
	return m
}

// observe compares everything there is to see with the model.
func observe(f *vos.FS, l *layout, s *storage.Storage, m *model) {
	done := served(l, s, vs.Failf)
	for i := range done {
		if done[i] != m.done[i] {
			vs.Failf("piece %d is served=%v, its data was completely put=%v", i, done[i], m.done[i])
		}
		if has(s, i) != m.done[i] {
			vs.Failf("piece %d in the bitfield=%v, its data was completely put=%v", i, has(s, i), m.done[i])
		}
	}
	if m.all {
		if d := targetDiff(f, l); d != "" {
			vs.Failf("the target %s", d)
		}
	} else if !targetEmpty(f) {
		vs.Failf("there is a target of an incomplete torrent")
	}
	onDisk(f, l, m.done)
}

// onDisk checks the files a restart would trust: whatever is in the work
// directory under the name of a piece is that piece.
func onDisk(f *vos.FS, l *layout, done []bool) {
	names, data := f.Files()
	for i, n := range names {
		if !strings.HasPrefix(n, wdir+"/") || strings.HasPrefix(n, wdir+"/temp/") {
			continue
		}
		var k int
		if c, _ := fmt.Sscanf(n[strings.LastIndexByte(n, '/')+1:], "%d.piece", &k); c != 1 {
			continue
		}
		if k < 0 || k >= l.pieces() || string(data[i]) != string(l.bytes(k)) {
			vs.Failf("the work directory has %s whose content is not piece %d", n, k)
		}
	}
}

// ---- arguments

type junk struct{ index, begin, n int }

// junks are puts no storage of this layout may accept.
func junks(l *layout) []junk {
	last := l.pieces() - 1
	n := len(l.bytes(last))
	return []junk{
		{-1, 0, min(block, n)},
		{last + 1, 0, min(block, n)},
		{last, 0, min(block, n) - 1},
		{last, 0, min(block, n) + 1},
		{last, (n + block - 1) / block * block, 1},
		{0, 0, 0},
	}
}

func edges(l *layout, p int) []int {
	n := l.piece
	if p >= 0 && p < l.pieces() {
		n = len(l.bytes(p))
	}
	set := map[int]bool{}
	var out []int
	for _, c := range []int{0, block, 2 * block, n, l.piece, len(l.data)} {
		for d := -1; d <= 1; d++ {
			if x := c + d; !set[x] {
				set[x] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range []int{math.MinInt, math.MinInt + 1, -block, -2 * block, math.MaxInt, math.MaxInt - 1, math.MaxInt / block * block, 1 << 32, 1<<32 + block, -1 << 32, 1 << 62} {
		if !set[x] {
			set[x] = true
			out = append(out, x)
		}
	}
	return out
}

func argLayouts() []*layout {
	return append(seqLayouts(),
		mk(block, 2*block),
		mk(block/2, block+1, fileSpec{"a", 0}, fileSpec{"b", block}, fileSpec{"c/d", 1}),
		mk(2*block+1, 4*block+2+block),
	)
}

// argsEnum tries every combination of arguments in every phase.
func argsEnum(e *mc.Enum) {
	for _, l := range argLayouts() {
		idx := []int{0, 1, 2, -1, l.pieces() - 1, l.pieces(), l.pieces() + 1, math.MinInt, math.MaxInt, 1 << 32, -1 << 32}
		bs := l.blocks()
		for phase := 0; phase <= len(bs); phase++ {
			for _, i := range idx {
				for _, b := range edges(l, i) {
					if e.Stopped() {
						return
					}
					for _, wrong := range []bool{false, true} {
						e.Casef(func() { seq(e, func() { argCase(e, l, phase, i, b, wrong) }) }, "%s after %d blocks, index %d, offset %d, wrong data %v", l.name, phase, i, b, wrong)
					}
				}
			}
		}
	}
}

// argCase puts and gets all lengths worth trying at one place.
func argCase(e *mc.Enum, l *layout, phase, i, b int, wrong bool) {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	m := newModel(l)
	bs := l.blocks()
	for _, x := range bs[:phase] {
		m.put(x, false)
		if err := s.PutBlock(x.p, x.off, l.good(x)); err != nil {
			vs.Failf("put: %v", err)
			return
		}
	}
	e.State(fmt.Sprint(l.name, phase))
	for _, n := range edges(l, i) {
		e.Trans(2)
		got, err := s.GetBlock(i, b, n)
		in := i >= 0 && i < l.pieces() && b >= 0 && n >= 0 && b <= len(l.bytes(i)) && n <= len(l.bytes(i))-b
		switch {
		case !in && err == nil:
			vs.Failf("get of piece %d %d+%d succeeds with %d bytes", i, b, n, len(got))
		case in && n > 0 && m.done[i] && err != nil:
			vs.Failf("get of piece %d %d+%d of a complete piece: %v", i, b, n, err)
		case in && !m.done[i] && n > 0 && err == nil:
			vs.Failf("get of piece %d %d+%d of an incomplete piece succeeds", i, b, n)
		case err == nil && in && string(got) != string(l.bytes(i)[b:b+n]):
			vs.Failf("get of piece %d %d+%d gives something else", i, b, n)
		}
		if n < 0 || n > 1<<20 {
			continue
		}
		valid := blk{-1, 0, 0}
		for _, x := range bs {
			if x.p == i && x.off == b && x.n == n {
				valid = x
			}
		}
		if valid.p >= 0 {
			continue // the sequences do those
		}
		d := make([]byte, n)
		if i >= 0 && i < l.pieces() && b >= 0 && !wrong {
			if b < len(l.bytes(i)) {
				copy(d, l.bytes(i)[b:])
			}
		}
		if err := s.PutBlock(i, b, d); err == nil || isChecksum(err) {
			vs.Failf("put of %d bytes at %d of piece %d: %v", n, b, i, err)
		}
		if vs.Failed() {
			return
		}
	}
	// nothing has changed: the rest completes the torrent
	for _, x := range bs[phase:] {
		m.put(x, false)
		if err := s.PutBlock(x.p, x.off, l.good(x)); err != nil {
			vs.Failf("put after invalid ones: %v", err)
			return
		}
	}
	if got := s.Downloaded(); got != int64(len(l.data)) {
		vs.Failf("downloaded is %d after invalid puts, want %d", got, len(l.data))
	}
	observe(f, l, s, m)
}
