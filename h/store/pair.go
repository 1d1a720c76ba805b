package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	a, b := pairLayouts(0)
	c, d := pairLayouts(1)
	mc.Register(&mc.Check{
		ID: "C42", QuickSecs: 90,
		Units: []mc.Unit{
			{Name: "info hashes", Enum: pairHashes, Weight: 1.5},
			{Name: "sequences", Enum: func(e *mc.Enum) { pairSeqs(e, a, b) }, Weight: 6},
			{Name: "sequences, files", Enum: func(e *mc.Enum) { pairSeqs(e, c, d) }, Weight: 6},
			{Name: "kill", Enum: pairKill, Weight: 2},
			{Name: "together", Bound: 2, BoundT: 3, Weight: 2, Body: func() { pairConc(pairLayouts(0)) }},
			{Name: "together, files", Bound: 2, BoundT: 3, Weight: 2, Body: func() { pairConc(pairLayouts(1)) }},
			{Name: "together race", Bound: 1, BoundT: 2, Race: true, Body: func() { pairConc(pairLayouts(vs.ChooseFree(2, "layouts"))) }},
		},
		Explain:     "two storages in the same directories, whose info hashes differ in one digit (each of the forty in turn) or would be alike if written carelessly: all sequences of puts of right and wrong blocks, resets, reads and restarts of the two up to a depth, each torrent compared after each operation with the same operations on it alone; one killed at every change while the other is in every stage; both downloading, being read and restarted at once under all schedules within the bound",
		Assumptions: []string{"torrents that share a target directory have different names"},
	})
}

// pairLayouts are two torrents of different content and names that are alike otherwise.
func pairLayouts(i int) (a, b *layout) {
	switch i {
	case 0:
		a, b = mk(2, 3), mk(2, 4)
	case 1:
		a, b = mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2}), mk(2, 3, fileSpec{"a", 2}, fileSpec{"d/b", 1})
	case 2:
		a, b = mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2}), mk(3, 3)
	case 3:
		a, b = mk(3, 3), mk(3, 3)
	}
	for i := range b.data {
		b.data[i] ^= 0x80
	}
	b.rehash()
	b.info.Name = "out2"
	b.info.SHA1 = a.info.SHA1
	b.info.SHA1[19] ^= 1
	return
}

// pairStep is an operation on one of the two.
const (
	pGood    = iota // a right block of piece p
	pBad            // a wrong one
	pReset          // of piece p
	pRestart        // of the torrent's storage
	pKinds
)

type pairOp struct{ who, kind, p int }

func (o pairOp) String() string {
	w := string(rune('A' + o.who))
	if o.kind == pRestart {
		return w + ".restart"
	}
	return fmt.Sprintf("%s.%s(%d)", w, [...]string{"put", "putbad", "reset"}[o.kind], o.p)
}

// party is one of the two storages.
type party struct {
	l *layout
	s *storage.Storage
}

func (p *party) open() error {
	s, err := open(p.l)
	if err == nil {
		p.s = s
	}
	return err
}

func (p *party) do(o pairOp) error {
	b := p.l.blocksOf(o.p)[0]
	switch o.kind {
	case pGood:
		return p.s.PutBlock(b.p, b.off, p.l.good(b))
	case pBad:
		return p.s.PutBlock(b.p, b.off, p.l.bad(b))
	case pReset:
		p.s.ResetPiece(o.p)
	case pRestart:
		return p.open()
	}
	return nil
}

// view is all that is to be seen of a torrent.
func (p *party) view(f *vos.FS) string {
	out := fmt.Sprint(served(p.l, p.s, vs.Failf), p.s.Torrent.CompletePieces(), p.s.Downloaded())
	names, data := f.Files()
	top := tdir + "/" + p.l.info.Name
	for i, n := range names {
		if n == top || strings.HasPrefix(n, top+"/") {
			out += fmt.Sprintf(" %s=%x", n, data[i])
		}
	}
	return out
}

// work is what lies in the work directory, whatever it is called.
func work(f *vos.FS) (out []string) {
	names, data := f.Files()
	for i, n := range names {
		if strings.HasPrefix(n, wdir+"/") {
			out = append(out, fmt.Sprintf("%x", data[i]))
		}
	}
	sort.Strings(out)
	return
}

type soloView struct {
	err, view string
	work      []string
}

// solo runs operations on a torrent that has the directories for itself.
func solo(l *layout, ops []pairOp) (out []soloView) {
	f := fresh()
	p := &party{l: l}
	err := p.open()
	out = append(out, soloView{fmt.Sprint(err == nil), p.view(f), work(f)})
	for _, o := range ops {
		err := p.do(o)
		out = append(out, soloView{fmt.Sprint(err == nil), p.view(f), work(f)})
	}
	return
}

// pairRun runs operations on both and compares each with itself alone.
func pairRun(e *mc.Enum, ls [2]*layout, ops []pairOp, solos [2][]soloView) {
	f := fresh()
	var ps [2]*party
	var at [2]int
	look := func(what string, who int, err error) {
		e.Trans(1)
		if got := fmt.Sprint(err == nil); who >= 0 && got != solos[who][at[who]].err {
			vs.Failf("%s of torrent %c: %v; alone in the directories it is the other way round", what, 'A'+who, err)
		}
		var want []string
		for i, p := range ps {
			if p == nil {
				continue
			}
			want = append(want, solos[i][at[i]].work...)
			if got := p.view(f); got != solos[i][at[i]].view {
				vs.Failf("after %s torrent %c is %s; alone in the directories it would be %s", what, 'A'+i, got, solos[i][at[i]].view)
			}
		}
		sort.Strings(want)
		if got := work(f); fmt.Sprint(got) != fmt.Sprint(want) {
			vs.Failf("after %s the work directory holds %v; the torrents alone would have %v", what, got, want)
		}
	}
	for i := range ps {
		p := &party{l: ls[i]}
		err := p.open()
		if err != nil {
			vs.Failf("Load of torrent %c: %v", 'A'+i, err)
			return
		}
		ps[i] = p
		look("Load", i, err)
	}
	for _, o := range ops {
		at[o.who]++
		look(o.String(), o.who, ps[o.who].do(o))
		if vs.Failed() {
			return
		}
	}
	e.State(fmt.Sprint(ps[0].view(f), ps[1].view(f), work(f)))
}

// soloCache remembers what a torrent does alone.
type soloCache map[string][]soloView

func (c soloCache) get(l *layout, who int, ops []pairOp) []soloView {
	var own []pairOp
	for _, o := range ops {
		if o.who == who {
			own = append(own, o)
		}
	}
	k := fmt.Sprint(l.name, l.info.Name, l.info.SHA1, own)
	if _, ok := c[k]; !ok {
		c[k] = solo(l, own)
	}
	return c[k]
}

func pairCase(e *mc.Enum, c soloCache, a, b *layout, ops []pairOp, name string) {
	if !e.Mine() {
		return
	}
	ops = append([]pairOp(nil), ops...)
	e.Run([]byte(name), func() {
		seq(e, func() {
			// The two alone, then together.
			s := [2][]soloView{c.get(a, 0, ops), c.get(b, 1, ops)}
			pairRun(e, [2]*layout{a, b}, ops, s)
		})
	})
}

func pairSeqs(e *mc.Enum, a, b *layout) {
	var all []pairOp
	for w, l := range []*layout{a, b} {
		for k := 0; k < pKinds; k++ {
			for p := 0; p < l.pieces(); p++ {
				if k != pRestart || p == 0 {
					all = append(all, pairOp{w, k, p})
				}
			}
		}
	}
	c := soloCache{}
	// Shorter ones are the beginnings of these.
	ops := make([]pairOp, mc.Pick(5, 6))
	var rec func(k int)
	rec = func(k int) {
		if e.Stopped() {
			return
		}
		if k == len(ops) {
			pairCase(e, c, a, b, ops, fmt.Sprintf("%s and %s: %v", a.name, b.name, ops))
			return
		}
		for _, o := range all {
			ops[k] = o
			rec(k + 1)
		}
	}
	rec(0)
}

// pairHashes: info hashes that differ in one digit, or that a careless way of
// writing them makes equal.
func pairHashes(e *mc.Enum) {
	type hashes struct{ a, b [20]byte }
	var hs []hashes
	base := [20]byte{1, 2, 3, 0xab, 0x20, 0xff, 0, 0x0c, 0xc0, 0x99, 'A', 'a', 0x80, 5, 0x2f, 0x5c, 0x7f, 9, 0x10, 0x61}
	for i := 0; i < 40; i++ {
		for _, x := range []byte{1, 2, 8} {
			b := base
			b[i/2] ^= x << (i % 2 * 4)
			hs = append(hs, hashes{base, b})
		}
	}
	// Digits that shift, bytes that move, case, and what stands for nothing.
	hs = append(hs,
		hashes{[20]byte{0x01, 0x23}, [20]byte{0x12, 0x03}},
		hashes{[20]byte{0x01}, [20]byte{0x10}},
		hashes{[20]byte{1}, [20]byte{0, 1}},
		hashes{[20]byte{19: 1}, [20]byte{18: 1}},
		hashes{[20]byte{'a', 'b'}, [20]byte{'A', 'B'}},
		hashes{[20]byte{1, 2}, [20]byte{2, 1}},
		hashes{[20]byte{0xff}, [20]byte{19: 0xff}},
		hashes{[20]byte{0xfe}, [20]byte{0xfd}},
		hashes{[20]byte{0x80, 0x80}, [20]byte{0x81, 0x81}},
		hashes{[20]byte{}, [20]byte{19: 1}},
		hashes{[20]byte{' '}, [20]byte{}},
	)
	c := soloCache{}
	for li := 0; li < 4; li++ {
		for _, h := range hs {
			for _, flip := range []bool{false, true} {
				if e.Stopped() {
					return
				}
				a, b := pairLayouts(li)
				a.info.SHA1, b.info.SHA1 = h.a, h.b
				if flip {
					a.info.SHA1, b.info.SHA1 = h.b, h.a
				}
				for k, ops := range [][]pairOp{
					{{0, pGood, 0}, {1, pRestart, 0}, {1, pGood, 0}, {0, pRestart, 0}, {0, pGood, 1}, {1, pRestart, 0}, {1, pGood, 1}},
					{{0, pGood, 1}, {0, pBad, 0}, {1, pGood, 1}, {0, pReset, 0}, {1, pGood, 0}, {0, pRestart, 0}, {0, pGood, 0}},
					{{0, pGood, 0}, {1, pGood, 0}, {1, pGood, 1}, {0, pRestart, 0}, {0, pGood, 1}, {1, pRestart, 0}},
				} {
					ok := ops[:0:0]
					for _, o := range ops {
						if o.p < [2]*layout{a, b}[o.who].pieces() {
							ok = append(ok, o)
						}
					}
					pairCase(e, c, a, b, ok, fmt.Sprintf("%s and %s, %x and %x, history %d", a.name, b.name, a.info.SHA1, b.info.SHA1, k))
				}
			}
		}
	}
}

// pairKill: one is killed at every change it makes while the other is in every
// stage, and goes on being, in the same process or another.
func pairKill(e *mc.Enum) {
	for li := 0; li < 4; li++ {
		for flip := 0; flip < 2; flip++ {
			for stage := 0; stage < 4; stage++ {
				a, b := pairLayouts(li)
				if flip == 1 {
					a, b = b, a
				}
				h := history{l: a, order: a.blocks(), name: a.name}
				// The other has 0, 1 or all of its blocks, or is killed itself.
				from := fresh()
				o := &party{l: b}
				var err error
				pre := vs.Run(vs.Config{NoPoints: true}, nil, func() {
					err = o.open()
					for i, bl := range b.blocks() {
						if err == nil && (stage == 2 || i < stage && stage < 2) {
							err = b0(o, bl)
						}
					}
					if stage == 3 {
						n := 0
						from.Hook = func(op *vos.Op) vos.Verdict {
							if op.Kind == "write" {
								n++
								return vos.Verdict{Crash: true, Part: true, Short: 1}
							}
							return vos.Verdict{}
						}
						b0(o, b.blocks()[0])
					}
				})
				if pre.Outcome != vs.OK || err != nil {
					e.Casef(func() { e.Failf("%s: %s %v", pre.Outcome, pre.Msg, err) }, "%s, stage %d", b.name, stage)
					continue
				}
				from = vos.Cur.Clone()
				none := make([]bool, a.pieces())
				for _, c := range cutsOf(h, from, none) {
					if e.Stopped() {
						return
					}
					for again := 0; again < 2; again++ {
						e.Casef(func() {
							seq(e, func() { pairKilled(e, h, b, from, c, stage, again == 1) })
						}, "%s killed at change %d part %d beside %s in stage %d, started again %v", a.name, c.op, c.part, b.name, stage, again == 1)
					}
				}
			}
		}
	}
}

func b0(p *party, b blk) error { return p.s.PutBlock(b.p, b.off, p.l.good(b)) }

func pairKilled(e *mc.Enum, h history, b *layout, from *vos.FS, c cut, stage int, first bool) {
	f := from.Clone()
	vos.Cur = f
	f.Hook = crashHook(c)
	acked := make([]bool, h.l.pieces())
	session(h, acked)
	f = f.Clone()
	f.Hook = nil
	f.Open = 0
	vos.Cur = f
	a, o := &party{l: h.l}, &party{l: b}
	hadB := 0
	if stage < 3 {
		hadB = []int{0, 1, b.pieces()}[stage]
	}
	ps := []*party{a, o}
	if first {
		ps = []*party{o, a}
	}
	for _, p := range ps {
		if err := p.open(); err != nil {
			vs.Failf("Load of %s after the kill: %v", p.l.info.Name, err)
			return
		}
		e.Trans(1)
	}
	for i, ok := range acked {
		if ok && !has(a.s, i) {
			vs.Failf("piece %d of the killed torrent is lost", i)
		}
	}
	for i := 0; i < b.pieces(); i++ {
		if has(o.s, i) != (i < hadB) {
			vs.Failf("piece %d of the other torrent: complete is %v after the kill", i, has(o.s, i))
		}
	}
	served(a.l, a.s, vs.Failf)
	served(b, o.s, vs.Failf)
	e.State(fmt.Sprint(h.name, stage, f.Tree()))
	for _, p := range ps {
		for _, bl := range p.l.blocks() {
			if has(p.s, bl.p) {
				continue
			}
			if err := b0(p, bl); err != nil {
				vs.Failf("block %d of piece %d of %s: %v", bl.off, bl.p, p.l.info.Name, err)
				return
			}
			e.Trans(1)
		}
	}
	finished(f, a.l, b)
}

// finished compares the target directory with both torrents.
func finished(f *vos.FS, a, b *layout) {
	want := a.target()
	for n, d := range b.target() {
		want[n] = d
	}
	names, data := f.Files()
	for i, n := range names {
		if strings.HasPrefix(n, tdir+"/") {
			if w, ok := want[n]; !ok || !bytes.Equal([]byte(w), data[i]) {
				vs.Failf("in the end %s holds %x, not %x", n, data[i], want[n])
			}
			delete(want, n)
		}
	}
	if len(want) > 0 {
		vs.Failf("in the end %d files are missing", len(want))
	}
}

// pairConc: both at once, and the second is loaded while the first downloads.
func pairConc(a, b *layout) {
	f := fresh()
	pa, pb := &party{l: a}, &party{l: b}
	if err := pa.open(); err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	if vs.ChooseFree(2, "first block") == 1 {
		if err := b0(pa, a.blocks()[0]); err != nil {
			vs.Failf("put: %v", err)
		}
	}
	f.Quiet = false
	run := func(p *party, load bool) *vs.Thread {
		return vs.GoNamed(p.l.info.Name, func() {
			if load {
				if err := p.open(); err != nil {
					vs.Failf("Load of %s: %v", p.l.info.Name, err)
					return
				}
			}
			for _, bl := range p.l.blocks() {
				if has(p.s, bl.p) {
					continue
				}
				if err := b0(p, bl); err != nil {
					vs.Failf("block %d of piece %d of %s: %v", bl.off, bl.p, p.l.info.Name, err)
					return
				}
				if got, err := p.s.GetBlock(bl.p, 0, bl.n); err != nil || !bytes.Equal(got, p.l.bytes(bl.p)[:bl.n]) {
					vs.Failf("piece %d of %s is read as %x (%v)", bl.p, p.l.info.Name, got, err)
				}
			}
		})
	}
	vs.Join(run(pa, false), run(pb, true))
	f.Quiet = true
	if vs.Failed() {
		return
	}
	vs.Mix(fmt.Sprint(f.Tree()))
	for _, p := range []*party{pa, pb} {
		served(p.l, p.s, vs.Failf)
		if n := p.s.Downloaded(); n != p.l.info.GetLength() {
			vs.Failf("the counter of %s is at %d", p.l.info.Name, n)
		}
	}
	finished(f, a, b)
	for _, n := range work(f) {
		vs.Failf("in the end the work directory holds a file with %s", n)
	}
}
