package main

import (
	"fmt"
	"strings"

	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	small := mk(2, 4)
	multi := mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2})
	mc.Register(&mc.Check{
		ID: "C41",
		Units: []mc.Unit{
			{Name: "downloads", Enum: litterPlain},
			{Name: "one fault", Enum: func(e *mc.Enum) { litterFaults(e, 1) }, Weight: 2},
			{Name: "two faults", Enum: func(e *mc.Enum) { litterFaults(e, 2) }, Weight: 3},
			{Name: "from a point on", Enum: func(e *mc.Enum) { litterFaults(e, -1) }},
			{Name: "serving", Enum: litterServing, Weight: 0.5},
			{Name: "kill", Enum: func(e *mc.Enum) { litterKill(e, 1) }},
			{Name: "kill twice", Enum: func(e *mc.Enum) { litterKill(e, 2) }, Weight: 2},
			{Name: "together", Cfg: vs.Config{}, Bound: 1, BoundT: 2, Weight: 2, Body: func() { litterConc(small) }},
			{Name: "together, files", Cfg: vs.Config{}, Bound: 1, BoundT: 2, Weight: 2, Body: func() { litterConc(multi) }},
		},
		Explain:     "downloads of one to three pieces into one to four files in every order, with right and wrong blocks, resets and restarts, in which no, each, or each pair of file-system operations fails, or everything from one on; reads of every range that fail at every operation; processes killed once or twice before every change and in every write, beside another torrent's temporary files; two and three calls at once under all schedules within the bound; after each call the open files and the files below the work directory",
		Assumptions: []string{"closing a file releases it even if it reports an error"},
	})
}

// neat looks for what a call has left behind: open files, and files in the work
// directory that are no complete piece (or more than one for a piece).
func neat(f *vos.FS, l *layout, s *storage.Storage, foreign map[string]bool, failed bool, when string) {
	if f.Open != 0 {
		vs.Failf("%s: %d files are still open", when, f.Open)
	}
	if failed {
		// What could not be removed stays.
		return
	}
	room := map[string]int{}
	for i := 0; i < l.pieces(); i++ {
		if s == nil || has(s, i) {
			room[string(l.bytes(i))]++
		}
	}
	names, data := f.Files()
	for i, n := range names {
		if !strings.HasPrefix(n, wdir+"/") {
			continue
		}
		if foreign[n] {
			continue
		}
		if d := string(data[i]); room[d] > 0 {
			room[d]--
		} else {
			vs.Failf("%s: the work directory has %s (%d bytes), which is no complete piece", when, n, len(d))
		}
	}
	dirs := 0
	for _, n := range f.Tree() {
		if strings.HasPrefix(n, wdir+"/") && strings.HasSuffix(n, "/") {
			dirs++
		}
	}
	if dirs > 4+len(foreign) {
		vs.Failf("%s: the work directory has %d directories: %v", when, dirs, f.Tree())
	}
}

// removal makes a plan's hook remember that a removal has failed.
func removal(p *faultPlan, failed *bool) func(*vos.Op) vos.Verdict {
	return func(o *vos.Op) vos.Verdict {
		v := p.hook(o)
		if v.Err != nil && (o.Kind == "remove" || o.Kind == "readdir") {
			*failed = true
		}
		return v
	}
}

// litterRun downloads: every piece first with a wrong block, then partly and
// reset, then right; a restart in the middle and one in the end.
func litterRun(e *mc.Enum, h history, f *vos.FS, hook func(*vos.Op) vos.Verdict, failed *bool, wrong bool, restart int) {
	l := h.l
	f.Hook = hook
	s, err := open(l)
	blind := err != nil
	look := func(when string) {
		e.Trans(1)
		t := s
		if blind {
			t = nil
		}
		neat(f, l, t, nil, *failed, when)
	}
	look(fmt.Sprintf("Load (%v)", err))
	for k := 0; k < len(h.order) && !vs.Failed(); {
		pc := h.order[k].p
		bs := h.order[k : k+len(l.blocksOf(pc))]
		k += len(bs)
		if k-len(bs) >= restart && restart >= 0 {
			restart = -1
			s, err = open(l)
			blind = err != nil
			look(fmt.Sprintf("another Load (%v)", err))
			if err != nil {
				s, err = open(l)
				blind = err != nil
				look(fmt.Sprintf("a third Load (%v)", err))
			}
			if err == nil && has(s, pc) {
				continue
			}
		}
		if wrong {
			for i, b := range bs {
				d := l.good(b)
				if i == 0 {
					d = l.bad(b)
				}
				err := s.PutBlock(b.p, b.off, d)
				look(fmt.Sprintf("block %d of piece %d, wrong piece (%v)", b.off, b.p, err))
			}
			s.ResetPiece(pc)
		}
		for try := 0; try < 3; try++ {
			var err error
			for _, b := range bs {
				if err = s.PutBlock(b.p, b.off, l.good(b)); err != nil {
					err = fmt.Errorf("%d: %w", b.off, err)
				}
				look(fmt.Sprintf("block %d of piece %d, attempt %d (%v)", b.off, b.p, try, err))
				if err != nil {
					break
				}
			}
			if err == nil || has(s, pc) {
				break
			}
			s.ResetPiece(pc)
			look("reset")
		}
		_, err := s.GetBlock(pc, 0, len(l.bytes(pc)))
		look(fmt.Sprintf("getting piece %d (%v)", pc, err))
	}
	f.Hook = nil
	t, err := open(l)
	if err != nil {
		vs.Failf("the last Load: %v", err)
		return
	}
	s = t
	neat(f, l, s, nil, false, "the last Load")
	e.State(fmt.Sprint(h.name, f.Tree()))
}

func litterPlain(e *mc.Enum) {
	for _, h := range histories() {
		for _, wrong := range []bool{false, true} {
			for restart := -1; restart <= len(h.order); restart++ {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					seq(e, func() {
						no := false
						litterRun(e, h, fresh(), nil, &no, wrong, restart)
					})
				}, "%s wrong=%v restart=%d", h.name, wrong, restart)
			}
		}
	}
}

func litterFaults(e *mc.Enum, mode int) {
	for _, h := range histories() {
		if mode == 2 && len(h.order) > mc.Pick(2, 3) {
			continue
		}
		for _, restart := range []int{-1, 1} {
			for _, wrong := range []bool{false, true} {
				if mode == 2 && wrong {
					continue
				}
				no := false
				fresh()
				p := &faultPlan{}
				vs.Run(vs.Config{NoPoints: true}, nil, func() { litterRun(e, h, vos.Cur, p.hook, &no, wrong, restart) })
				ops := len(p.kinds)
				try := func(ever bool, fs ...fault) {
					if !e.Mine() {
						return
					}
					e.Run([]byte(fmt.Sprintf("%s wrong=%v restart=%d faults %v (forever %v)", h.name, wrong, restart, fs, ever)), func() {
						seq(e, func() {
							p := &faultPlan{fs: fs, ever: ever}
							failed := false
							litterRun(e, h, fresh(), removal(p, &failed), &failed, wrong, restart)
						})
					})
				}
				for a := 0; a < ops; a++ {
					if e.Stopped() {
						return
					}
					for ka := 0; ka < faultKinds; ka++ {
						if ka > 0 && p.kinds[a] != "write" && p.kinds[a] != "read" {
							continue
						}
						switch mode {
						case 1:
							try(false, fault{a, ka})
						case -1:
							try(true, fault{a, ka})
						case 2:
							for b := a + 1; b < ops+12; b++ {
								for kb := 0; kb < 2; kb++ {
									try(false, fault{a, ka}, fault{b, kb})
								}
							}
						}
					}
				}
			}
		}
	}
}

// litterServing: reads that fail at every operation.
func litterServing(e *mc.Enum) {
	for _, h := range histories() {
		for _, whole := range []bool{false, true} {
			if !whole && h.l.pieces() < 2 {
				continue
			}
			for i := 0; i < h.l.pieces(); i++ {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					seq(e, func() {
						l := h.l
						f := fresh()
						s, err := open(l)
						if err != nil {
							vs.Failf("Load: %v", err)
							return
						}
						for _, b := range h.order {
							if whole || b.p != h.order[len(h.order)-1].p {
								if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
									vs.Failf("put: %v", err)
								}
							}
						}
						for _, r := range ranges(len(l.bytes(i))) {
							for op := -1; op < 24; op++ {
								for kind := 0; kind < 3; kind++ {
									p := &faultPlan{fs: []fault{{op, kind}}}
									f.Hook = p.hook
									_, err := s.GetBlock(i, r[0], r[1])
									f.Hook = nil
									e.Trans(1)
									neat(f, l, s, nil, false, fmt.Sprintf("getting %d+%d of piece %d, fault %d of kind %d (%v)", r[0], r[1], i, op, kind, err))
								}
							}
						}
						e.State(fmt.Sprint(h.name, whole, i))
					})
				}, "%s whole=%v piece %d", h.name, whole, i)
			}
		}
	}
}

// litterKill: what a killed process left in the middle of a call is gone once
// the torrent is loaded again; what another torrent's storage is about is not.
func litterKill(e *mc.Enum, depth int) {
	for _, h := range histories() {
		if e.Stopped() {
			return
		}
		litterKillRec(e, h, fresh(), depth, h.name)
	}
}

func litterKillRec(e *mc.Enum, h history, from *vos.FS, depth int, desc string) {
	none := make([]bool, h.l.pieces())
	for _, c := range cutsOf(h, from, none) {
		if e.Stopped() {
			return
		}
		vos.Cur = from.Clone()
		vos.Cur.Hook = crashHook(c)
		r := vs.Run(vs.Config{NoPoints: true}, nil, func() { session(h, append([]bool(nil), none...)) })
		d := fmt.Sprintf("%s, killed at change %d part %d", desc, c.op, c.part)
		if r.Outcome != vs.OK {
			e.Casef(func() { e.Failf("%s: %s", r.Outcome, r.Msg) }, "%s", d)
			continue
		}
		left := vos.Cur.Clone()
		if depth > 1 {
			litterKillRec(e, h, left, depth-1, d)
			continue
		}
		if !e.Mine() {
			continue
		}
		e.Run([]byte(d), func() {
			seq(e, func() {
				f := left.Clone()
				vos.Cur = f
				l := h.l
				foreign := othersTemps(f, l)
				s, err := open(l)
				if err != nil {
					vs.Failf("Load after the kill: %v", err)
					return
				}
				e.Trans(1)
				neat(f, l, s, foreign, false, "Load after the kill")
				for n := range foreign {
					if !f.Exists(n) {
						vs.Failf("Load has removed %s, which is another torrent's", n)
					}
				}
				e.State(fmt.Sprint(h.name, f.Tree()))
				for _, b := range h.order {
					if has(s, b.p) {
						continue
					}
					if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
						vs.Failf("block %d of piece %d: %v", b.off, b.p, err)
						return
					}
				}
				neat(f, l, s, foreign, false, "after the rest of the download")
			})
		})
	}
}

// othersTemps has another torrent be killed in the same directories, at a
// moment at which it has written most of its temporary file.
func othersTemps(f *vos.FS, l *layout) map[string]bool {
	before := map[string]bool{}
	names, _ := f.Files()
	for _, n := range names {
		before[n] = true
	}
	o := mk(5, 3)
	o.info.Name = "other"
	o.info.SHA1 = [20]byte{1, 2, 3, 0xac}
	f.Hook = func(op *vos.Op) vos.Verdict {
		if op.Kind == "write" {
			return vos.Verdict{Crash: true, Part: true, Short: 2}
		}
		return vos.Verdict{}
	}
	s := storage.New(tdir, wdir, o.info)
	s.Load()
	s.PutBlock(0, 0, o.good(blk{0, 0, 3}))
	*f = *f.Clone()
	f.Open = 0
	out := map[string]bool{}
	names, _ = f.Files()
	for _, n := range names {
		if !before[n] {
			out[n] = true
		}
	}
	return out
}

// litterConc: calls at the same time leave nothing either.
func litterConc(l *layout) {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	bs := l.blocks()
	if vs.ChooseFree(2, "start") == 1 {
		if err := s.PutBlock(bs[1].p, bs[1].off, l.good(bs[1])); err != nil {
			vs.Failf("put: %v", err)
			return
		}
	}
	x := vs.ChooseFree(12, "fault") // from the twelfth on nothing fails
	p := &faultPlan{fs: []fault{{x, 0}}}
	failed := false
	f.Hook = removal(p, &failed)
	if x == 11 {
		f.Hook = nil
	}
	f.Quiet = false
	var ts []*vs.Thread
	for t := 0; t < 3; t++ {
		b := bs[t%2]
		k := vs.ChooseFree(4, "call")
		ts = append(ts, vs.GoNamed("client", func() {
			switch k {
			case 0:
				s.PutBlock(b.p, b.off, l.good(b))
			case 1:
				s.PutBlock(b.p, b.off, l.bad(b))
			case 2:
				s.GetBlock(b.p, 0, b.n)
			case 3:
				s.ResetPiece(b.p)
				s.PutBlock(b.p, b.off, l.good(b))
			}
		}))
	}
	vs.Join(ts...)
	f.Quiet = true
	f.Hook = nil
	vs.Mix(fmt.Sprint(f.Tree()))
	neat(f, l, s, nil, failed, "when all calls have returned")
}
