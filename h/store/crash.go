package main

import (
	"fmt"
	"syscall"

	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C17",
		Units: []mc.Unit{
			{Name: "kill", Enum: func(e *mc.Enum) { crashEnum(e, false, 1) }},
			{Name: "kill twice", Enum: func(e *mc.Enum) { crashEnum(e, false, 2) }, Weight: 2},
			{Name: "kill three times", Enum: func(e *mc.Enum) { crashEnum(e, false, 3) }, ThoroughOnly: true, Weight: 3},
			{Name: "foreign files", Enum: foreignFiles, Weight: 0.5},
			{Name: "power loss", Enum: func(e *mc.Enum) { crashEnum(e, true, 1) }},
			{Name: "power loss twice", Enum: func(e *mc.Enum) { crashEnum(e, true, 2) }, Weight: 2},
		},
		Explain: "downloads of one to three pieces into one to four files, in every order, ended before every operation that changes the file system and after every part (none, one byte, half, all but one) of every write; then a restart, ended again the same way, or run to completion; for power loss, every file not flushed is in turn empty, half, full of zeros, or intact; restarts that find files of other names or sizes beside the pieces",
		Assumptions: []string{
			"a process kill loses nothing that was written; single operations of the file system (rename, mkdir, unlink) are atomic",
			"power loss: metadata operations reach the disk in order, data only when it is flushed",
		},
	})
	mc.Register(&mc.Check{
		ID: "C18", QuickSecs: 40,
		Units: []mc.Unit{
			{Name: "one fault", Enum: func(e *mc.Enum) { faultEnum(e, 1) }},
			{Name: "two faults", Enum: func(e *mc.Enum) { faultEnum(e, 2) }, Weight: 3},
			{Name: "from a point on", Enum: func(e *mc.Enum) { faultEnum(e, -1) }},
			{Name: "loading", Enum: loadFaults, Weight: 0.5},
			{Name: "serving", Enum: serveFaults, Weight: 0.5},
			{Name: "lost files", Enum: lostFiles, Weight: 0.5},
		},
		Explain:     "downloads of one to three pieces into one to four files in which each file-system operation in turn (and each pair, and everything from each one on) fails: EIO, ENOSPC after every part of a write, errors after part of a read, short reads, and in which piece files vanish, or a restart at every point meets the failure; after each, what is served, the bitfield and the counter; then the failed piece is fetched again, and finally the storage restarted and completed",
		Assumptions: []string{"a failed operation other than a write has had no effect; a flush that fails may be repeated"},
	})
}

// history is a layout and an order of its pieces.
type history struct {
	l     *layout
	order []blk
	name  string
}

func histories() (out []history) {
	ls := []*layout{
		mk(3, 2),
		mk(3, 6),
		mk(2, 5),
		mk(3, 4, fileSpec{"a", 4}),
		mk(3, 5, fileSpec{"a", 2}, fileSpec{"d/b", 3}),
		mk(2, 5, fileSpec{"d/a", 1}, fileSpec{"e", 0}, fileSpec{"d/b", 3}, fileSpec{"d/c", 1}),
		mk(block+2, block+3),
		mk(2*block, 2*block+1, fileSpec{"a", block + 1}, fileSpec{"b", block}),
	}
	for _, l := range ls {
		perms(l.pieces(), 3, func(p []int) {
			h := history{l: l, name: fmt.Sprintf("%s order %v", l.name, p)}
			for _, i := range p {
				h.order = append(h.order, l.blocksOf(i)...)
			}
			out = append(out, h)
		})
	}
	return
}

// session loads the storage and puts what it lacks, until it is done or an
// operation fails; acked tells what was complete when the session ended.
func session(h history, acked []bool) (s *storage.Storage, err error) {
	s, err = open(h.l)
	if err != nil {
		return
	}
	loaded := make([]bool, h.l.pieces())
	for i := range loaded {
		loaded[i] = has(s, i)
		acked[i] = acked[i] || loaded[i]
	}
	for _, b := range h.order {
		if loaded[b.p] {
			continue
		}
		err = s.PutBlock(b.p, b.off, h.l.good(b))
		if err != nil {
			return
		}
		if has(s, b.p) {
			acked[b.p] = true
		}
	}
	return
}

// cut is a place where a session ends.
type cut struct {
	op   int // ordinal among the operations that change the file system
	part int // -1: before it; else after this many bytes of the write
}

// crashHook ends the session at a cut.
func crashHook(c cut) func(*vos.Op) vos.Verdict {
	n := 0
	return func(o *vos.Op) vos.Verdict {
		if !o.Mut {
			return vos.Verdict{}
		}
		n++
		if n-1 != c.op {
			return vos.Verdict{}
		}
		if c.part >= 0 {
			return vos.Verdict{Crash: true, Part: true, Short: c.part}
		}
		return vos.Verdict{Crash: true}
	}
}

// cutsOf runs a session from a file system and lists where it can be ended.
func cutsOf(h history, from *vos.FS, acked []bool) (cuts []cut) {
	vos.Cur = from.Clone()
	n := 0
	vos.Cur.Hook = func(o *vos.Op) vos.Verdict {
		if o.Mut {
			cuts = append(cuts, cut{n, -1})
			if o.Kind == "write" {
				seen := map[int]bool{}
				for _, p := range []int{1, o.Size / 2, o.Size - 1, o.Size} {
					if p > 0 && !seen[p] {
						seen[p] = true
						cuts = append(cuts, cut{n, p})
					}
				}
			}
			n++
		}
		return vos.Verdict{}
	}
	vs.Run(vs.Config{NoPoints: true}, nil, func() {
		session(h, append([]bool(nil), acked...))
	})
	cuts = append(cuts, cut{n, -1}) // after everything
	return
}

const variants = 4

// lose gives the files that were not flushed one of the contents power loss may leave.
func lose(f *vos.FS, v int) {
	for _, n := range f.DirtyFiles() {
		switch v {
		case 0:
			n.Data = nil
		case 1:
			n.Data = n.Data[:len(n.Data)/2]
		case 2:
			n.Data = make([]byte, len(n.Data))
		}
		n.Dirty = false
	}
}

func crashEnum(e *mc.Enum, power bool, depth int) {
	for _, h := range histories() {
		if e.Stopped() {
			return
		}
		base := fresh()
		if power && h.l.piece > block && !mc.Thorough {
			continue
		}
		if depth == 3 && len(h.order) > 2 {
			continue
		}
		crashRec(e, h, base, make([]bool, h.l.pieces()), power, depth, h.name)
	}
}

// crashRec ends a session at every place and goes on from what is left.
func crashRec(e *mc.Enum, h history, from *vos.FS, acked []bool, power bool, depth int, desc string) {
	for _, c := range cutsOf(h, from, acked) {
		if e.Stopped() {
			return
		}
		vos.Cur = from.Clone()
		vos.Cur.Hook = crashHook(c)
		ack := append([]bool(nil), acked...)
		r := vs.Run(vs.Config{NoPoints: true}, nil, func() { session(h, ack) })
		if r.Outcome != vs.OK {
			// also reported by the case below, which repeats it
			e.Casef(func() { e.Failf("%s: %s", r.Outcome, r.Msg) }, "%s cut %v", desc, c)
			continue
		}
		left := vos.Cur.Clone()
		nv := 1
		if power {
			nv = variants
		}
		for v := 0; v < nv; v++ {
			g := left
			d := fmt.Sprintf("%s, ended at change %d part %d", desc, c.op, c.part)
			if power {
				g = left.Clone()
				lose(g, v)
				d += fmt.Sprintf(", unflushed data variant %d", v)
			}
			if depth > 1 {
				crashRec(e, h, g, ack, power, depth-1, d)
				continue
			}
			if !e.Mine() {
				continue
			}
			e.Run([]byte(d), func() {
				seq(e, func() { recovered(e, h, g.Clone(), ack) })
			})
		}
	}
}

// recovered restarts from what a crash left, checks it, and completes the torrent.
func recovered(e *mc.Enum, h history, f *vos.FS, acked []bool) {
	vos.Cur = f
	l := h.l
	s, err := open(l)
	if err != nil {
		vs.Failf("Load after the crash: %v", err)
		return
	}
	onward(e, h, f, s, acked, "after the crash")
}

// onward: what was complete is, and the rest can be downloaded.
func onward(e *mc.Enum, h history, f *vos.FS, s *storage.Storage, acked []bool, when string) {
	l := h.l
	done := served(l, s, func(m string, a ...any) { vs.Failf(when+": "+m, a...) })
	e.State(fmt.Sprint(h.name, done, f.Tree()))
	var n int64
	for i := range done {
		if acked[i] && !done[i] {
			vs.Failf("%s: piece %d was complete before and is lost", when, i)
		}
		if has(s, i) != done[i] {
			vs.Failf("%s piece %d in the bitfield=%v, served=%v", when, i, has(s, i), done[i])
		}
		if done[i] {
			n += int64(len(l.bytes(i)))
		}
	}
	if s.Downloaded() != n {
		vs.Failf("%s downloaded is %d, the pieces have %d", when, s.Downloaded(), n)
	}
	for _, b := range h.order {
		if done[b.p] {
			continue
		}
		e.Trans(1)
		if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
			vs.Failf("%s block %d of piece %d is refused: %v", when, b.off, b.p, err)
			return
		}
	}
	complete(l, s, f, when+" and the rest of the download")
}

// complete checks a finished torrent, and what a restart makes of it.
func complete(l *layout, s *storage.Storage, f *vos.FS, when string) {
	if d := targetDiff(f, l); d != "" {
		vs.Failf("%s the target %s", when, d)
		return
	}
	if err := s.Torrent.Wait(); err != nil {
		vs.Failf("%s the torrent's waiter gets %v", when, err)
	}
	for i, ok := range served(l, s, vs.Failf) {
		if !ok {
			vs.Failf("%s piece %d is not served", when, i)
		}
	}
	if s.Downloaded() != int64(len(l.data)) {
		vs.Failf("%s downloaded is %d", when, s.Downloaded())
	}
}

// ---- faults

// fault makes one operation fail.
type fault struct {
	op   int
	kind int
}

const faultKinds = 4

// verdict is what a fault of a kind does to an operation; false if the kind does not apply.
func verdict(o *vos.Op, kind int) (vos.Verdict, bool) {
	switch {
	case kind == 0:
		return vos.Verdict{Err: syscall.EIO}, true
	case o.Kind == "write" && o.Size > 0:
		return vos.Verdict{Err: syscall.ENOSPC, Part: true, Short: []int{0, 1, o.Size / 2, o.Size - 1}[kind]}, kind == 1 && o.Size > 1 || o.Size > 2
	case o.Kind == "read" && o.Size > 1 && kind == 1:
		return vos.Verdict{Part: true, Short: 1}, true
	case o.Kind == "read" && o.Size > 1 && kind == 2:
		return vos.Verdict{Err: syscall.EIO, Part: true, Short: 1}, true
	}
	return vos.Verdict{}, false
}

type faultPlan struct {
	fs    []fault
	ever  bool // everything from the first fault on fails
	n     int
	hit   int
	hard  int // hits that must not go unnoticed
	kinds []string
}

func (p *faultPlan) hook(o *vos.Op) vos.Verdict {
	k := p.n
	p.n++
	if p.fs == nil { // survey
		s := o.Kind
		p.kinds = append(p.kinds, s)
		return vos.Verdict{}
	}
	for _, f := range p.fs {
		if f.op == k || p.ever && k >= f.op {
			if v, ok := verdict(o, f.kind); ok {
				p.hit++
				// Removing what is not needed any more may fail unnoticed.
				// A read that breaks off gives what there is, and may be repeated.
				if v.Err != nil && o.Kind != "close" && o.Kind != "remove" && !(o.Kind == "read" && v.Part) {
					p.hard++
				}
				return v
			}
		}
	}
	return vos.Verdict{}
}

func faultEnum(e *mc.Enum, mode int) {
	for _, h := range histories() {
		if e.Stopped() {
			return
		}
		if mode == 2 && len(h.order) > mc.Pick(3, 4) {
			continue
		}
		// operations of the first session, and some more that retries add
		fresh()
		p := &faultPlan{}
		vos.Cur.Hook = p.hook
		vs.Run(vs.Config{NoPoints: true}, nil, func() { session(h, make([]bool, h.l.pieces())) })
		ops := len(p.kinds)
		try := func(fs []fault, ever bool) {
			if !e.Mine() {
				return
			}
			e.Run([]byte(fmt.Sprintf("%s faults %v (forever %v)", h.name, fs, ever)), func() {
				seq(e, func() { faulty(e, h, &faultPlan{fs: fs, ever: ever}) })
			})
		}
		for a := 0; a < ops; a++ {
			for ka := 0; ka < faultKinds; ka++ {
				if ka > 0 && p.kinds[a] != "write" && p.kinds[a] != "read" {
					continue
				}
				switch mode {
				case 1:
					try([]fault{{a, ka}}, false)
				case -1:
					try([]fault{{a, ka}}, true)
				case 2:
					for b := a + 1; b < ops+12; b++ {
						for kb := 0; kb < faultKinds; kb++ {
							if kb > 1 && b < ops && p.kinds[b] != "write" && p.kinds[b] != "read" {
								continue
							}
							try([]fault{{a, ka}, {b, kb}}, false)
						}
						if e.Stopped() {
							return
						}
					}
				}
			}
		}
	}
}

// faulty downloads over a file system that fails as planned, then over one that works.
func faulty(e *mc.Enum, h history, p *faultPlan) {
	l := h.l
	f := fresh()
	f.Hook = p.hook
	s, err := open(l)
	if err != nil {
		if p.hit == 0 {
			vs.Failf("Load: %v", err)
			return
		}
		served(l, s, vs.Failf)
		s = nil
	} else if p.hard > 0 {
		vs.Failf("Load reports success although an operation failed")
	}
	check := func(when string) {
		f.Hook = nil
		done := served(l, s, func(m string, a ...any) { vs.Failf(when+": "+m, a...) })
		var n int64
		for i := range done {
			// Between the target's appearance and the end of the clean-up a
			// piece may be unreadable until the restart; it must not be wrong.
			if done[i] && !has(s, i) {
				vs.Failf("%s: piece %d is served and not in the bitfield", when, i)
			}
			if !done[i] && has(s, i) && !f.Exists(tdir+"/"+l.info.Name) {
				vs.Failf("%s: piece %d is in the bitfield and not served", when, i)
			}
			if has(s, i) {
				n += int64(len(l.bytes(i)))
			}
		}
		if s.Downloaded() != n {
			vs.Failf("%s: downloaded is %d, the complete pieces have %d", when, s.Downloaded(), n)
		}
		onDisk(f, l, nil)
		if !targetEmpty(f) {
			if d := targetDiff(f, l); d != "" {
				vs.Failf("%s: the target %s", when, d)
			}
		}
		f.Hook = p.hook
	}
	stuck := false
	if s != nil {
	pieces:
		for k := 0; k < len(h.order); {
			pc := h.order[k].p
			n := len(l.blocksOf(pc))
			for try := 0; try < 4; try++ {
				var err error
				hit, hard := p.hit, p.hard
				for _, b := range h.order[k : k+n] {
					e.Trans(1)
					if err = s.PutBlock(b.p, b.off, l.good(b)); err != nil {
						break
					}
				}
				check(fmt.Sprintf("piece %d, attempt %d (%v)", pc, try, err))
				if err != nil && p.hit == hit {
					vs.Failf("piece %d, attempt %d: %v without a fault", pc, try, err)
				}
				if err == nil && p.hard > hard {
					vs.Failf("piece %d, attempt %d: an operation failed and success is reported", pc, try)
				}
				if isChecksum(err) {
					vs.Failf("piece %d, attempt %d: a fault is reported as wrong data", pc, try)
				}
				if vs.Failed() {
					return
				}
				if err == nil {
					if !has(s, pc) {
						vs.Failf("piece %d: all blocks are accepted, it is not complete", pc)
					}
					if k+n == len(h.order) {
						f.Hook = nil
						complete(l, s, f, "when the last block is accepted")
					}
					break
				}
				if has(s, pc) {
					// it was the assembly that failed; only a restart repeats it
					stuck = true
					break pieces
				}
				if got := s.GetPiece(pc).Wait(); got == nil {
					vs.Failf("piece %d: the waiter of a failed attempt gets nil", pc)
				}
				s.ResetPiece(pc)
				if try == 3 {
					stuck = true
					break pieces
				}
			}
			k += n
		}
	}
	if stuck {
		e.Count("restarts needed", 1)
	}
	// The disk works again, and the process is restarted.
	f.Hook = nil
	acked := make([]bool, l.pieces())
	if s != nil {
		for i := range acked {
			acked[i] = has(s, i)
		}
	}
	recovered(e, h, f, acked)
}

// serveFaults: reads of blocks that fail or come short.
func serveFaults(e *mc.Enum) {
	for _, h := range histories() {
		for _, whole := range []bool{false, true} {
			if !whole && h.l.pieces() < 2 {
				continue
			}
			for i := 0; i < h.l.pieces(); i++ {
				if !whole && i == h.order[len(h.order)-1].p {
					continue
				}
				for _, r := range ranges(len(h.l.bytes(i))) {
					if e.Stopped() {
						return
					}
					e.Casef(func() { seq(e, func() { serveCase(e, h, whole, i, r) }) }, "%s whole=%v piece %d %d+%d", h.name, whole, i, r[0], r[1])
				}
			}
		}
	}
}

func serveCase(e *mc.Enum, h history, whole bool, i int, r [2]int) {
	l := h.l
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	for _, b := range h.order {
		if whole || b.p != h.order[len(h.order)-1].p {
			if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
				vs.Failf("put: %v", err)
			}
		}
	}
	for op := 0; op < 24; op++ {
		for kind := 0; kind < 3; kind++ {
			p := &faultPlan{fs: []fault{{op, kind}}}
			f.Hook = p.hook
			got, err := s.GetBlock(i, r[0], r[1])
			f.Hook = nil
			e.Trans(1)
			if err == nil && string(got) != string(l.bytes(i)[r[0]:r[0]+r[1]]) {
				vs.Failf("with fault %d of kind %d, the get gives %d bytes that are not the torrent's", op, kind, len(got))
			}
			if err != nil && p.hit == 0 {
				vs.Failf("get fails without a fault: %v", err)
			}
			// it works again
			got, err = s.GetBlock(i, r[0], r[1])
			if err != nil || string(got) != string(l.bytes(i)[r[0]:r[0]+r[1]]) {
				vs.Failf("after fault %d of kind %d, the get gives %d bytes, %v", op, kind, len(got), err)
			}
		}
	}
}

// lostFiles: piece files that vanish are errors when they are needed; nothing
// is assembled from the rest, and what is lost can be fetched after a restart.
func lostFiles(e *mc.Enum) {
	for _, h := range histories() {
		if e.Stopped() {
			return
		}
		n := h.l.pieces()
		last := h.order[len(h.order)-1].p
		for set := 1; set < 1<<n; set++ {
			if set&(1<<last) != 0 {
				continue
			}
			e.Casef(func() {
				seq(e, func() { lost(e, h, set) })
			}, "%s lost %b", h.name, set)
		}
	}
}

func lost(e *mc.Enum, h history, set int) {
	l := h.l
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	last := h.order[len(h.order)-1]
	for _, b := range h.order[:len(h.order)-1] {
		e.Trans(1)
		if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
			vs.Failf("block %d of piece %d: %v", b.off, b.p, err)
			return
		}
	}
	for i := 0; i < l.pieces(); i++ {
		if set&(1<<i) != 0 {
			if err := vos.Remove(wdir + "/" + s.Torrent.WorkDir() + "/" + s.GetPiece(i).FileName()); err != nil {
				vs.Failf("the file of piece %d: %v", i, err)
				return
			}
		}
	}
	for i := 0; i < l.pieces(); i++ {
		d, err := s.GetBlock(i, 0, len(l.bytes(i)))
		if set&(1<<i) != 0 && err == nil {
			vs.Failf("piece %d is served without its file: %q", i, d)
		}
	}
	if err := s.PutBlock(last.p, last.off, l.good(last)); err == nil {
		vs.Failf("the torrent is complete without the files of some pieces")
	}
	e.State(fmt.Sprint(h.name, set, f.Tree()))
	if !targetEmpty(f) {
		vs.Failf("there is a target without the files of some pieces")
		return
	}
	recovered(e, h, f, make([]bool, l.pieces()))
}

// loadFaults: restarts at every point of a download over a file system that fails.
func loadFaults(e *mc.Enum) {
	for _, h := range histories() {
		for k := 0; k <= len(h.order); k++ {
			for stuck := 0; stuck < 2; stuck++ {
				if stuck == 1 && k < len(h.order) {
					continue // only the assembly is left
				}
				for op := 0; op < 60; op++ {
					for kind := 0; kind < faultKinds; kind++ {
						if e.Stopped() {
							return
						}
						e.Casef(func() { seq(e, func() { loadCase(e, h, k, stuck == 1, fault{op, kind}) }) }, "%s after %d blocks (target missing: %v), fault %v", h.name, k, stuck == 1, fault{op, kind})
					}
				}
			}
		}
	}
}

func loadCase(e *mc.Enum, h history, k int, stuck bool, x fault) {
	l := h.l
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	if stuck {
		f.Hook = func(o *vos.Op) (v vos.Verdict) {
			if o.Kind == "rename" && len(o.To) > len(tdir) && o.To[:len(tdir)] == tdir {
				v.Err = syscall.EIO
			}
			return
		}
	}
	for _, b := range h.order[:k] {
		e.Trans(1)
		if err = s.PutBlock(b.p, b.off, l.good(b)); err != nil && !stuck {
			vs.Failf("block %d of piece %d: %v", b.off, b.p, err)
			return
		}
	}
	acked := make([]bool, l.pieces())
	for i := range acked {
		acked[i] = has(s, i)
	}
	p := &faultPlan{fs: []fault{x}}
	f.Hook = p.hook
	t, err := open(l)
	f.Hook = nil
	if err == nil && p.hard > 0 {
		vs.Failf("Load reports success although an operation failed")
	}
	if err != nil && p.hit == 0 {
		vs.Failf("Load: %v", err)
	}
	served(l, t, vs.Failf)
	e.State(fmt.Sprint(h.name, err, f.Tree()))
	// The same storage may be loaded again.
	vos.Cur = f.Clone()
	if err := t.Load(); err != nil {
		vs.Failf("Load again: %v", err)
		return
	}
	onward(e, h, vos.Cur, t, acked, "loaded again")
	recovered(e, h, f, acked)
}

// foreignFiles: what lies beside the pieces, or in place of one, is no piece.
func foreignFiles(e *mc.Enum) {
	names := []string{"%d.piece~", "0%d.piece", "+%d.piece", "%d.piece.1", "-%d.piece", " %d.piece", "%d", ".piece", "9%d.piece", "99999999999999999999%d.piece", "%dx.piece", "%d.piece/", "piece", "%d.PIECE"}
	for _, h := range histories() {
		n := h.l.pieces()
		for k := 0; k <= len(h.order); k++ {
			for i := 0; i < n; i++ {
				for name := -1; name < len(names); name++ {
					for size := 0; size < 4; size++ {
						if e.Stopped() {
							return
						}
						if name == -1 && size == 0 {
							continue
						}
						w := "a piece file of another size"
						if name >= 0 {
							w = names[name]
						}
						e.Casef(func() { seq(e, func() { foreign(e, h, k, i, w, name >= 0, size) }) }, "%s after %d blocks, %s for %d, size %d", h.name, k, w, i, size)
					}
				}
			}
		}
	}
}

func foreign(e *mc.Enum, h history, k, i int, name string, beside bool, size int) {
	l := h.l
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	for _, b := range h.order[:k] {
		e.Trans(1)
		if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
			vs.Failf("block %d of piece %d: %v", b.off, b.p, err)
			return
		}
	}
	acked := make([]bool, l.pieces())
	for j := range acked {
		acked[j] = has(s, j)
	}
	dir := wdir + "/" + s.Torrent.WorkDir()
	f.Mkdir(dir)
	if k == len(h.order) {
		// Killed before the target was put together.
		f = fresh()
		f.Mkdir(dir)
		for j := range acked {
			f.Put(dir+"/"+s.GetPiece(j).FileName(), append([]byte{}, l.bytes(j)...))
		}
	}
	w := l.bytes(i)
	d := [][]byte{w, w[:len(w)-1], append(append([]byte{}, w...), 7), nil}[size]
	if !beside {
		if has(s, i) {
			return
		}
		f.Put(dir+"/"+s.GetPiece(i).FileName(), append([]byte{}, d...))
	} else {
		n := name
		if c := fmt.Sprintf(name, i); name != ".piece" && name != "piece" {
			n = c
		}
		if n[len(n)-1] == '/' {
			if has(s, i) {
				return
			}
			f.Mkdir(dir + "/" + n[:len(n)-1])
			// A directory in the place of a piece is in the way for good.
			t, err := open(l)
			if err == nil && has(t, i) {
				vs.Failf("a directory is taken for piece %d", i)
			}
			return
		}
		f.Put(dir+"/"+n, append([]byte{}, d...))
	}
	recovered(e, h, f, acked)
}
