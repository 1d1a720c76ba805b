package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

// A server whose disk fails.

var diskPlans = []plan{
	{l: mk(2, 3), interval: 60, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{}, leech: true}}},
	{l: mk(2, 3), interval: 60, peers: []peerPlan{{have: []int{0, 1}, dialed: true}}},
	{l: mk(2, 5), pre: []int{1}, interval: 60, peers: []peerPlan{{have: []int{0}}, {have: []int{2}, dialed: true}, {have: []int{}, leech: true}}},
	{l: mk(2, 5, fileSpec{"a", 1}, fileSpec{"d/b", 4}), pre: []int{0}, interval: 60, peers: []peerPlan{{have: []int{1, 2}, leech: true}, {have: []int{1}}}},
	{l: mk(block+1, 2*block+1), interval: 60, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{0, 1}, dialed: true, leech: true}}},
}

// wreck is what happens to the disk.
type wreck struct {
	op   int           // counted from the start of the server
	kind int           // how it fails
	last time.Duration // later ones fail as well, for so long
	full bool          // of those, only what needs space fails
}

func (x wreck) String() string {
	s := fmt.Sprintf("operation %d fails in way %d", x.op, x.kind)
	if x.last > 0 {
		s += fmt.Sprintf(", and those of the next %v", x.last)
		if x.full {
			s += " that need space"
		}
	}
	return s
}

// spoil is what a fault does to an operation; false if it does not apply.
func spoil(o *vos.Op, kind int) (vos.Verdict, bool) {
	switch {
	case kind == 0:
		return vos.Verdict{Err: syscall.EIO}, true
	case kind == 1 && o.Kind == "write" && o.Size > 0:
		return vos.Verdict{Err: syscall.ENOSPC, Part: true, Short: o.Size / 2}, true
	case kind == 1 && o.Kind == "read" && o.Size > 1:
		return vos.Verdict{Err: syscall.EIO, Part: true, Short: 1}, true
	}
	return vos.Verdict{}, false
}

type disk struct {
	*scene
	x      wreck
	n      int
	hit    bool
	until  time.Duration
	stored int  // pieces under their final names
	late   bool // a fault came when all pieces were stored
	what   string
}

func (d *disk) hook(o *vos.Op) (v vos.Verdict) {
	k := d.n
	d.n++
	hit := false
	if k == d.x.op {
		v, hit = spoil(o, d.x.kind)
		if hit {
			d.until = vs.Elapsed() + d.x.last
			d.what = o.Kind
		}
	} else if d.hit && vs.Elapsed() < d.until && (!d.x.full || o.Kind == "write" && o.Size > 0 || o.Kind == "create" || o.Kind == "mkdir") {
		v, hit = vos.Verdict{Err: syscall.ENOSPC}, true
	}
	if hit {
		d.hit = true
		d.late = d.late || d.stored == d.l.n()
	}
	if o.Kind == "rename" && strings.HasSuffix(o.To, ".piece") && v.Err == nil {
		d.stored++
	}
	return
}

// stored tells whether a piece is on the disk; it only looks.
func (d *disk) holds(i int) bool {
	return d.finished() || string(d.fs.Get(fmt.Sprintf("%s/%x/%d.piece", wdir, theSHA, i))) == string(d.l.bytes(i))
}

func diskRun(p plan, x wreck) (n int) {
	s := setup(p)
	s.p.persist = true
	d := &disk{scene: s, x: x, stored: len(p.pre)}
	desc := fmt.Sprintf("%v; %v", p, x)
	gone := 0
	s.check = func(m *member, r *remote, z msg) {
		switch z.typ {
		case mPiece:
			if !d.l.isBlock(z.b) || string(z.data) != string(d.l.bytes(z.b.p)[z.b.off:z.b.off+z.b.n]) {
				vs.Failf("%s: peer %d is served %v, which is not of the torrent", desc, m.k, z)
			}
		case mHave, mBitfield:
			for _, i := range sorted(r.knows()) {
				if i >= d.l.n() || !d.holds(i) {
					vs.Failf("%s: peer %d is told of piece %d, which is not on the disk", desc, m.k, i)
				}
			}
		}
	}
	d.fs.Hook = d.hook
	s.start()
	settle(0)
	limit := 5*time.Minute + 2*x.last
	for s.started.Done() {
		// Load met the fault.
		if s.err == nil {
			vs.Failf("%s: Start returns without an error", desc)
		}
		if !d.hit || vs.Elapsed() > limit {
			vs.Failf("%s: Start returns %v", desc, s.err)
			return d.n
		}
		settle(5 * time.Second)
		s.make()
		s.start()
		settle(0)
	}
	s.enter()
	all := func() bool {
		if s.started.Done() {
			return true
		}
		for i := 0; i < d.l.n(); i++ {
			if !d.holds(i) {
				return false
			}
		}
		return d.late || s.finished()
	}
	limit += vs.Elapsed()
	if !await(all, limit) {
		vs.Failf("%s: after %v the target %s, stored pieces: %d", desc, limit, s.complete(), d.stored)
	}
	if s.started.Done() {
		vs.Failf("%s: Start returns %v", desc, s.err)
		return d.n
	}
	// Who leeches gets all of it, in the end, once the disk is well.
	leeches := func() bool {
		for _, m := range s.members {
			if m.p.leech && (m.r == nil || !m.r.alive() || len(got(m.r)) < len(sorted(m.r.knows())) || len(m.r.knows()) < d.l.n()-len(p.pre)) {
				return false
			}
		}
		return true
	}
	if !await(leeches, limit) {
		for _, m := range s.members {
			if m.p.leech {
				vs.Failf("%s: peer %d, which leeches, knows of %v and has got %v in %v (connected: %v)", desc, m.k, sorted(m.r.knows()), got(m.r), limit, m.r.alive())
			}
		}
	}
	d.fs.Hook = nil
	vs.Mute(true)
	vs.Quiesce()
	for i := 0; i < d.l.n(); i++ {
		b, err := s.st.GetBlock(i, 0, len(d.l.bytes(i)))
		if err != nil && !d.late || err == nil && string(b) != string(d.l.bytes(i)) {
			vs.Failf("%s: in the end piece %d is not served: %v", desc, i, err)
		}
	}
	for _, m := range s.members {
		for _, r := range m.all {
			if !r.alive() {
				gone++
			}
		}
	}
	given := 0
	for _, m := range s.members {
		given += m.given
	}
	most := len(d.l.data)
	for _, i := range p.pre {
		most -= len(d.l.bytes(i))
	}
	if x.last == 0 {
		if gone > 1 {
			vs.Failf("%s: one failure costs %d connections", desc, gone)
		}
		if given > most+d.l.piece {
			vs.Failf("%s: %d bytes were missing, %d are downloaded", desc, most, given)
		}
	}
	vs.Mix(fmt.Sprint(d.what, gone, given, vs.Elapsed().Round(time.Second)))
	s.quiet()
	// The last step, putting the pieces together, is repeated by the next start.
	vs.Mute(true)
	n = d.n
	asked := 0
	s.check = func(m *member, r *remote, z msg) {
		if z.typ == mRequest {
			asked++
		}
	}
	s.ending = false
	s.make()
	s.start()
	s.enter()
	vs.Quiesce()
	vs.Sleep(30 * time.Second)
	if s.started.Done() {
		vs.Failf("%s: the next Start returns %v", desc, s.err)
	}
	if !s.finished() {
		vs.Failf("%s: after the next start the target %s", desc, s.complete())
	}
	if asked > 0 {
		vs.Failf("%s: the next run asks for %d blocks again", desc, asked)
	}
	s.stop()
	vs.Mute(false)
	return
}

// got lists the pieces of which a remote has been sent every block.
func got(r *remote) (out []int) {
	n := map[int]int{}
	seen := map[blk]bool{}
	for _, m := range r.got {
		if m.typ == mPiece && !seen[m.b] {
			seen[m.b] = true
			n[m.b.p] += m.b.n
		}
	}
	for i := 0; i < r.w.l.n(); i++ {
		if n[i] == len(r.w.l.bytes(i)) {
			out = append(out, i)
		}
	}
	return
}

func diskFaults(e *mc.Enum) {
	for _, p := range diskPlans {
		n := 0
		vs.Run(vs.Config{}, nil, func() { n = diskRun(p, wreck{op: -1}) })
		for op := -1; op < n+mc.Pick(6, 20); op++ {
			for kind := 0; kind < 2; kind++ {
				xs := []wreck{{op: op, kind: kind}}
				if kind == 0 && op >= 0 {
					for _, t := range []time.Duration{1, 3 * time.Second, 25 * time.Second, 70 * time.Second} {
						xs = append(xs, wreck{op: op, last: t}, wreck{op: op, last: t, full: true})
					}
				}
				for _, x := range xs {
					if e.Stopped() {
						return
					}
					e.Casef(func() { e.Sched(vs.Config{}, func() { diskRun(p, x) }) }, "%v; %v", p, x)
				}
			}
		}
	}
}

func init() {
	sched := func(bound, boundT int, race bool) mc.Unit {
		return mc.Unit{Bound: bound, BoundT: boundT, Race: race, Body: func() {
			p := []plan{diskPlans[0], diskPlans[2]}[vs.ChooseFree(2, "plan")]
			diskRun(p, wreck{op: vs.ChooseFree(24, "operation")*2 + vs.ChooseFree(2, "half")})
		}}
	}
	a, b := sched(1, 2, false), sched(1, 1, true)
	a.Name, b.Name = "schedules", "race"
	a.Weight = 2
	mc.Register(&mc.Check{
		ID: "C39", QuickSecs: 50,
		Explain:     "five downloads, some from peers that also leech, with a failure of every file operation in two ways, alone and followed by a disk that stays unusable or full for four durations; some under all schedules within the bound; everything that is told and served is compared with the disk and the torrent, the download must complete in bounded virtual time, and the next start must find all of it",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; peers that are disconnected come back after 20 s; time passes only when nothing can run"},
		Units:       []mc.Unit{{Name: "faults", Enum: diskFaults, Weight: 2}, a, b},
	})
}
