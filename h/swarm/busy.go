package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// idleLimit is how long a peer that could be asked for a missing piece may be
// left without a request. A request that stays unanswered is waited for ten
// seconds (then it no longer counts), after a failure the peer is left alone for
// ten more, and one that found every piece taken is looked at every five.
const idleLimit = 15 * time.Second

// diligence watches what each peer of a scene has been asked.
type diligence struct {
	s      *scene
	out    map[*remote]map[blk]time.Duration // unanswered requests and when they came
	idle   map[*remote]time.Duration         // since when it has nothing to do and could
	open   map[*remote]bool                  // unchokes the server
	have   map[int]bool
	limit  time.Duration
	most   int // peers with requests at the same time
	worst  time.Duration
	window map[*remote]int // most unanswered requests
}

func watchful(s *scene) *diligence {
	d := &diligence{s: s, out: map[*remote]map[blk]time.Duration{}, idle: map[*remote]time.Duration{}, open: map[*remote]bool{}, have: map[int]bool{}, limit: idleLimit, window: map[*remote]int{}}
	for i := range s.owned {
		d.have[i] = true
	}
	s.check = func(m *member, r *remote, x msg) {
		if x.typ == mRequest && !r.choking {
			if d.out[r] == nil {
				d.out[r] = map[blk]time.Duration{}
			}
			d.out[r][x.b] = vs.Elapsed()
			d.window[r] = max(d.window[r], len(d.out[r]))
			d.look()
		}
	}
	s.sends = func(r *remote, typ int, b blk, good bool) {
		switch typ {
		case mPiece:
			delete(d.out[r], b)
		case mChoke:
			d.out[r] = nil
		}
	}
	vs.Spawn("watches", func() {
		for !s.ending && !vs.Aborting() {
			vs.Sleep(time.Second)
			d.look()
			if s.finished() {
				return
			}
		}
	})
	return d
}

// busy tells whether a peer has requests the server still waits for.
func (d *diligence) busy(r *remote) bool {
	for _, at := range d.out[r] {
		if vs.Elapsed()-at < 10*time.Second {
			return true
		}
	}
	return false
}

func (d *diligence) look() {
	if d.s.ending {
		return
	}
	for i := 0; i < d.s.l.n(); i++ {
		if !d.have[i] && d.s.has(i) {
			d.have[i] = true
		}
	}
	taken := map[int]*remote{}
	n := 0
	for _, r := range d.s.remotes {
		if !r.alive() {
			continue
		}
		if d.busy(r) {
			n++
		}
		for b, at := range d.out[r] {
			if vs.Elapsed()-at < 10*time.Second {
				taken[b.p] = r
			}
		}
	}
	d.most = max(d.most, n)
	for _, r := range d.s.remotes {
		could := -1
		if r.alive() && r.hs != nil && !r.choking && !d.busy(r) {
			for _, i := range r.announced {
				if i >= 0 && i < d.s.l.n() && !d.have[i] && taken[i] == nil {
					could = i
					break
				}
			}
		}
		if could < 0 {
			delete(d.idle, r)
			continue
		}
		since, ok := d.idle[r]
		if !ok {
			since = vs.Elapsed()
			d.idle[r] = since
		}
		d.worst = max(d.worst, vs.Elapsed()-since)
		if vs.Elapsed()-since > d.limit {
			vs.Failf("%v: %s unchokes the server and has piece %d, which nobody is asked for, but is asked for nothing for %v", d.s.p, r.name, could, vs.Elapsed()-since)
		}
	}
}

// diligent plays a plan; no peer that can help may be left idle.
func diligent(p plan, deaf int, least int) {
	s := setup(p)
	d := watchful(s)
	d.limit += time.Duration(deaf) * 10 * time.Second
	s.up()
	s.enter()
	limit := 5*time.Minute + time.Duration(s.p.interval)*time.Second
	if p.covers() && !await(s.finished, limit) {
		vs.Failf("%v: after %v the target %s, pieces %v are complete", p, limit, s.complete(), s.pieces())
	} else if !p.covers() {
		settle(2 * time.Minute)
	}
	for r, n := range d.window {
		most := 0
		for i := 0; i < p.l.n(); i++ {
			most = max(most, len(p.l.blocksOf(i)))
		}
		if r.name == "peer 1" && p.peers[0].slow > 0 && n < min(4, most) && len(p.peers) == 1 {
			vs.Failf("%v: %s is slow, but no more than %d blocks of %d are asked for ahead", p, r.name, n, most)
		}
	}
	if d.most < least {
		vs.Failf("%v: blocks are asked of %d peers at the same time, all %d have missing pieces and time", p, d.most, least)
	}
	vs.Mix(fmt.Sprint(d.worst))
	s.quiet()
}

func init() {
	one := func(e *mc.Enum, p plan, deaf, least int) {
		if e.Stopped() {
			return
		}
		e.Casef(func() { e.Sched(vs.Config{}, func() { diligent(p, deaf, least) }) }, "%v", p)
	}
	shared := func(e *mc.Enum) {
		for _, l := range []*layout{mk(2, 6), mk(2, 7), mk(block+1, 3*block)} {
			subsets(l.n(), func(a []int) {
				subsets(l.n(), func(b []int) {
					for _, pre := range [][]int{nil, {0}, {l.n() - 1}} {
						for _, slow := range [][2]time.Duration{{0, 0}, {time.Second, 3 * time.Second}, {4 * time.Second, 4 * time.Second}, {8 * time.Second, 0}} {
							for mode := 0; mode < 8; mode++ {
								if !mc.Thorough && mode != 0 && mode != 3 && mode != 5 {
									continue
								}
								p := plan{l: l, pre: pre, peers: []peerPlan{
									{have: a, slow: slow[0], dialed: mode&1 > 0, byHave: mode&2 > 0},
									{have: b, slow: slow[1], dialed: mode&4 > 0, tidy: mode&1 > 0, later: time.Duration(mode&4) * time.Second}}}
								one(e, p, 0, 0)
							}
						}
					}
				})
			})
		}
	}
	blunders := func(e *mc.Enum) {
		for _, l := range []*layout{mk(2, 6), mk(block+1, 3*block)} {
			nb := 0
			for i := 0; i < l.n(); i++ {
				nb += len(l.blocksOf(i))
			}
			for f := fNone + 1; f < nFaults; f++ {
				for at := 1; at <= nb; at++ {
					for _, slow := range []time.Duration{0, 2 * time.Second} {
						for _, have := range [][]int{l.all(), {l.n() - 1}, {0, 1}} {
							for _, later := range []time.Duration{0, 15 * time.Second} {
								x := peerPlan{have: l.all(), fault: f, at: at, slow: slow}
								one(e, plan{l: l, interval: 60, peers: []peerPlan{x, {have: have, slow: 2*time.Second - slow, later: later}}}, 0, 0)
								one(e, plan{l: l, interval: 60, peers: []peerPlan{x, {have: have, dialed: true, later: later}, {have: l.all(), slow: 3 * time.Second, byHave: true}}}, 0, 0)
							}
						}
					}
				}
			}
		}
	}
	// all of many peers are asked at the same time
	crowd := func(e *mc.Enum) {
		for _, n := range []int{2, 3, 5, 10, 20, 35, 49} {
			for _, per := range []int{1, 2} {
				for _, slow := range []time.Duration{time.Second, 5 * time.Second} {
					for mode := 0; mode < 8; mode++ {
						l := mk(2, 2*n*per)
						p := plan{l: l}
						for k := 0; k < n; k++ {
							x := peerPlan{have: l.all(), slow: slow, dialed: mode&1 > 0 && k%2 > 0, byHave: mode&2 > 0, greets: mode&4 > 0}
							p.peers = append(p.peers, x)
						}
						one(e, p, 0, n)
						for k := range p.peers { // each has its own
							p.peers[k].have = []int{2 * k, 2*k + 1}
						}
						if per == 2 {
							one(e, p, 0, n)
						}
					}
				}
			}
		}
	}
	// blocks are asked for ahead
	ahead := func(e *mc.Enum) {
		for _, n := range []int{1, 2, 3, 4, 15, 16, 17, 20, 40} {
			for _, slow := range []time.Duration{time.Second, 3 * time.Second} {
				for mode := 0; mode < 8; mode++ {
					if n > 20 && slow > time.Second {
						continue
					}
					l := mk(n*block, 2*n*block-mode*100)
					one(e, plan{l: l, peers: []peerPlan{{have: l.all(), slow: slow, dialed: mode&1 > 0, byHave: mode&2 > 0, greets: mode&4 > 0}}}, 0, 0)
				}
			}
		}
	}
	// and whatever bystanders do
	bystanders := func(e *mc.Enum) {
		l := mk(2, 8)
		for f := fNone; f < nFaults; f++ {
			for at := 1; at <= 3; at++ {
				for k := 1; k <= 3; k++ {
					for _, dialed := range []bool{false, true} {
						p := plan{l: l, pre: []int{0}, interval: 60}
						for i := 0; i < k; i++ {
							p.peers = append(p.peers, peerPlan{have: l.all(), fault: f, at: at, dialed: dialed, leech: i%2 > 0})
						}
						p.peers = append(p.peers, peerPlan{have: []int{1, 2, 3}, slow: 2 * time.Second}, peerPlan{have: []int{2, 3}, slow: time.Second})
						one(e, p, 0, 0)
					}
				}
			}
		}
		// hogs of different kinds
		for f := fNone + 1; f < nFaults; f++ {
			for g := f; g < nFaults; g++ {
				if honest(f) || honest(g) {
					continue
				}
				for at := 1; at <= 3; at++ {
					for k := 0; k < 4; k++ {
						p := plan{l: l, interval: 60, peers: []peerPlan{{have: l.all(), fault: f, at: at}, {have: l.all(), fault: g, at: 1, dialed: k&1 > 0}}}
						if k&2 > 0 {
							p.peers = append(p.peers, p.peers[0], p.peers[1])
						}
						p.peers = append(p.peers, peerPlan{have: l.all(), slow: time.Second, later: time.Duration(k) * 3 * time.Second})
						one(e, p, 0, 0)
					}
				}
			}
		}
		// silent and deaf ones
		for k := 1; k <= 3; k++ {
			for _, buf := range []int{68, 100, 140, 1 << 20} {
				for _, hs := range []time.Duration{0, 5 * time.Second} {
					p := plan{l: l, pre: []int{0}, interval: 60}
					for i := 0; i < k; i++ {
						p.peers = append(p.peers, peerPlan{have: l.all(), deaf: buf, leech: i%2 > 0, greets: i%2 == 0, slowHS: hs})
					}
					p.peers = append(p.peers, peerPlan{have: []int{1, 2, 3}, slow: 2 * time.Second}, peerPlan{have: []int{2, 3}, slow: time.Second})
					one(e, p, k, 0)
				}
			}
		}
	}
	two := mk(2, 4)
	plans := []plan{
		{l: mk(2, 6), peers: []peerPlan{{have: []int{0, 1, 2}}, {have: []int{0, 1, 2}, slow: time.Second}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 1}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fChoke, at: 1}, {have: []int{1}}}},
		{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true}, {have: []int{0}, slow: 2 * time.Second}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: 1}, {have: []int{0, 1}, byHave: true, greets: true}}},
	}
	mc.Register(&mc.Check{
		ID: "C43", QuickSecs: 60,
		Explain:     "every distribution of up to four pieces to two peers of different speeds, every fault of 16 at every request of one of two or three, up to 49 peers that have everything or their own, silent, deaf and faulty bystanders; all schedules within the bound; who could be asked for something is compared with who is, at every request and every second",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run"},
		Units: []mc.Unit{
			{Name: "shared", Enum: shared, Weight: 2},
			{Name: "blunders", Enum: blunders, Weight: 2},
			{Name: "crowd", Enum: crowd},
			{Name: "bystanders", Enum: bystanders},
			{Name: "ahead", Enum: ahead},
			{Name: "schedules", Bound: 1, BoundT: 2, Body: func() { diligent(plans[vs.ChooseFree(len(plans), "plan")], 0, 0) }, Weight: 2},
		},
	})
}
