package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	pick := func(early bool, ps ...plan) mc.Unit {
		return mc.Unit{Cfg: vs.Config{EarlyTimers: early}, Body: func() { p := ps[vs.ChooseFree(len(ps), "plan")]; p.persist = early; download(p) }}
	}
	two := mk(2, 3)
	three := mk(2, 5)
	big := mk(block+1, 2*block+2)
	sched := pick(false,
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{0, 1}, dialed: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0}}, {have: []int{1}, byHave: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 1}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 2, greets: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fBad, at: 1}, {have: []int{0, 1}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fDrop, at: 1}, {have: []int{0}}}},
		plan{l: three, peers: []peerPlan{{have: []int{0, 1, 2}, fault: fWrong, at: 1}, {have: []int{0, 1, 2}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true, tidy: true}}},
	)
	sched.Name, sched.Bound, sched.BoundT, sched.Weight = "schedules", 2, 2, 3
	early := pick(true,
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: 1}, {have: []int{0, 1}}}},
		plan{l: big, peers: []peerPlan{{have: []int{0, 1}}}},
	)
	early.Name, early.Bound, early.BoundT, early.Weight = "timers", 2, 2, 2
	race := pick(false,
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{0, 1}, dialed: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0}}, {have: []int{1}, byHave: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 1, leech: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true, tidy: true}, {slowHS: 2 * time.Second}}},
		plan{l: three, peers: []peerPlan{{have: []int{0}, gets: []int{2}, echo: true}, {have: []int{1}, slow: time.Second}, {slowHS: time.Second}}},
	)
	race.Name, race.Bound, race.BoundT, race.Race = "race", 1, 2, true
	mc.Register(&mc.Check{
		ID: "C25", QuickSecs: 60,
		Explain:     "every distribution of up to three pieces to up to three peers, dialed or not, announcing by bitfield or HAVE, with every subset present at the start; every fault of 16 at every request or message, in pairs of peers; some of these under all schedules within the bound, and under all orders of timers (a timer may fire before what is runnable); the download must complete and the target be exact",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "distributions", Enum: distributions, Weight: 2},
			{Name: "growing", Enum: growing},
			{Name: "faults", Enum: faults, Weight: 3},
			sched, early, race,
		},
	})
}

// download plays a plan; the torrent must be completed.
func download(p plan) {
	s := setup(p)
	s.up()
	s.enter()
	limit := 5*time.Minute + time.Duration(s.p.interval)*time.Second
	for _, m := range p.peers {
		limit += m.gap
	}
	if p.persist { // timers may fire at any time
		limit = 2 * time.Hour
	}
	if !await(s.finished, limit) {
		vs.Failf("%v: after %v the target %s, pieces %v are complete", p, limit, s.complete(), s.pieces())
	}
	vs.Mix(fmt.Sprint(vs.Elapsed().Round(time.Second)))
	s.quiet()
}

func distributions(e *mc.Enum) {
	layouts := []*layout{mk(2, 3), mk(2, 5), mk(4, 3), mk(3, 9), mk(2, 4, fileSpec{"a", 1}, fileSpec{"d/b", 3})}
	if mc.Thorough {
		layouts = append(layouts, mk(block, 2*block+1), mk(2*block+5, 4*block), mk(1, 4), mk(2, 5, fileSpec{"a", 0}, fileSpec{"d/b", 5}))
	}
	for _, l := range layouts {
		subsets(l.n(), func(a []int) {
			subsets(l.n(), func(b []int) {
				subsets(l.n(), func(pre []int) {
					for mode := 0; mode < 8; mode++ {
						p := plan{l: l, pre: pre, peers: []peerPlan{{have: a, dialed: mode&1 > 0, byHave: mode&2 > 0}, {have: b, dialed: mode&4 > 0, greets: mode&1 > 0, rev: mode&2 > 0}}}
						if !p.covers() || e.Stopped() || len(pre) == l.n() {
							continue
						}
						e.Casef(func() { e.Sched(vs.Config{}, func() { download(p) }) }, "%v", p)
					}
				})
			})
		})
	}
}

// growing: peers that get pieces while they are connected, and tell.
func growing(e *mc.Enum) {
	layouts := []*layout{mk(2, 3), mk(2, 5)}
	for _, l := range layouts {
		subsets(l.n(), func(a []int) {
			subsets(l.n(), func(g []int) {
				subsets(l.n(), func(b []int) {
					for _, gap := range []time.Duration{0, time.Second, 7 * time.Second, 40 * time.Second} {
						for mode := 0; mode < 8; mode++ {
							p := plan{l: l, peers: []peerPlan{{have: a, gets: g, gap: gap, dialed: mode&1 > 0, tidy: mode&2 > 0, greets: mode&4 > 0}}}
							if len(b) > 0 {
								p.peers = append(p.peers, peerPlan{have: b, later: 20 * time.Second * time.Duration(mode&1), tidy: mode&4 > 0})
							}
							if !p.covers() || e.Stopped() || len(g) == 0 || mc.Thorough == false && l.n() == 3 && len(b) > 1 {
								continue
							}
							e.Casef(func() { e.Sched(vs.Config{}, func() { download(p) }) }, "%v", p)
							if gap == 0 && (len(a) > 0 || len(b) > 0) {
								q := plan{l: l, peers: append([]peerPlan{}, p.peers...)}
								q.peers[0].echo = true
								if !echoes(a, b, g, l.n()) {
									continue
								}
								e.Casef(func() { e.Sched(vs.Config{}, func() { download(q) }) }, "%v", q)
							}
						}
					}
				})
			})
		})
	}
}

// echoes tells whether a peer that has a and gets one of g for each piece it hears of
// gets all that is missing beside b.
func echoes(a, b, g []int, n int) bool {
	m := map[int]bool{}
	for _, i := range append(append([]int{}, a...), b...) {
		m[i] = true
	}
	for heard, k := 0, 0; ; {
		if len(m) == n {
			return true
		}
		if heard >= len(m) || k >= len(g) {
			return false
		}
		heard++
		m[g[k]] = true
		k++
	}
}

// faults: a peer with every fault at every moment, and one that is honest.
func faults(e *mc.Enum) {
	layouts := []*layout{mk(2, 3), mk(block+1, 2*block+2)}
	if mc.Thorough {
		layouts = append(layouts, mk(2, 5), mk(2*block, 5*block))
	}
	for _, l := range layouts {
		nb := 0
		for i := 0; i < l.n(); i++ {
			nb += len(l.blocksOf(i))
		}
		one := func(p plan) {
			if !p.covers() || e.Stopped() {
				return
			}
			e.Casef(func() { e.Sched(vs.Config{}, func() { download(p) }) }, "%v", p)
		}
		// several hold a piece each time they get it
		for _, f := range []int{fStall, fHog, fHogSoon} {
			for _, g := range []int{fStall, fHog, fHogSoon} {
				for k := 1; k <= mc.Pick(3, 6); k++ {
					for mode := 0; mode < 8; mode++ {
						var ps []peerPlan
						for i := 0; i < k; i++ {
							h := peerPlan{have: l.all(), fault: f, at: 1 + i%2*mode&1, greets: mode&2 > 0}
							if i%2 > 0 {
								h.fault, h.dialed = g, mode&4 > 0
							}
							ps = append(ps, h)
						}
						one(plan{l: l, interval: 60, peers: append(ps, peerPlan{have: l.all(), slow: time.Duration(mode&1) * time.Second, later: time.Duration(mode) * 2 * time.Second})})
					}
				}
			}
		}
		for f := fNone; f < nFaults; f++ {
			for at := 1; at <= nb+2; at++ {
				for mode := 0; mode < 8; mode++ {
					x := peerPlan{have: l.all(), fault: f, at: at, dialed: mode&1 > 0, rev: mode&2 > 0, tidy: mode&4 > 0}
					iv := 60
					// alone
					one(plan{l: l, interval: iv, peers: []peerPlan{x}})
					// with one who has everything or the last piece only, from the start or later
					for _, have := range [][]int{l.all(), {l.n() - 1}} {
						for _, later := range []time.Duration{0, 15 * time.Second} {
							one(plan{l: l, interval: iv, peers: []peerPlan{x, {have: have, dialed: mode&4 > 0, later: later}}})
						}
					}
					if mode == 0 {
						for g := fNone + 1; g < nFaults; g++ {
							for at2 := 1; at2 <= mc.Pick(2, nb+1); at2++ {
								one(plan{l: l, interval: iv, peers: []peerPlan{x, {have: l.all(), fault: g, at: at2}}})
							}
						}
					}
				}
			}
		}
	}
}
