package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// banned plays a plan with a peer that sends wrong data and honest ones.
func banned(p plan) {
	s := setup(p)
	f := watch(s)
	refRules = 0
	_ = f
	for _, m := range s.members {
		m.strict = honest(m.p.fault)
	}
	s.up()
	s.enter()
	if !await(s.finished, 40*time.Minute) {
		if p.covers() {
			vs.Failf("after 40 minutes the target %s [%v]", s.complete(), p)
		}
	}
	settle(2500 * time.Millisecond)
	for _, m := range s.members {
		if m.p.fault != fBad && m.p.fault != fBadGone {
			continue
		}
		if !m.done || !m.caught {
			continue
		}
		if m.p.fault == fBad && m.all[len(m.all)-1].alive() {
			vs.Failf("%s sent wrong data at %v and is still connected at %v [%v]", m.r.name, m.badAt, vs.Elapsed(), p)
		}
		if m.p.dialed {
			// the tracker keeps listing it
			n := len(m.all)
			settle(4 * time.Minute)
			if len(m.all) > 1 || n > 1 {
				vs.Failf("%s sent wrong data at %v and was dialed again [%v]", m.r.name, m.badAt, p)
			}
		}
	}
	for _, m := range s.members {
		if m.strict && m.refused {
			vs.Failf("honest %s was disconnected at %v [%v]", m.r.name, m.refusedAt, p)
		}
	}
	for _, m := range s.members {
		if m.p.leaves > 0 && vs.Elapsed() < 31*time.Second {
			settle(31*time.Second - vs.Elapsed())
		}
	}
	// everybody leaves and is listed again: those who did nothing wrong are dialed
	for _, m := range s.members {
		if m.p.dialed && m.r != nil && m.r.alive() {
			m.r.drop()
		}
	}
	settle(3 * time.Minute)
	for _, m := range s.members {
		if m.strict && m.p.dialed && !m.r.alive() {
			vs.Failf("honest %s is listed every minute, but not dialed any more [%v]", m.r.name, p)
		}
	}
	s.quiet()
}

// A bad peer that is connected in more ways than one, one after the other: it is
// known by several addresses when it sends the bad piece.
type waysPlan struct {
	l     *layout
	every int           // interval of the tracker; if not 1, the peer is listed from the start
	low   bool          // its id is lower than the server's
	ways  []int         // how it gets connections: wDial (listed), wCome, wLeave (closes what it has)
	gap   time.Duration // between them
	when  int           // sends wrong data once it has had so many of them
}

const (
	wDial = iota
	wCome
	wLeave
	wOther // lists another address of it
	nWays
)

func (p waysPlan) String() string {
	s := ""
	for _, w := range p.ways {
		s += []string{", is listed", ", connects", ", leaves", ", is listed elsewhere"}[w]
	}
	return fmt.Sprintf("%d bytes in pieces of %d, asks the tracker every %d s, low id: %v, every %v%s, bad after %d", len(p.l.data), p.l.piece, p.every, p.low, p.gap, s, p.when)
}

func ways(p waysPlan) {
	w := newWorld(p.l)
	id := peerID(1)
	if p.low {
		id[0] = ' '
	} else {
		id[0] = 'z'
	}
	var conns []*remote
	bad := false    // it answers wrongly from now on
	caught := false // the server knows
	var dials []string
	met := map[string]bool{}    // where the server has met it since it was not connected at all
	banned := map[string]bool{} // where it had met it when it learned of the wrong data
	alive := func() bool {
		for _, r := range conns {
			if r.alive() {
				return true
			}
		}
		return false
	}
	answer := func(r *remote, x msg) {
		switch x.typ {
		case mInterested:
			if bad {
				r.unchoke()
			}
		case mRequest:
			if !r.alive() {
				return
			}
			r.giveBad(x.b)
			bs := p.l.blocksOf(x.b.p)
			if x.b == bs[len(bs)-1] {
				caught = true
				for a := range met {
					banned[a] = true
				}
			}
		}
	}
	incarnate := func(ip string, port int) *remote {
		r := w.remote(1, p.l.all()...)
		r.id, r.ip, r.port, r.on = id, ip, port, answer
		if !alive() {
			met = map[string]bool{}
		}
		met[r.addr()] = true
		conns = append(conns, r)
		return r
	}
	w.reply = func(treq) reply { return reply{Body: peersReply(p.every, w.listed...)} }
	w.onDial = func(addr string) *remote {
		if banned[addr] {
			dials = append(dials, addr)
		}
		for _, a := range w.listed {
			if addr == fmt.Sprintf("%s:%d", a.ip, a.port) {
				return incarnate(a.ip, a.port)
			}
		}
		vs.Failf("%s is dialed, which is not listed [%v]", addr, p)
		return nil
	}
	if p.every != 1 {
		w.listed = append(w.listed, peerAddr{"10.0.1.1", 7001})
	}
	w.up()
	come := func(i, n int) {
		switch p.ways[i] {
		case wDial:
			w.listed = append(w.listed, peerAddr{"10.0.1.1", 7001})
		case wOther:
			w.listed = append(w.listed, peerAddr{"10.0.1.2", 7002})
		case wCome:
			w.connect(incarnate("10.0.1.1", 40000+n))
		case wLeave:
			for _, r := range conns {
				if r.alive() {
					r.drop()
				}
			}
		}
	}
	go1 := func() {
		bad = true
		for _, r := range conns {
			if r.alive() && r.choking && r.count(mInterested) > 0 {
				r.unchoke()
			}
		}
	}
	for i := range p.ways {
		if i == p.when {
			go1()
		}
		come(i, i)
		settle(p.gap)
	}
	go1()
	settle(20 * time.Second)
	if !caught {
		if len(conns) > 0 && conns[len(conns)-1].alive() {
			vs.Failf("the peer is connected and unchokes, but it is not asked for anything [%v]", p)
		}
		w.quiet()
		return
	}
	for _, r := range conns {
		if r.alive() && banned[r.addr()] {
			vs.Failf("the peer has sent wrong data and is still connected, from %s [%v]", r.addr(), p)
		}
	}
	settle(4 * time.Minute)
	if len(dials) > 0 {
		vs.Failf("the peer has sent wrong data and is dialed again at %s [%v]", dials[0], p)
	}
	w.quiet()
}

func waysCases(e *mc.Enum) {
	for _, l := range []*layout{mk(2, 3), mk(block+1, 2*block+2)} {
		for k := range 4 {
			every, low := 1+k/2*59, k&1 > 0
			for n := 1; n <= mc.Pick(3, 4)-k/2; n++ {
				total := 1
				for range n {
					total *= nWays
				}
				for c := 0; c < total; c++ {
					p := waysPlan{l: l, every: every, low: low, ways: make([]int, n)}
					for i, x := 0, c; i < n; i, x = i+1, x/nWays {
						p.ways[i] = x % nWays
					}
					for _, p.gap = range []time.Duration{0, time.Second, 3 * time.Second, 30 * time.Second} {
						for p.when = 0; p.when <= n; p.when++ {
							if e.Stopped() {
								return
							}
							e.Casef(func() { e.Sched(vs.Config{}, func() { ways(p) }) }, "%v", p)
						}
					}
				}
			}
		}
	}
}

func banCases(e *mc.Enum) {
	big := mk(block+1, 2*block+2)
	layouts := []*layout{mk(2, 3), big, mk(2, 5)}
	if mc.Thorough {
		layouts = append(layouts, mk(2*block, 5*block), mk(3*block, 3*block))
	}
	leaves := []int{fDrop, fReset, fDropMsg}
	one := func(p plan) {
		if e.Stopped() {
			return
		}
		e.Casef(func() { e.Sched(vs.Config{}, func() { banned(p) }) }, "%v", p)
	}
	for _, l := range layouts {
		nb := 0
		for i := 0; i < l.n(); i++ {
			nb += len(l.blocksOf(i))
		}
		for _, f := range []int{fBad, fBadGone, fWrong} {
			for at := 1; at <= nb; at++ {
				for mode := 0; mode < 8; mode++ {
					x := peerPlan{have: l.all(), fault: f, at: at, dialed: mode&1 > 0, rev: mode&2 > 0, byHave: mode&4 > 0}
					for h := 0; h < 4; h++ {
						y := peerPlan{have: l.all(), dialed: h&1 > 0, leech: h&1 > 0}
						if h&2 > 0 {
							y.later = 5 * time.Second
						}
						one(plan{l: l, interval: 60, peers: []peerPlan{x, y}})
						one(plan{l: l, interval: 60, peers: []peerPlan{y, x}})
						if mode&2 == 0 {
							one(plan{l: l, interval: 60, peers: []peerPlan{x, y, {have: l.all(), fault: fBad, at: 1, dialed: true}}})
						}
					}
					// honest peers with trouble of their own are no reason to block them either
					for _, g := range []int{fChoke, fFlap, fLose, fLate, fTwice} {
						if mode < 2 {
							one(plan{l: l, interval: 60, peers: []peerPlan{x, {have: l.all(), fault: g, at: at}}})
							one(plan{l: l, interval: 60, peers: []peerPlan{{have: l.all(), fault: g, at: at}, x}})
						}
					}
				}
			}
		}
		// blocks that nobody waits for any more, while another peer is asked
		for at := 1; at <= nb; at++ {
			for _, slow := range []time.Duration{0, time.Second, 4 * time.Second, 9 * time.Second} {
				for tardy := range 8 {
					for mode := range 4 {
						x := peerPlan{have: l.all(), fault: fLateBad, at: at, tardy: time.Duration(tardy) * time.Second, dialed: mode&1 > 0}
						y := peerPlan{have: l.all(), slow: slow, dialed: true}
						if mode&2 > 0 {
							y.later = 5 * time.Second
						}
						one(plan{l: l, interval: 60, peers: []peerPlan{x, y}})
					}
				}
			}
		}
		for _, g := range leaves {
			for at := 1; at <= nb+3; at++ {
				for mode := 0; mode < 8; mode++ {
					pre := []int(nil)
					if mode&1 > 0 {
						pre = []int{0}
					}
					y := peerPlan{have: l.all(), fault: g, at: at, dialed: true, leech: mode&2 > 0, rev: mode&4 > 0}
					one(plan{l: l, pre: pre, interval: 60, peers: []peerPlan{y, {have: l.all(), dialed: true}}})
					one(plan{l: l, pre: pre, interval: 60, peers: []peerPlan{y, {have: l.all(), fault: fBad, at: 1, dialed: true}, {have: l.all(), dialed: true}}})
				}
			}
		}
		// those who leave while blocks are sent to them
		for _, more := range []int{0, 1, 12, 13, 14, 15, 30} {
			for leaves := 11; leaves <= 24; leaves++ {
				for mode := 0; mode < 4; mode++ {
					pre := []int{0}
					if mode&1 > 0 {
						pre = l.all()
					}
					y := peerPlan{dialed: true, leech: true, deaf: 68 + 6 + 5 + more, leaves: time.Duration(leaves) * time.Second}
					if mode&2 > 0 {
						y.have = l.all()
					}
					one(plan{l: l, pre: pre, interval: 60, peers: []peerPlan{y, {have: l.all(), dialed: true}}})
				}
			}
		}
		for _, g := range []int{fChoke, fFlap, fLose, fLate, fTwice} {
			for at := 1; at <= nb; at++ {
				for _, rev := range []bool{false, true} {
					one(plan{l: l, interval: 60, peers: []peerPlan{{have: l.all(), fault: g, at: at, rev: rev}, {have: l.all()}}})
					one(plan{l: l, interval: 60, peers: []peerPlan{{have: l.all(), fault: g, at: at, rev: rev}, {have: l.all(), fault: fLate, at: 1}}})
				}
			}
		}
	}
}

func init() {
	two := mk(2, 3)
	big := mk(block+1, block+1)
	plans := []plan{
		{l: two, interval: 60, peers: []peerPlan{{have: []int{0, 1}, fault: fBad, at: 1, dialed: true}, {have: []int{0, 1}}}},
		{l: two, interval: 60, peers: []peerPlan{{have: []int{0, 1}, fault: fBadGone, at: 1, dialed: true}, {have: []int{0, 1}}}},
		{l: two, interval: 60, peers: []peerPlan{{have: []int{0, 1}, fault: fWrong, at: 1}, {have: []int{0, 1}}}},
		{l: two, interval: 60, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 1}, {have: []int{0, 1}}}},
		{l: big, interval: 60, peers: []peerPlan{{have: []int{0}, fault: fBad, at: 2, dialed: true}, {have: []int{0}}}},
		{l: two, interval: 60, pre: []int{0}, peers: []peerPlan{{have: []int{0, 1}, fault: fDropMsg, at: 3, dialed: true, leech: true}, {have: []int{0, 1}}}},
		{l: mk(block+1, 2*block+2), interval: 60, pre: []int{0}, peers: []peerPlan{{have: []int{0, 1}, fault: fDropMsg, at: 4, dialed: true, leech: true}, {have: []int{0, 1}}}},
		{l: big, interval: 60, peers: []peerPlan{{have: []int{0}, fault: fLate, at: 1}, {have: []int{0}}}},
		{l: big, interval: 60, peers: []peerPlan{{have: []int{0}, fault: fFlap, at: 1}, {have: []int{0}}}},
	}
	mc.Register(&mc.Check{
		ID:          "C28",
		Explain:     "a wrong block at every position, followed or not by the end of the connection, one or two bad peers beside honest ones, listed again and again; wrong blocks that come after their request has expired, while others are asked; a bad peer that is met in up to three ways (listed, listed elsewhere, connecting by itself, leaving) one after the other, at every pace; some under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "faults", Enum: banCases, Weight: 2},
			{Name: "several ways", Enum: waysCases, Weight: 2},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 3, Body: func() { banned(plans[vs.ChooseFree(len(plans), "plan")]) }},
			{Name: "race", Bound: 1, BoundT: 2, Race: true, Body: func() { banned(plans[vs.ChooseFree(len(plans), "plan")]) }},
		},
	})
}
