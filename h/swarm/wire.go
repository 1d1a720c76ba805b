package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// referee watches what the server sends and asks for.
type referee struct {
	s       *scene
	st      map[*remote]*refState
	given   map[blk]bool // right blocks the peers have sent
	arrived map[int]bool // pieces all of whose blocks they have sent
	what    func(string, ...any)
}

type refState struct {
	m        *member
	pending  map[blk]time.Duration // requests not answered, and when they came
	choked   time.Duration         // when it choked the server last
	flapped  time.Duration
	told     map[int]bool // pieces the server has said it has
	n        int
	interest bool
}

func watch(s *scene) *referee {
	f := &referee{s: s, st: map[*remote]*refState{}, given: map[blk]bool{}, arrived: map[int]bool{}}
	s.check = f.hear
	s.sends = f.sends
	return f
}

func (f *referee) state(m *member, r *remote) *refState {
	x := f.st[r]
	if x == nil {
		x = &refState{m: m, pending: map[blk]time.Duration{}, told: map[int]bool{}, choked: -1, flapped: -1}
		f.st[r] = x
	}
	return x
}

// sends sees what the peers send.
func (f *referee) sends(r *remote, typ int, b blk, good bool) {
	x := f.st[r]
	if x == nil {
		return
	}
	switch typ {
	case mPiece:
		delete(x.pending, b)
		if good {
			f.given[b] = true
		}
	case mChoke:
		x.choked = vs.Elapsed()
		x.pending = map[blk]time.Duration{}
	case mUnchoke:
		if x.choked == vs.Elapsed() {
			x.flapped = x.choked
		}
	}
}

// over tells whether the server has given up the attempt at a piece with this state.
func (x *refState) over(p int) bool {
	for b, t := range x.pending {
		if b.p == p && vs.Elapsed() >= t+10*time.Second {
			return true
		}
	}
	return false
}

func (x *refState) busy(p int) bool {
	for b := range x.pending {
		if b.p == p {
			return true
		}
	}
	return false
}

const (
	rRequests = 1 << iota // C30
	rClaims               // C35
)

var refRules = rRequests | rClaims

func (f *referee) hear(m *member, r *remote, x msg) {
	st := f.state(m, r)
	st.n++
	fail := func(format string, args ...any) {
		vs.Failf("%s gets %v: %s [%v]", r.name, x, fmt.Sprintf(format, args...), f.s.p)
	}
	claim := func(i int) {
		if i >= f.s.l.n() {
			if refRules&rClaims > 0 {
				fail("there is no piece %d", i)
			}
			return
		}
		if !f.s.owned[i] && refRules&rClaims > 0 {
			for _, b := range f.s.l.blocksOf(i) {
				if !f.given[b] {
					fail("nobody has sent the server block %d of it", b.off)
				}
			}
		}
		st.told[i] = true
	}
	if st.n == 1 && x.typ != mBitfield && refRules&rClaims > 0 {
		fail("the first message is no bitfield")
	}
	switch x.typ {
	case mBitfield:
		if refRules&rClaims > 0 {
			if st.n != 1 {
				fail("a bitfield that is not the first message")
			}
			if len(x.data) != (f.s.l.n()+7)/8 {
				fail("the bitfield has %d bytes", len(x.data))
			}
		}
		for i := range sortedBits(x.data) {
			claim(i)
		}
	case mHave:
		claim(x.b.p)
	case mInterested:
		st.interest = true
	case mNotInterested:
		st.interest = false
	case mRequest:
		if refRules&rRequests > 0 {
			f.request(st, m, r, x, fail)
		}
		if !r.choking && vs.Elapsed() > st.flapped {
			st.pending[x.b] = vs.Elapsed()
		}
	}
}

func sortedBits(d []byte) map[int]bool {
	out := map[int]bool{}
	for i := 0; i < len(d)*8; i++ {
		if d[i/8]&(0x80>>(i%8)) != 0 {
			out[i] = true
		}
	}
	return out
}

func (f *referee) request(st *refState, m *member, r *remote, x msg, fail func(string, ...any)) {
	b := x.b
	if !f.s.l.isBlock(b) {
		fail("that is no block of the torrent")
		return
	}
	has := false
	for _, i := range r.announced {
		has = has || i == b.p
	}
	if !has {
		fail("it has never announced that piece")
	}
	if st.told[b.p] {
		fail("it has been told that the server has that piece")
	}
	if f.s.owned[b.p] {
		fail("the server has had that piece from the start")
	}
	if r.choking && vs.Elapsed() > st.choked {
		fail("it is choking the server since %v", st.choked)
	}
	if t, ok := st.pending[b]; ok && vs.Elapsed() < t+10*time.Second && vs.Elapsed() > st.flapped {
		fail("the same request is unanswered since %v", t)
	}
	for c, t := range st.pending {
		if d := vs.Elapsed() - t; c.p == b.p && d >= 10*time.Second && d < 15*time.Second {
			fail("block %d of that piece has been given up, unanswered for %v", c.off, d)
		}
	}
	n := 0
	for c, t := range st.pending {
		if vs.Elapsed() < t+10*time.Second && !st.over(c.p) {
			n++
		}
	}
	if n >= 16 {
		fail("there are %d unanswered requests already", n)
	}
	for o, y := range f.st {
		if o == r || !o.alive() || y.over(b.p) {
			continue
		}
		if y.busy(b.p) {
			fail("that piece is being fetched from %s", o.name)
		}
	}
}

// end checks what must hold once nothing happens any more.
func (f *referee) end() {
	if refRules&rClaims == 0 {
		return
	}
	for r, st := range f.st {
		if !r.alive() {
			continue
		}
		for i := 0; i < f.s.l.n(); i++ {
			if f.s.has(i) != st.told[i] {
				vs.Failf("in the end %s has been told of piece %d: %v, the server has it: %v [%v]", r.name, i, st.told[i], !st.told[i], f.s.p)
			}
		}
	}
}

// stated checks that the interest each peer has been told is the truth.
func (f *referee) stated(finished bool) {
	for r, st := range f.st {
		if !r.alive() {
			continue
		}
		want := false
		for _, i := range r.announced {
			want = want || !f.s.has(i)
		}
		if want && !st.interest {
			vs.Failf("%s has pieces the server lacks, but the server is not interested [%v]", r.name, f.s.p)
		}
		if finished && !r.choking && st.interest {
			vs.Failf("%s has nothing the server lacks, but the server is still interested [%v]", r.name, f.s.p)
		}
	}
}

// watched plays a plan under the referee.
func watched(p plan, rules int) {
	refRules = rules
	s := setup(p)
	f := watch(s)
	s.up()
	s.enter()
	await(s.finished, 30*time.Minute)
	settle(11 * time.Second)
	f.end()
	if rules&rClaims > 0 {
		f.stated(s.finished())
	}
	s.quiet()
}

func init() {
	two, three := mk(2, 3), mk(2, 5)
	big := mk(block+1, 2*block+2)
	huge := mk(18*block, 36*block)
	plans := []plan{
		{l: two, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{0, 1}, dialed: true}}},
		{l: two, peers: []peerPlan{{have: []int{0}, leech: true}, {have: []int{1}, byHave: true, leech: true}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fFlap, at: 1, leech: true}, {have: []int{1}}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fChoke, at: 1}, {have: []int{0, 1}, later: 3 * time.Second}}},
		{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fDrop, at: 2}, {have: []int{0, 1}}}},
		{l: three, pre: []int{1}, peers: []peerPlan{{have: []int{0, 1, 2}}, {have: []int{0, 1, 2}, greets: true}, {have: []int{1}, leech: true}}},
		{l: big, peers: []peerPlan{{have: []int{0, 1}, rev: true}, {have: []int{0, 1}}}},
		{l: three, peers: []peerPlan{{have: []int{0, 1, 2}, fault: fBad, at: 1}, {have: []int{0, 1, 2}}}},
	}
	echoPlans := []plan{
		{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true}}},
		{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true, tidy: true}}},
		{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true}, {have: []int{1}}}},
		{l: two, peers: []peerPlan{{have: []int{0}, gets: []int{1}, echo: true, tidy: true}, {have: []int{1}, slow: time.Second}}},
	}
	plans = append(plans, echoPlans...)
	sched := func(rules int) func() {
		return func() { watched(plans[vs.ChooseFree(len(plans), "plan")], rules) }
	}
	faulty := func(rules int) func(e *mc.Enum) {
		return func(e *mc.Enum) {
			layouts := []*layout{mk(2, 3), big, mk(2, 5)}
			if mc.Thorough {
				layouts = append(layouts, mk(2*block, 5*block))
			}
			one := func(p plan) {
				if e.Stopped() {
					return
				}
				e.Casef(func() { e.Sched(vs.Config{}, func() { watched(p, rules) }) }, "%v", p)
			}
			for _, l := range layouts {
				nb := 0
				for i := 0; i < l.n(); i++ {
					nb += len(l.blocksOf(i))
				}
				for f := fNone; f < nFaults; f++ {
					for at := 1; at <= nb+1; at++ {
						for mode := 0; mode < 8; mode++ {
							x := peerPlan{have: l.all(), fault: f, at: at, dialed: mode&1 > 0, rev: mode&2 > 0, byHave: mode&4 > 0, leech: mode&1 == 0}
							for _, have := range [][]int{l.all(), {l.n() - 1}} {
								one(plan{l: l, interval: 60, peers: []peerPlan{x, {have: have, later: 15 * time.Second * time.Duration(mode&1), greets: mode&2 > 0}}})
							}
							one(plan{l: l, pre: []int{0}, peers: []peerPlan{x, {have: l.all(), leech: true}, {have: nil, leech: true, byHave: true}}})
							if mc.Thorough {
								for g := fNone; g < nFaults; g++ {
									one(plan{l: l, interval: 60, peers: []peerPlan{x, {have: l.all(), fault: g, at: 1 + at%2}}})
								}
							}
						}
					}
				}
			}
			one(plan{l: huge, peers: []peerPlan{{have: []int{0, 1}}, {have: []int{0, 1}}}})
			one(plan{l: huge, peers: []peerPlan{{have: []int{0, 1}, rev: true}}})
			for _, at := range []int{1, 2, 3, 17, 18, 19} {
				one(plan{l: huge, peers: []peerPlan{{have: []int{0, 1}, fault: fStall, at: at}, {have: []int{0, 1}, later: time.Second}}})
				one(plan{l: huge, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: at}, {have: []int{0, 1}}}})
			}
			// more than one piece becomes available while blocks of the first are on their way
			for _, slow := range []time.Duration{0, time.Second, 4 * time.Second} {
				for _, gap := range []time.Duration{0, time.Second, 2 * time.Second, 6 * time.Second} {
					for mode := 0; mode < 8; mode++ {
						x := peerPlan{have: []int{0}, gets: []int{1}, gap: gap, slow: slow, dialed: mode&1 > 0, greets: mode&2 > 0, byHave: mode&4 > 0}
						one(plan{l: huge, peers: []peerPlan{x}})
						x.fault, x.at = fFlap, 2
						one(plan{l: huge, interval: 60, peers: []peerPlan{x}})
						x = peerPlan{have: []int{0, 1}, slow: slow, dialed: mode&1 > 0, greets: mode&2 > 0, byHave: mode&4 > 0}
						one(plan{l: huge, peers: []peerPlan{x}})
						x.fault, x.at = fFlap, 1+int(gap/time.Second)*3
						one(plan{l: huge, interval: 60, peers: []peerPlan{x}})
					}
				}
			}
			one(plan{l: huge, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: 3}, {have: []int{0, 1}, fault: fChoke, at: 20}}})
		}
	}
	mc.Register(&mc.Check{
		ID:          "C30",
		Explain:     "every fault at every request of peers in all modes, watched by a referee that knows the requests each peer has not answered; pieces of up to 70 blocks; downloads under all schedules within the bound; a choke beside a request whose answer proves it was processed, under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "faults", Enum: faulty(rRequests), Weight: 2},
			{Name: "long pieces", Enum: longPieces},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 3, Body: sched(rRequests)},
			{Name: "race", Bound: 1, BoundT: 1, Race: true, Body: sched(rRequests)},
			{Name: "choke", Bound: 2, BoundT: 3, Weight: 3, Body: chokeBody},
		},
	})
	mc.Register(&mc.Check{
		ID: "C35", QuickSecs: 60,
		Explain:     "as C30, with a referee that knows which pieces the server can have verified; blocks that arrive at the moment their request expires, and peers that connect while a piece completes, under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "faults", Enum: faulty(rClaims), Weight: 2},
			{Name: "deaf", Enum: deafened, Weight: 2},
			{Name: "slow handshakes", Enum: slowHandshakes},
			{Name: "slow handshakes, schedules", Bound: 1, BoundT: 2, Body: func() {
				watched(slowPlans[vs.ChooseFree(len(slowPlans), "plan")], rClaims)
			}},
			{Name: "slow handshakes, race", Bound: 1, BoundT: 1, Race: true, Body: func() {
				watched(slowPlans[vs.ChooseFree(len(slowPlans), "plan")], rClaims)
			}},
			{Name: "timers", Cfg: vs.Config{EarlyTimers: true}, Bound: 2, BoundT: 2, Weight: 2, Body: func() {
				ps := []plan{plans[0], plans[1], plans[6], {l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: 1}, {have: []int{0, 1}}, {leech: true}}}}
				watched(ps[vs.ChooseFree(len(ps), "plan")], rClaims)
			}},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 3, Body: sched(rClaims)},
			{Name: "last moment", Bound: 2, BoundT: 3, Weight: 2, Body: func() {
				// The block arrives when its time is just over.
				ps := []plan{
					{l: mk(2, 3), pre: []int{1}, peers: []peerPlan{{have: []int{0, 1}, slow: 10 * time.Second}, {leech: true}}},
				}
				watched(ps[vs.ChooseFree(len(ps), "plan")], rClaims)
			}},
			{Name: "echoes", Bound: 2, BoundT: 3, Weight: 2, Body: func() {
				watched(echoPlans[vs.ChooseFree(len(echoPlans), "plan")], rClaims)
			}},
			{Name: "newcomers", Bound: 2, BoundT: 3, Weight: 3, Body: newcomers},
			{Name: "newcomers race", Bound: 1, BoundT: 2, Race: true, Body: newcomers},
		},
	})
}

// longPieces: pieces of many blocks, which take more than one round of requests.
func longPieces(e *mc.Enum) {
	one := func(p plan) {
		if e.Stopped() {
			return
		}
		e.Casef(func() { e.Sched(vs.Config{}, func() { watched(p, rRequests) }) }, "%v", p)
	}
	for _, n := range []int{16, 17, 40, 70} {
		l := mk(n*block, 2*n*block-1)
		for _, x := range []peerPlan{{}, {rev: true}, {slow: time.Second}, {slow: 9 * time.Second}, {fault: fStall, at: 1}, {fault: fStall, at: n}, {fault: fStall, at: n + 1}, {fault: fLose, at: n/2 + 1}, {fault: fChoke, at: n/2 + 1}} {
			x.have = []int{0, 1}
			one(plan{l: l, interval: 60, peers: []peerPlan{x}})
			one(plan{l: l, interval: 60, peers: []peerPlan{x, {have: []int{1}, slow: time.Second}}})
		}
	}
}

// chokeBody: a peer chokes the server and at the same time asks for a block the
// server has; requests after the answer are sent by a server that knows it is choked.
func chokeBody() {
	l := mk(2, 7)
	if vs.ChooseFree(2, "layout") == 1 {
		l = mk(2*block, 4*block)
	}
	w := newWorld(l, 0)
	w.up()
	r := w.remote(1, l.all()...)
	at := vs.ChooseFree(2, "choke at request") + 1
	n := 0
	known := false
	r.on = func(r *remote, x msg) {
		switch x.typ {
		case mUnchoke:
			r.unchoke() // only now: the server will answer the question
		case mRequest:
			if r.choking {
				if known {
					vs.Failf("the server asks for %v after it has learned that it is choked", x.b)
				}
				return
			}
			n++
			if n == at {
				r.choke()
				r.request(l.blocksOf(0)[0])
				return
			}
			r.give(x.b)
		case mPiece:
			known = true
		}
	}
	w.connect(r)
	await(func() bool { return known }, time.Minute)
	settle(6 * time.Second)
	if !known {
		vs.Failf("the server has not answered a request within a minute")
	}
	w.quiet()
}

// deafened: a peer that does not read, or leaves, while others are to be told of pieces.
func deafened(e *mc.Enum) {
	two, three, big := mk(2, 3), mk(2, 5), mk(block+1, 2*block+2)
	hs := 68
	for _, l := range []*layout{two, three, big} {
		first := hs + 5 + (l.n()+7)/8
		bufs := []int{1, hs, first - 1}
		for n := 0; n <= l.n(); n++ {
			for _, d := range []int{0, 1, 5} {
				bufs = append(bufs, first+5*n+d, first+9*n+d, first+5+9*n+d)
			}
		}
		for _, buf := range bufs {
			for pos := 0; pos < 3; pos++ {
				for mode := 0; mode < 8; mode++ {
					if e.Stopped() {
						return
					}
					d := peerPlan{deaf: buf, greets: mode&1 > 0}
					if mode&2 > 0 {
						d.have = l.all()
					}
					if mode&1 > 0 && mode&2 > 0 {
						continue // lures the server, which C24 looks at
					}
					p := plan{l: l}
					for i := 0; i < 3; i++ {
						if i == pos {
							p.peers = append(p.peers, d)
						}
						if i == 2 {
							p.peers = append(p.peers, peerPlan{have: l.all(), later: 12 * time.Second * time.Duration(mode>>2)})
						} else {
							p.peers = append(p.peers, peerPlan{leech: i == 0})
						}
					}
					e.Casef(func() { e.Sched(vs.Config{}, func() { watched(p, rClaims) }) }, "%v", p)
					for _, leaves := range []int{5, 12, 15, 21} {
						// one more, who leaves meanwhile
						for at := 0; at <= 3; at++ {
							q := plan{l: l, peers: append([]peerPlan{}, p.peers[:at]...)}
							q.peers = append(q.peers, peerPlan{leaves: time.Duration(leaves) * time.Second})
							q.peers = append(q.peers, p.peers[at:]...)
							e.Casef(func() { e.Sched(vs.Config{}, func() { watched(q, rClaims) }) }, "%v", q)
						}
					}
				}
			}
		}
	}
}

// newcomers: peers connect while a piece is completed.
func newcomers() {
	l := mk(2, 3)
	p := plan{l: l, peers: []peerPlan{{have: []int{0, 1}}, {}, {}}}
	if vs.ChooseFree(2, "the second newcomer") == 1 {
		p.peers[2].dialed = true
	}
	refRules = rClaims
	s := setup(p)
	f := watch(s)
	s.up()
	s.enter()
	await(s.finished, 10*time.Minute)
	settle(time.Second)
	f.end()
	s.quiet()
}

var slowPlans = []plan{
	{l: mk(2, 3), peers: []peerPlan{{have: []int{0, 1}, slow: 2 * time.Second}, {slowHS: 2 * time.Second}}},
	{l: mk(2, 3), peers: []peerPlan{{have: []int{0, 1}, slow: time.Second}, {slowHS: 2 * time.Second, dialed: true, have: []int{0}}}},
	{l: mk(2, 3), peers: []peerPlan{{have: []int{0}, slow: 2 * time.Second}, {have: []int{1}, slow: 2 * time.Second}, {slowHS: 2 * time.Second, leech: true}}},
}

// slowHandshakes: pieces are completed while peers shake hands.
func slowHandshakes(e *mc.Enum) {
	big := mk(block+1, 2*block+2)
	for _, l := range []*layout{mk(2, 3), mk(2, 5), big} {
		for slow := 0; slow <= 3; slow++ {
			for hs := 0; hs <= 9; hs++ {
				for mode := 0; mode < 16; mode++ {
					if e.Stopped() {
						return
					}
					x := peerPlan{slowHS: time.Duration(hs) * time.Second, dialed: mode&1 > 0, leech: mode&2 > 0, byHave: mode&4 > 0}
					if mode&8 > 0 {
						x.have = l.all()
					}
					p := plan{l: l, peers: []peerPlan{{have: l.all(), slow: time.Duration(slow) * time.Second}, x}}
					e.Casef(func() { e.Sched(vs.Config{}, func() { watched(p, rClaims) }) }, "%v", p)
				}
			}
		}
	}
}
