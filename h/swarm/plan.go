package main

import (
	"fmt"
	"sort"
	"time"

	"github.com/browles/drip/zzv/rt/vhttp"
	"github.com/browles/drip/zzv/rt/vs"
)

type reply = vhttp.Reply

// What a peer of a plan does wrong, once, at its k-th request (or message).
const (
	fNone    = iota
	fDrop    // closes the connection instead of answering, and comes back
	fReset   // the same, with a reset
	fDropMsg // closes the connection at the k-th message of any kind, and comes back
	fChoke   // chokes instead of answering, forgets the requests, unchokes later
	fFlap    // chokes and unchokes at once, forgets the request
	fLose    // does not answer this one
	fLate    // answers after the server has given up
	fBad     // answers with wrong bytes
	fBadGone // answers with wrong bytes and closes the connection
	fTwice   // answers twice
	fWrong   // sends a block nobody asked for, with wrong bytes, then the right answer
	fStall   // answers none from here on
	fRest    // chokes instead of answering, forgets the requests, unchokes much later
	fLateBad // answers wrongly after the server has given up
	fHog     // answers none from here on, leaves when the server gives up and is back at once
	fHogSoon // the same, leaving just before
	nFaults
)

var fNames = [nFaults]string{"", "drops at", "resets at", "drops at message", "chokes at", "flaps at", "loses", "is late with", "is wrong at", "is wrong and leaves at", "answers twice", "sends a wrong block before", "stalls from", "rests at", "is late and wrong with", "leaves and is back after stalling from", "leaves in time and is back after stalling from"}

// honest tells whether a peer with this fault may be expected to deliver in the end.
func honest(f int) bool {
	return f != fBad && f != fBadGone && f != fStall && f != fWrong && f != fLateBad && f != fHog && f != fHogSoon
}

type peerPlan struct {
	have   []int
	dialed bool
	byHave bool          // announces by HAVE messages instead of a bitfield
	later  time.Duration // comes later
	fault  int
	at     int
	greets bool          // unchokes the server at once, unasked
	rev    bool          // answers requests in reverse order of arrival, when no more come
	leech  bool          // asks for every piece the server announces
	tidy   bool          // chokes the server when it is not interested
	gets   []int         // pieces it gets and announces later,
	gap    time.Duration // so long after it connected,
	echo   bool          // or as soon as the server announces one
	slowHS time.Duration // its handshake comes later
	slow   time.Duration // its blocks come later
	tardy  time.Duration // its late blocks are so much later
	leaves time.Duration // closes its first connection then
	deaf   int           // reads nothing, and this much fits into its buffer
}

func (p peerPlan) String() string {
	s := fmt.Sprintf("has %v", p.have)
	if p.dialed {
		s += " dialed"
	}
	if p.byHave {
		s += " by HAVE"
	}
	if p.later > 0 {
		s += fmt.Sprintf(" after %v", p.later)
	}
	if p.greets {
		s += " unchokes unasked"
	}
	if p.rev {
		s += " in reverse"
	}
	if p.leech {
		s += " leeches"
	}
	if p.tidy {
		s += " chokes without interest"
	}
	if p.echo {
		s += fmt.Sprintf(" gets %v when it hears of one", p.gets)
	} else if len(p.gets) > 0 {
		s += fmt.Sprintf(" gets %v after %v", p.gets, p.gap)
	}
	if p.slowHS > 0 {
		s += fmt.Sprintf(" shakes hands after %v", p.slowHS)
	}
	if p.slow > 0 {
		s += fmt.Sprintf(" takes %v for a block", p.slow)
	}
	if p.tardy > 0 {
		s += fmt.Sprintf(" is %v more late", p.tardy)
	}
	if p.leaves > 0 {
		s += fmt.Sprintf(" leaves after %v", p.leaves)
	}
	if p.deaf > 0 {
		s += fmt.Sprintf(" reads nothing, buffers %d bytes", p.deaf)
	}
	if p.fault != fNone {
		s += fmt.Sprintf(" %s %d", fNames[p.fault], p.at)
	}
	return s
}

type plan struct {
	l        *layout
	pre      []int
	peers    []peerPlan
	interval int
	persist  bool // honest peers the server disconnects come back
}

func (p plan) String() string {
	s := fmt.Sprintf("%d bytes in pieces of %d", len(p.l.data), p.l.piece)
	if len(p.pre) > 0 {
		s += fmt.Sprintf(", has %v", p.pre)
	}
	for i, x := range p.peers {
		s += fmt.Sprintf("; peer %d %v", i+1, x)
	}
	return s
}

// member is a peer of a plan, over all of its connections.
type member struct {
	p     peerPlan
	k     int
	r     *remote // current connection
	all   []*remote
	nreq  int
	nmsg  int
	nhave int
	done  bool // its fault has happened
	badAt time.Duration
	queue []blk // requests kept back
	fuse  bool
	asked map[int]bool

	given     int         // bytes of right blocks given
	gave      map[int]int // right blocks given on this connection, by piece
	caught    bool        // the wrong block completed its piece: the server knows
	hogs      *remote     // the connection it stalls on
	strict    bool        // the server must not disconnect it
	refused   bool
	refusedAt time.Duration
}

// scene is a plan being played.
type scene struct {
	*world
	p       plan
	members []*member
	check   func(m *member, r *remote, x msg) // sees every message first
	owned   map[int]bool                      // pieces the server had at the start
}

// setup makes the world of a plan, not started.
func setup(p plan) *scene {
	s := &scene{world: newWorld(p.l, p.pre...), p: p, owned: map[int]bool{}}
	for _, i := range p.pre {
		s.owned[i] = true
	}
	if p.interval == 0 {
		p.interval = 1800
		s.p.interval = 1800
	}
	for i, pp := range p.peers {
		m := &member{p: pp, k: i + 1, asked: map[int]bool{}}
		s.members = append(s.members, m)
		if pp.dialed && pp.later == 0 {
			s.listed = append(s.listed, s.remote(m.k).pa())
		}
	}
	s.reply = func(t treq) (x reply) { x.Body = peersReply(s.p.interval, s.listed...); return }
	s.onDial = func(addr string) *remote {
		for _, m := range s.members {
			if m.p.dialed && s.remote(m.k).addr() == addr && (m.r == nil || !m.r.alive()) {
				return s.incarnate(m)
			}
		}
		return nil
	}
	return s
}

// incarnate makes the next connection of a member.
func (s *scene) incarnate(m *member) *remote {
	r := s.remote(m.k, m.p.have...)
	if m.p.leaves == 0 || len(m.all) == 0 {
		r.noRead, r.buf = m.p.deaf > 0, m.p.deaf
	}
	r.slowHS = m.p.slowHS
	r.greet = func(r *remote) {
		if m.p.byHave {
			for _, i := range m.p.have {
				r.sendHave(i)
			}
		} else {
			r.sendBitfield(m.p.have...)
		}
		if m.p.greets {
			r.unchoke()
		}
		if len(m.p.gets) > 0 && !m.p.echo {
			vs.Spawn("gets", func() {
				vs.Sleep(m.p.gap)
				for _, i := range m.p.gets {
					if r.alive() {
						r.sendHave(i)
					}
				}
			})
		}
		if m.p.leech {
			r.send(frame(mInterested))
		}
		if m.p.leech && r.noRead {
			vs.Spawn("asks", func() {
				vs.Sleep(12 * time.Second)
				for _, i := range ints(s.owned) {
					for _, b := range s.l.blocksOf(i) {
						if r.alive() {
							r.request(b)
						}
					}
				}
			})
		}
		if m.p.leaves > 0 && len(m.all) == 1 {
			vs.Spawn("leaves", func() {
				vs.Sleep(m.p.leaves)
				if r.alive() {
					r.drop()
					s.back(m)
				}
			})
		}
	}
	r.on = func(r *remote, x msg) { s.heard(m, r, x) }
	r.gone = func() {
		if !m.refused && !s.ending {
			m.refused, m.refusedAt = true, vs.Elapsed()
		}
		if s.p.persist && honest(m.p.fault) && !s.ending {
			s.back(m)
		}
	}
	m.r = r
	m.all = append(m.all, r)
	m.queue = nil
	m.asked = map[int]bool{}
	m.gave = map[int]int{}
	return r
}

// enter connects the members that connect by themselves; after start.
func (s *scene) enter() {
	for _, m := range s.members {
		if m.p.later > 0 {
			vs.Spawn("latecomer", func() {
				vs.Sleep(m.p.later)
				if m.p.dialed {
					s.listed = append(s.listed, s.remote(m.k).pa())
				} else {
					s.connect(s.incarnate(m))
				}
			})
		} else if !m.p.dialed {
			s.connect(s.incarnate(m))
		}
	}
}

// back lets a member that closed its connection connect again, if it is not dialed.
func (s *scene) back(m *member) {
	if !m.p.dialed {
		vs.Spawn("comes back", func() {
			vs.Sleep(20 * time.Second)
			if !s.away {
				s.connect(s.incarnate(m))
			}
		})
	}
}

func (s *scene) heard(m *member, r *remote, x msg) {
	if s.check != nil {
		s.check(m, r, x)
	}
	m.nmsg++
	if m.p.fault == fDropMsg && !m.done && m.nmsg == m.p.at {
		m.done = true
		r.drop()
		s.back(m)
		return
	}
	if m.p.leech && (x.typ == mUnchoke || x.typ == mHave) && r.count(mUnchoke) > 0 {
		for _, i := range sorted(r.knows()) {
			if i < s.l.n() && !m.asked[i] {
				m.asked[i] = true
				for _, b := range s.l.blocksOf(i) {
					r.request(b)
				}
			}
		}
	}
	if m.p.echo && x.typ == mHave && m.nhave < len(m.p.gets) {
		m.nhave++
		r.sendHave(m.p.gets[m.nhave-1])
	}
	switch x.typ {
	case mNotInterested:
		if m.p.tidy && !r.choking {
			r.choke()
		}
	case mInterested:
		if r.choking {
			r.unchoke()
		}
	case mRequest:
		if r.choking {
			return
		}
		m.nreq++
		if m.p.fault == fStall && m.nreq >= m.p.at {
			m.done = true
			return
		}
		if (m.p.fault == fHog || m.p.fault == fHogSoon) && m.nreq >= m.p.at {
			if m.hogs != r {
				m.hogs = r
				vs.Spawn("hogs", func() {
					d := 10*time.Second + 100*time.Microsecond
					if m.p.fault == fHogSoon {
						d -= 200 * time.Microsecond
					}
					vs.Sleep(d)
					if r.alive() && !s.ending && !s.away {
						r.drop()
						if m.p.dialed { // which it no longer needs
							m.p.dialed, m.p.greets = false, true
						}
						s.connect(s.incarnate(m))
					}
				})
			}
			return
		}
		if m.p.fault != fNone && m.nreq == m.p.at && !m.done {
			m.done = true
			s.blunder(m, r, x.b)
			return
		}
		if m.p.rev {
			m.queue = append(m.queue, x.b)
			if !m.fuse {
				m.fuse = true
				vs.Spawn("answers", func() {
					vs.Sleep(time.Second)
					m.fuse = false
					for i := len(m.queue) - 1; i >= 0 && r.alive(); i-- {
						m.gave[m.queue[i].p]++
						m.given += m.queue[i].n
						r.give(m.queue[i])
					}
					m.queue = nil
				})
			}
			return
		}
		m.gave[x.b.p]++
		m.given += x.b.n
		if m.p.slow > 0 {
			vs.Spawn("slow", func() {
				vs.Sleep(m.p.slow)
				if r.alive() && !r.choking {
					r.give(x.b)
				}
			})
			return
		}
		r.give(x.b)
	}
}

func (s *scene) blunder(m *member, r *remote, b blk) {
	switch m.p.fault {
	case fDrop:
		r.drop()
		s.back(m)
	case fReset:
		r.closed = true
		r.c.Reset()
		s.back(m)
	case fChoke, fRest:
		r.choke()
		m.queue = nil
		vs.Spawn("unchokes", func() {
			vs.Sleep(7 * time.Second)
			if m.p.fault == fRest {
				vs.Sleep(33 * time.Second)
			}
			if r.alive() {
				r.unchoke()
			}
		})
	case fFlap:
		r.choke()
		m.queue = nil
		r.unchoke()
	case fLose:
	case fLate:
		vs.Spawn("late", func() {
			vs.Sleep(12 * time.Second)
			if r.alive() {
				r.give(b)
			}
		})
	case fLateBad:
		vs.Spawn("late", func() {
			vs.Sleep(12*time.Second + m.p.tardy)
			if r.alive() {
				r.giveBad(b)
			}
		})
	case fBad, fBadGone:
		m.badAt = vs.Elapsed()
		m.caught = m.p.fault == fBad || m.gave[b.p] == len(s.l.blocksOf(b.p))-1
		r.giveBad(b)
		if m.p.fault == fBadGone {
			r.drop()
			s.back(m)
		}
	case fTwice:
		r.give(b)
		r.give(b)
	case fWrong:
		for i := 0; i < s.l.n(); i++ {
			for _, c := range s.l.blocksOf(i) {
				if c != b {
					r.giveBad(c)
				}
			}
		}
		r.give(b)
	}
}

// subsets calls f with every subset of 0..n-1.
func subsets(n int, f func([]int)) {
	for x := 0; x < 1<<n; x++ {
		var s []int
		for i := 0; i < n; i++ {
			if x>>i&1 == 1 {
				s = append(s, i)
			}
		}
		f(s)
	}
}

// covers tells whether the peers expected to deliver have everything that is missing.
func (p plan) covers() bool {
	m := map[int]bool{}
	for _, i := range p.pre {
		m[i] = true
	}
	for _, x := range p.peers {
		if honest(x.fault) {
			for _, i := range x.have {
				m[i] = true
			}
			for _, i := range x.gets {
				m[i] = true
			}
		}
	}
	return len(m) == p.l.n()
}

func ints(m map[int]bool) []int {
	var out []int
	for i, ok := range m {
		if ok {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}
