package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// What a listed peer does when it is dialed.
const (
	dAccept  = iota // takes part
	dRefuse         // refuses
	dHang           // does not answer at all
	dSilent         // takes the connection and says nothing
	dWrong          // another torrent
	dLeave          // takes part and leaves after 10 s
	dLateOK         // refuses the first time, takes part then
	dSelf           // is the server itself
	dWrongID        // has another id than the tracker says
	nDialKind
)

var dNames = []string{"takes part", "refuses", "hangs", "is silent", "has another torrent", "leaves", "refuses at first", "is the server", "has another id"}

type listedPeer struct {
	ip   string
	port int
	id   string
	kind int
}

func (p listedPeer) addr() string { return plain(net.JoinHostPort(p.ip, fmt.Sprint(p.port))) }

// plain is an address in its usual spelling.
func plain(addr string) string {
	host, port, err := net.SplitHostPort(addr)
	if ip := net.ParseIP(host); err == nil && ip != nil {
		return net.JoinHostPort(ip.String(), port)
	}
	return addr
}

// format writes a response listing peers: compact, or as dictionaries with or without ids.
func format(form int, interval int, ps []listedPeer) []byte {
	s := ""
	if form == 0 {
		for _, p := range ps {
			ip := net.ParseIP(p.ip).To4()
			if ip == nil {
				continue
			}
			s += string(ip) + string(binary.BigEndian.AppendUint16(nil, uint16(p.port)))
		}
		s = fmt.Sprintf("%d:%s", len(s), s)
	} else {
		for _, p := range ps {
			s += fmt.Sprintf("d2:ip%d:%s", len(p.ip), p.ip)
			if form == 1 {
				s += fmt.Sprintf("7:peer id%d:%s", len(p.id), p.id)
			}
			s += fmt.Sprintf("4:porti%dee", p.port)
		}
		s = "l" + s + "e"
	}
	return []byte(fmt.Sprintf("d8:intervali%de5:peers%se", interval, s))
}

type dialing struct {
	at   time.Duration
	addr string
	busy bool // a connection to it was open, or being opened
}

// lister is a server whose tracker lists peers.
type lister struct {
	*world
	form  int
	forms []int // of the k-th response, where they differ
	peers []listedPeer
	lists [][]int // of the k-th response; the last one stays
	conns map[string]*remote
	since map[string]time.Duration // hanging dials
	log   []dialing
	tries map[string]int
}

func newLister(l *layout, form int, peers []listedPeer, lists ...[]int) *lister {
	s := &lister{world: newWorld(l), form: form, peers: peers, lists: lists, conns: map[string]*remote{}, since: map[string]time.Duration{}, tries: map[string]int{}}
	s.reply = func(treq) reply {
		var ps []listedPeer
		for _, i := range s.lists[min(len(s.reqs)-1, len(s.lists)-1)] {
			ps = append(ps, s.peers[i])
		}
		return reply{Body: format(s.formOf(len(s.reqs)-1), 60, ps)}
	}
	note := func(addr string) listedPeer {
		addr = plain(addr)
		busy := false
		if r := s.conns[addr]; r != nil && r.alive() {
			busy = true
		}
		if t, ok := s.since[addr]; ok && vs.Elapsed() < t+9*time.Second {
			busy = true
		}
		s.log = append(s.log, dialing{vs.Elapsed(), addr, busy})
		s.tries[addr]++
		for _, p := range s.peers {
			if p.addr() == addr {
				return p
			}
		}
		vs.Failf("%s is dialed, which no tracker has listed", addr)
		return listedPeer{kind: dRefuse}
	}
	s.net.DialHang = func(addr string) bool {
		for _, p := range s.peers {
			if p.addr() == plain(addr) && p.kind == dHang {
				note(addr)
				s.since[p.addr()] = vs.Elapsed()
				return true
			}
		}
		return false
	}
	s.onDial = func(addr string) *remote {
		p := note(addr)
		addr = plain(addr)
		if p.kind == dRefuse || p.kind == dLateOK && s.tries[addr] == 1 {
			return nil
		}
		r := &remote{w: s.world, name: "dialed " + addr, ip: p.ip, port: p.port, choking: true}
		copy(r.id[:], p.id)
		r.have = []int{}
		switch p.kind {
		case dSilent:
			r.silent = true
		case dSelf:
			r.id = ownID
		case dWrongID:
			r.id[19] ^= 1
		case dWrong:
			r.silent = true
			vs.Spawn("another torrent", func() {
				h := handshake(theSHA, r.id)
				h[30] ^= 1
				r.c.Feed(h)
			})
		case dLeave:
			vs.Spawn("leaves", func() {
				vs.Sleep(10 * time.Second)
				if r.alive() {
					r.drop()
				}
			})
		}
		s.conns[addr] = r
		return r
	}
	return s
}

func (s *lister) formOf(k int) int {
	if len(s.forms) > 0 {
		return s.forms[min(k, len(s.forms)-1)]
	}
	return s.form
}

func (s *lister) dialed(addr string, from, to time.Duration) (n int) {
	for _, d := range s.log {
		if d.addr == addr && d.at >= from && d.at < to {
			n++
		}
	}
	return
}

// listings plays rounds of responses and checks who is dialed in each.
func (s *lister) listings(what string) {
	s.up()
	for round := 0; round < len(s.lists); round++ {
		from := vs.Elapsed()
		busy := map[string]bool{}
		for a, r := range s.conns {
			busy[a] = round > 0 && r.alive()
		}
		if round == 0 {
			from = 0
		}
		settle(time.Duration(59+min(round, 1)) * time.Second)
		if s.started.Done() {
			vs.Failf("%s: Start returns %v", what, s.err)
			return
		}
		listed := map[string]listedPeer{}
		for _, i := range s.lists[round] {
			if p := s.peers[i]; net.ParseIP(p.ip) != nil && (s.formOf(round) > 0 || net.ParseIP(p.ip).To4() != nil) {
				listed[p.addr()] = p
			}
		}
		for _, a := range keys(listed) {
			p := listed[a]
			n := s.dialed(a, from, vs.Elapsed())
			if busy[a] {
				if n > 0 {
					vs.Failf("%s: in round %d %s is dialed %d times while it is connected", what, round, a, n)
				}
				continue
			}
			if n != 1 {
				vs.Failf("%s: in round %d %s, which %s, is dialed %d times", what, round, a, dNames[p.kind], n)
			}
			ok := p.kind == dAccept || p.kind == dLateOK && s.tries[a] > 1
			if ok && (s.conns[a] == nil || !s.conns[a].alive() || !greeted(s.conns[a])) {
				vs.Failf("%s: in round %d %s is not connected", what, round, a)
			}
			if !ok && s.conns[a] != nil && s.conns[a].alive() {
				vs.Failf("%s: in round %d %s, which %s, is still connected", what, round, a, dNames[p.kind])
			}
			if s.formOf(round) == 0 && p.kind == dWrongID {
				vs.Failf("harness: ids are not known")
			}
		}
		for _, d := range s.log {
			if _, ok := listed[d.addr]; !ok && d.at >= from {
				vs.Failf("%s: in round %d %s is dialed, which is not listed now", what, round, d.addr)
			}
		}
		for _, d := range s.log {
			if d.busy {
				vs.Failf("%s: %s is dialed at %v, while there is a connection", what, d.addr, d.at)
			}
		}
	}
	s.usable(what)
	s.quiet()
}

func keys(m map[string]listedPeer) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func fleet(kinds ...int) (ps []listedPeer) {
	for i, k := range kinds {
		id := peerID(500 + i)
		ps = append(ps, listedPeer{fmt.Sprintf("10.0.6.%d", i+1), 9000 + i, string(id[:]), k})
	}
	return
}

func listEnum(e *mc.Enum) {
	l := mk(2, 3)
	run := func(form int, ps []listedPeer, lists [][]int) {
		if e.Stopped() {
			return
		}
		var n []string
		for _, p := range ps {
			n = append(n, p.addr()+" "+dNames[p.kind])
		}
		what := fmt.Sprintf("form %d, %s, listed %v", form, strings.Join(n, ", "), lists)
		e.Casef(func() { e.Sched(vs.Config{}, func() { newLister(l, form, ps, lists...).listings(what) }) }, "%s", what)
	}
	sets := [][]int{{}, {0}, {1}, {0, 1}, {1, 0}, {0, 0, 1}}
	for form := 0; form < 3; form++ {
		for a := 0; a < nDialKind; a++ {
			for b := 0; b < nDialKind; b++ {
				if form != 1 && (a == dWrongID || b == dWrongID) {
					continue
				}
				for i := range sets {
					for j := range sets {
						run(form, fleet(a, b), [][]int{sets[i], sets[j]})
						if mc.Thorough || (a+b)%3 == 0 {
							for k := range sets {
								run(form, fleet(a, b), [][]int{sets[i], sets[j], sets[k]})
							}
						}
					}
				}
			}
		}
	}
	// entries nobody can dial, between others
	for _, bad := range [][]listedPeer{{{"not.an.ip", 9100, "-bad-peer-0000000001", dRefuse}}, {{"", 9100, "-bad-peer-0000000001", dRefuse}}, {{"10.0.6.999", 9100, "-bad-peer-0000000001", dRefuse}}} {
		for form := 1; form < 3; form++ {
			ps := append(fleet(dAccept, dRefuse), bad...)
			for _, x := range [][]int{{2, 0, 1}, {0, 2, 1}, {2, 2, 0, 1}, {0, 1, 2}, {2}} {
				for _, y := range [][]int{{2, 0, 1}, {0, 2, 1}, {2, 1}, {0, 1}} {
					run(form, ps, [][]int{x, y})
					run(form, ps, [][]int{y, x})
				}
			}
		}
	}
	// responses in different forms, and with different spellings of an address
	mixed := func(ps []listedPeer, lists [][]int, forms ...int) {
		if e.Stopped() {
			return
		}
		var n []string
		for _, p := range ps {
			n = append(n, p.addr()+" "+dNames[p.kind])
		}
		what := fmt.Sprintf("forms %d, %s, listed %v", forms, strings.Join(n, ", "), lists)
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				s := newLister(l, 0, ps, lists...)
				s.forms = forms
				s.listings(what)
			})
		}, "%s", what)
	}
	for f := 0; f < 27; f++ {
		for a := 0; a < nDialKind-1; a++ {
			mixed(fleet(a, dAccept), [][]int{{0, 1}, {0, 1}, {1, 0}}, f%3, f/3%3, f/9)
		}
	}
	for a := 0; a < nDialKind-1; a++ {
		for form := 1; form < 3; form++ {
			ps := append(fleet(a), fleet(a)...)
			ps[1].ip = "::ffff:" + ps[1].ip
			for _, x := range [][]int{{0, 1}, {1, 0}, {0}, {1}} {
				for _, y := range [][]int{{0, 1}, {1, 0}, {0}, {1}} {
					mixed(ps, [][]int{x, y}, form)
				}
			}
		}
	}
	// several peers of one address
	var same []listedPeer
	for i, port := range []int{9000, 9256, 9001, 40000} {
		id := peerID(600 + i)
		same = append(same, listedPeer{"10.0.6.1", port, string(id[:]), dAccept})
	}
	for form := 0; form < 3; form++ {
		subsets(len(same), func(x []int) {
			run(form, same, [][]int{x, {0, 1, 2, 3}})
		})
	}
	// addresses
	odd := []listedPeer{
		{"2001:db8::1", 9001, string(ownID[:19]) + "x", dAccept}, {"::1", 9002, string(ownID[:19]) + "y", dAccept},
		{"10.0.6.1", 1, string(ownID[:19]) + "z", dAccept}, {"10.0.6.1", 65535, string(ownID[:19]) + "w", dAccept}, {"255.1.2.3", 256, string(ownID[:19]) + "v", dAccept},
	}
	for form := 0; form < 3; form++ {
		subsets(len(odd), func(x []int) {
			run(form, odd, [][]int{x})
			run(form, odd, [][]int{x, x})
		})
	}
}

// many: long lists, whose peers hang, refuse or take part.
func manyListed(e *mc.Enum) {
	ns := []int{1, 49, 50, 51, 99, 100, 101, 120}
	for _, n := range ns {
		for kind := 0; kind < 3; kind++ {
			for _, form := range []int{0, 2} {
				if e.Stopped() {
					return
				}
				what := fmt.Sprintf("%d listed, each %s, form %d", n, dNames[kind], form)
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						var ps []listedPeer
						var all []int
						for i := 0; i < n; i++ {
							id := peerID(500 + i)
							ps = append(ps, listedPeer{fmt.Sprintf("10.0.6.%d", i+1), 9000 + i, string(id[:]), kind})
							all = append(all, i)
						}
						good := listedPeer{"10.0.7.1", 9999, "-good-peer-000000001", dAccept}
						s := newLister(mk(2, 3), form, append(ps, good), all, []int{n}, nil)
						s.up()
						settle(59 * time.Second)
						for i, p := range ps {
							if k := s.dialed(p.addr(), 0, vs.Elapsed()); k > 1 || k == 0 && i < 50 {
								vs.Failf("%s: peer %d is dialed %d times", what, i, k)
							}
						}
						open := 0
						for _, r := range s.conns {
							if r.alive() {
								open++
							}
						}
						if kind == dAccept && open != min(n, 50) || open > 50 {
							vs.Failf("%s: %d are connected", what, open)
						}
						if kind == dAccept {
							for _, r := range s.remotes {
								if r.alive() {
									r.drop()
								}
							}
						}
						settle(60 * time.Second)
						if r := s.conns[good.addr()]; r == nil || !r.alive() {
							vs.Failf("%s: a peer listed a minute later is not connected", what)
						}
						// those there was no room for are dialed when there is
						for round := 0; round < 4; round++ {
							for _, r := range s.remotes {
								if kind == dAccept && r.alive() {
									r.drop()
								}
							}
							var rest []int
							for i, p := range ps {
								if s.dialed(p.addr(), 0, vs.Elapsed()) == 0 {
									rest = append(rest, i)
								}
							}
							s.lists[2] = rest
							settle(60 * time.Second)
						}
						for i, p := range ps {
							if s.dialed(p.addr(), 0, vs.Elapsed()) == 0 {
								vs.Failf("%s: peer %d, which is listed again and again, has not been dialed in %v", what, i, vs.Elapsed())
							}
						}
						if kind == dAccept {
							for _, r := range s.remotes {
								if r.alive() {
									r.drop()
								}
							}
							settle(time.Second)
						}
						s.usable(what)
						s.quiet()
					})
				}, "%s", what)
			}
		}
	}
}

// callers: peers that come by themselves, from the address the tracker lists then.
func callers(e *mc.Enum) {
	for form := 0; form < 3; form++ {
		for kind := 0; kind < 2; kind++ { // what it does when dialed
			for mode := 0; mode < 16; mode++ {
				what := fmt.Sprintf("form %d, %s when dialed, mode %d", form, dNames[kind], mode)
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						s := newLister(mk(2, 3), form, fleet(kind, dAccept), []int{1}, []int{0, 1}, []int{1, 0})
						if mode&1 > 0 {
							s.lists[0] = []int{0, 1} // comes while it is dialed
						}
						s.up()
						settle(20 * time.Second)
						p := s.peers[0]
						r := &remote{w: s.world, name: "caller", ip: p.ip, port: p.port, choking: true, have: []int{}}
						copy(r.id[:], p.id)
						if mode&2 > 0 {
							r.id[19] ^= 1
						}
						if mode&4 > 0 {
							r.slowHS = 4 * time.Second
						}
						s.connect(r)
						settle(10 * time.Second)
						first := mode&1 == 0 || kind == dRefuse
						if first && (!r.alive() || !greeted(r)) {
							vs.Failf("%s: it is not connected", what)
						}
						settle(40 * time.Second) // listed again
						if first && (!r.alive() || !greeted(r)) {
							vs.Failf("%s: it is not connected any more after it has been listed", what)
						}
						if n := s.tries[p.addr()]; n > 2 {
							vs.Failf("%s: it is dialed %d times", what, n)
						}
						if mode&8 > 0 {
							for _, r := range s.remotes {
								if r.alive() && r.ip == p.ip {
									r.drop()
								}
							}
							before := s.tries[p.addr()]
							settle(60 * time.Second)
							if n := s.tries[p.addr()]; n != before+1 {
								vs.Failf("%s: after it has left, it is dialed %d times", what, n-before)
							}
						}
						if r := s.conns[s.peers[1].addr()]; r == nil || !r.alive() {
							vs.Failf("%s: the other one is not connected", what)
						}
						s.usable(what)
						s.quiet()
					})
				}, "%s", what)
			}
		}
	}
}

// listSchedules: responses, dials, ends of connections and peers that come by themselves at the same time.
func listSchedules() {
	a, b := vs.ChooseFree(nDialKind-1, "first"), vs.ChooseFree(nDialKind-1, "second")
	l := mk(2, 3)
	s := newLister(l, 2, fleet(a, b), []int{0, 1}, []int{0, 1, 0})
	what := fmt.Sprintf("%s, %s", dNames[a], dNames[b])
	s.start()
	await(func() bool { return len(s.reqs) == 2 }, 65*time.Second)
	settle(20 * time.Second)
	for _, d := range s.log {
		if d.busy {
			vs.Failf("%s: %s is dialed at %v, while there is a connection", what, d.addr, d.at)
		}
	}
	for i, p := range s.peers {
		n := s.tries[p.addr()]
		want := 2
		if p.kind == dAccept {
			want = 1
		}
		more := 0 // the second list has the first peer twice, and its first dial may have ended by then
		if i == 0 && p.kind != dAccept && p.kind != dHang && p.kind != dLateOK {
			more = 1
		}
		if n < want || n > want+more {
			vs.Failf("%s: in two rounds peer %d is dialed %d times instead of %d", what, i, n, want)
		}
		if ok := p.kind == dAccept || p.kind == dLateOK; ok && !s.conns[p.addr()].alive() {
			vs.Failf("%s: peer %d is not connected", what, i)
		}
	}
	s.usable(what)
	s.quiet()
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C34",
		Explain:     "every pair of nine behaviours of listed peers, in three forms of response and with the forms changing between responses, in every sequence of two or three lists; odd and differently spelled addresses; 1 to 120 peers that hang, refuse or take part; two listed peers under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "lists", Enum: listEnum, Weight: 2},
			{Name: "many", Enum: manyListed},
			{Name: "callers", Enum: callers},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 2, Body: listSchedules},
			{Name: "race", Bound: 0, BoundT: 1, Race: true, Body: listSchedules},
		},
	})
}
