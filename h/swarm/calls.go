package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vnet"
	"github.com/browles/drip/zzv/rt/vs"
)

// A server whose network calls fail.

// snag is what happens to them.
type snag struct {
	op   int           // counted from the start of the server
	kind int           // how it fails
	last time.Duration // accepting and dialing fail as well, for so long
}

func (x snag) String() string {
	s := fmt.Sprintf("network call %d fails in way %d", x.op, x.kind)
	if x.last > 0 {
		s += fmt.Sprintf(", and accepting and dialing for the next %v", x.last)
	}
	return s
}

// stumble is what a failure does to a call; false if it does not apply.
func stumble(op string, n, kind int) (int, error) {
	errs := map[string][]error{
		"listen": {syscall.EADDRINUSE},
		"accept": {syscall.EMFILE, syscall.ECONNABORTED, syscall.ENOBUFS, syscall.ENFILE},
		"dial":   {syscall.EMFILE, syscall.EADDRNOTAVAIL},
		"read":   {syscall.ECONNRESET, syscall.EHOSTUNREACH},
		"write":  {syscall.EPIPE, syscall.ENOBUFS, syscall.EPIPE},
		"close":  {syscall.EIO},
	}[op]
	if kind >= len(errs) {
		return 0, nil
	}
	if op == "write" {
		return []int{0, n / 2, n - 1}[kind], errs[kind]
	}
	return 0, errs[kind]
}

func callRun(p plan, x snag) (n int) {
	s := setup(p)
	s.p.persist = true
	desc := fmt.Sprintf("%v; %v", p, x)
	what := ""
	hit := false
	var until time.Duration
	vnet.Hook = func(op string, size int) (int, error) {
		k := n
		n++
		if k == x.op {
			part, err := stumble(op, size, x.kind)
			if err != nil {
				hit, what = true, op
				until = vs.Elapsed() + x.last
			}
			return part, err
		}
		if hit && vs.Elapsed() < until && (op == "accept" || op == "dial") {
			return 0, syscall.EMFILE
		}
		return 0, nil
	}
	s.check = func(m *member, r *remote, z msg) {
		switch z.typ {
		case mPiece:
			if !s.l.isBlock(z.b) || string(z.data) != string(s.l.bytes(z.b.p)[z.b.off:z.b.off+z.b.n]) {
				vs.Failf("%s: peer %d is served %v, which is not of the torrent", desc, m.k, z)
			}
		case mRequest:
			if !s.l.isBlock(z.b) {
				vs.Failf("%s: peer %d is asked for %v, which is no block", desc, m.k, z)
			}
		}
	}
	s.start()
	settle(0)
	if s.started.Done() {
		if s.err == nil || what != "listen" {
			vs.Failf("%s: Start returns %v", desc, s.err)
			return
		}
		vs.Join(s.started)
		s.start()
		settle(0)
		if s.started.Done() {
			vs.Failf("%s: the second Start returns %v", desc, s.err)
			return
		}
	}
	s.enter()
	limit := vs.Elapsed() + 5*time.Minute + 2*x.last
	if !await(func() bool { return s.started.Done() || s.finished() }, limit) {
		vs.Failf("%s: after %v the target %s, pieces %v are complete", desc, limit, s.complete(), s.pieces())
	}
	leeches := func() bool {
		if s.started.Done() {
			return true
		}
		for _, m := range s.members {
			if m.r == nil || !m.r.alive() || m.r.count(mBitfield) == 0 {
				return false
			}
			if m.p.leech && (len(got(m.r)) < len(m.r.knows()) || len(m.r.knows()) < s.l.n()-len(p.pre)) {
				return false
			}
		}
		return true
	}
	ok := await(leeches, limit)
	if s.started.Done() {
		vs.Failf("%s: Start returns %v after %s failed", desc, s.err, what)
		return
	}
	if !ok {
		for _, m := range s.members {
			if m.r == nil || !m.r.alive() {
				vs.Failf("%s: peer %d is not connected again", desc, m.k)
			} else {
				vs.Failf("%s: peer %d knows of %v and has got %v in %v", desc, m.k, sorted(m.r.knows()), got(m.r), limit)
			}
		}
	}
	vs.Mute(true)
	vs.Quiesce()
	gone := 0
	for _, m := range s.members {
		for _, r := range m.all {
			if !r.alive() {
				gone++
			}
		}
	}
	if x.last == 0 && gone > 1 {
		vs.Failf("%s: one failure costs %d connections", desc, gone)
	}
	if down, most := s.srv.Downloaded(), int64(len(s.l.data)+s.l.piece); x.last == 0 && down > most {
		vs.Failf("%s: %d bytes are downloaded, the torrent has %d", desc, down, len(s.l.data))
	}
	vs.Mix(fmt.Sprint(what, gone, vs.Elapsed().Round(time.Second)))
	// The end is met by failures as well.
	s.quiet()
	if !s.started.Done() {
		vs.Failf("%s: Start has not returned", desc)
	}
	return
}

var callPlans = append([]plan{
	{l: mk(2, 3), interval: 60, peers: []peerPlan{{have: []int{0}, leech: true}, {have: []int{1}, dialed: true, leech: true}, {have: []int{}, later: 10 * time.Second, leech: true}}},
	{l: mk(2, 6), pre: []int{0, 1, 2}, interval: 60, peers: []peerPlan{{have: []int{}, leech: true}, {have: []int{}, dialed: true, leech: true}}},
}, diskPlans...)

func callFaults(e *mc.Enum) {
	for _, p := range callPlans {
		n := 0
		vs.Run(vs.Config{}, nil, func() { n = callRun(p, snag{op: -1}) })
		for op := -1; op < n+mc.Pick(6, 20); op++ {
			for kind := 0; kind < 4; kind++ {
				xs := []snag{{op: op, kind: kind}}
				if kind == 0 && op >= 0 {
					for _, t := range []time.Duration{1, 3 * time.Second, 25 * time.Second, 70 * time.Second, 3 * time.Minute} {
						xs = append(xs, snag{op: op, last: t})
					}
				}
				for _, x := range xs {
					if e.Stopped() {
						return
					}
					e.Casef(func() { e.Sched(vs.Config{}, func() { callRun(p, x) }) }, "%v; %v", p, x)
				}
			}
		}
	}
}

func init() {
	sched := func(bound, boundT int, race bool) mc.Unit {
		return mc.Unit{Bound: bound, BoundT: boundT, Race: race, Body: func() {
			p := []plan{callPlans[0], callPlans[1], diskPlans[0]}[vs.ChooseFree(3, "plan")]
			callRun(p, snag{op: vs.ChooseFree(mc.Pick(20, 48), "call"), kind: vs.ChooseFree(mc.Pick(2, 3), "kind")})
		}}
	}
	a, b := sched(1, 2, false), sched(1, 1, true)
	a.Name, b.Name = "schedules", "race"
	a.Weight = 2
	mc.Register(&mc.Check{
		ID: "C44", QuickSecs: 50,
		Explain:     "seven downloads and uploads with a failure of every network call (listening, accepting, dialing, reads, writes of which a part arrives, closing) in up to four ways, alone and followed by a time in which nothing can be accepted or dialed; some under all schedules within the bound; the server must stay, complete the torrent, connect to everybody again and serve them, at the cost of one connection",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; peers that are disconnected come back after 20 s or with the next announcement; a connection of which a read or write fails is broken, unless buffers are lacking; time passes only when nothing can run"},
		Units:       []mc.Unit{{Name: "faults", Enum: callFaults, Weight: 2}, a, b},
	})
}
