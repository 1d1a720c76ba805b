package main

import (
	"errors"
	"fmt"
	"time"

	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// gate is a waiter that opens at a number of steps, or when nothing happens any more.
type gate struct {
	at    int
	late  bool
	timer vs.Timer
}

func (g *gate) Fire()         { g.late = true }
func (g *gate) Enabled() bool { return g.late || vs.Steps() >= g.at }

// pass blocks until then.
func (g *gate) pass() {
	g.timer.Fire = g
	g.timer.Arm(vs.NowNano() + int64(30*time.Second))
	vs.Yield(g, "gate")
	g.timer.Disarm()
}

// ended checks that nothing of a server is left; Start has returned.
func (w *world) ended(what string) {
	settle(0)
	for _, t := range vs.Threads() {
		if n := t.Name; (n == "go" || n == "errgroup" || n == "AfterFunc") && !t.Done() {
			vs.Failf("%s: a goroutine of the server is left, at %s", what, t.At())
		}
	}
	for i, c := range w.net.Conns {
		if i%2 == 0 && !c.Closed() && !c.Reset0() {
			vs.Failf("%s: the connection with %v is left open", what, c.RemoteAddr())
		}
	}
	for _, l := range w.net.Listeners {
		if !l.Closed() {
			vs.Failf("%s: the port is still listened on", what)
		}
	}
	reqs, dials := len(w.reqs), len(w.net.Dials)
	settle(2 * time.Hour)
	if len(w.reqs) != reqs {
		vs.Failf("%s: a tracker gets a request with event %q later", what, w.reqs[len(w.reqs)-1].event())
	}
	if len(w.net.Dials) != dials {
		vs.Failf("%s: a peer is dialed later", what)
	}
}

func (w *world) told(event string) bool {
	for _, t := range w.reqs {
		if t.event() == event {
			return true
		}
	}
	return false
}

// events checks what the tracker was told over the whole run.
func (w *world) events(what string) {
	// In what order if Stop comes while Start announces itself is left open.
	started, stopped := 0, 0
	for _, t := range w.reqs {
		switch t.event() {
		case "started":
			started++
		case "stopped":
			stopped++
		}
	}
	if started > 1 || stopped != 1 {
		vs.Failf("%s: the tracker is told \"started\" %d times, \"stopped\" %d times", what, started, stopped)
	}
}

var stopPlans = []plan{
	{l: mk(2, 3), peers: []peerPlan{{have: []int{0, 1}, leech: true}, {have: []int{0, 1}, dialed: true}}},
	{l: mk(2, 3), pre: []int{0}, peers: []peerPlan{{have: []int{0}, leech: true, dialed: true}, {have: []int{1}, fault: fStall, at: 1}}},
	{l: mk(block+1, 2*block+2), peers: []peerPlan{{have: []int{0, 1}, rev: true}, {have: nil, leech: true}}},
	{l: mk(2, 3), interval: 7, peers: []peerPlan{{have: []int{0, 1}, fault: fChoke, at: 1}, {have: []int{1}, later: 3 * time.Second}}},
}

// stopAt plays a plan and stops the server at a step, in one of several ways.
// It tells whether the run has that many steps.
func stopAt(p plan, step int, way int) (reached bool) {
	what := fmt.Sprintf("stopped at step %d, way %d of %v", step, way, p)
	s := setup(p)
	s.start()
	t := vs.GoNamed("stopper", func() {
		g := &gate{at: step}
		g.pass()
		reached = !g.late
		for s.srv.Stop() != nil && !s.started.Done() && !s.told("stopped") {
			// not started yet
			vs.Sleep(time.Millisecond)
		}
	})
	ts := []*vs.Thread{t}
	if way == 1 {
		ts = append(ts, vs.GoNamed("stopper 2", func() {
			(&gate{at: step}).pass()
			s.srv.Stop()
		}))
	}
	s.ending = true // peers do not come back
	vs.Spawn("enter", func() {
		vs.Yield(&cond{f: func() bool { return len(s.net.Listeners) > 0 }}, "enter")
		if !s.net.Listeners[0].Closed() {
			for _, m := range s.members {
				if !m.p.dialed && m.p.later == 0 {
					if r := s.incarnate(m); !s.connect(r) {
						r.closed = true
					}
				}
			}
		}
	})
	all := func() bool {
		for _, t := range ts {
			if !t.Done() {
				return false
			}
		}
		return s.started.Done()
	}
	if !await(all, time.Minute) {
		vs.Failf("%s: a minute later Stop is %s, Start is %s", what, where(t), where(s.started))
		return reached
	}
	vs.Join(append(ts, s.started)...)
	s.ended(what)
	s.events(what)
	for _, r := range s.remotes {
		if r.bad != "" {
			vs.Failf("%s: %s got %s", what, r.name, r.bad)
		}
	}
	// what was downloaded is kept, and a new server goes on
	vs.Mute(true)
	before := map[int]bool{}
	for i := 0; i < p.l.n(); i++ {
		_, err := s.st.GetBlock(i, 0, 1)
		before[i] = err == nil
	}
	w := s.world
	w.ending = false
	w.make()
	w.started, w.remotes = nil, nil
	w.listed = nil
	w.check0()
	w.start()
	vs.Quiesce()
	r := w.remote(50, p.l.all()...)
	r.on = func(r *remote, x msg) {
		if x.typ == mRequest && before[x.b.p] {
			vs.Failf("%s: piece %d is downloaded again after a restart", what, x.b.p)
		}
		seeder(r, x)
	}
	if !w.connect(r) {
		vs.Failf("%s: a new server does not listen", what)
	}
	vs.Mute(false)
	if !await(w.finished, time.Minute) {
		vs.Failf("%s: a new server does not complete it: the target %s", what, w.complete())
	}
	w.quiet()
	return reached
}

// check0 takes the scene's referees off.
func (w *world) check0() { w.onDial, w.sends, w.onMsg = nil, nil, nil }

func stopEverywhere(e *mc.Enum) {
	for _, p := range stopPlans {
		for way := 0; way < 2; way++ {
			for step, reached := 0, true; reached; step++ {
				if e.Stopped() {
					return
				}
				e.Casef(func() { e.Sched(vs.Config{}, func() { reached = stopAt(p, step, way) }) }, "step %d, way %d, %v", step, way, p)
			}
		}
	}
}

// hard: moments when something the server waits for does not come.
func hard(e *mc.Enum) {
	run := func(name string, f func()) {
		if e.Stopped() {
			return
		}
		e.Casef(func() { e.Sched(vs.Config{}, f) }, "%s", name)
	}
	l := mk(2, 3)
	until := func(w *world, what string, d time.Duration) {
		t := vs.GoNamed("Stop", func() { w.srv.Stop() })
		if !await(func() bool { return t.Done() && w.started.Done() }, d) {
			vs.Failf("%s: %v after Stop: Stop is %s, Start is %s", what, d, where(t), where(w.started))
			return
		}
		w.ended(what)
	}
	for _, n := range []int{0, 1, 2, 3, 10} {
		// the n-th request and those after it are never answered
		run(fmt.Sprintf("tracker hangs from request %d", n), func() {
			w := newWorld(l)
			w.reply = func(t treq) reply {
				return reply{Body: peersReply(5), Hang: len(w.reqs) > n}
			}
			w.start()
			vs.Quiesce()
			r := w.remote(1, 0, 1)
			r.on = seeder
			w.connect(r)
			if n > 0 {
				settle(31 * time.Second)
			} else {
				settle(0)
			}
			if !w.finished() {
				vs.Failf("while the tracker hangs nothing is downloaded")
			}
			until(w, "hanging tracker", 40*time.Second)
		})
	}
	for _, d := range []time.Duration{0, time.Second, 9 * time.Second, 11 * time.Second} {
		run(fmt.Sprintf("dials hang, stop after %v", d), func() {
			w := newWorld(l)
			w.listed = []peerAddr{{"10.0.1.1", 1}, {"10.0.1.2", 2}}
			w.net.DialHang = func(string) bool { return true }
			w.up()
			settle(d)
			until(w, "hanging dials", 5*time.Second)
		})
		run(fmt.Sprintf("silent peers, stop after %v", d), func() {
			w := newWorld(l)
			for k := 1; k <= 2; k++ {
				r := w.remote(k)
				r.silent = true
				if k == 1 {
					w.listed = []peerAddr{r.pa()}
					w.onDial = func(string) *remote { return r }
				} else {
					defer func() {}()
				}
			}
			w.up()
			r := w.remote(2)
			r.silent = true
			w.connect(r)
			settle(d)
			until(w, "silent peers", 5*time.Second)
		})
		run(fmt.Sprintf("peers that do not read, stop after %v", d), func() {
			w := newWorld(l, 0)
			w.up()
			r := w.remote(1)
			r.noRead = true
			vnetBuf(85)
			w.connect(r)
			settle(11 * time.Second)
			for k := 0; k < 10; k++ {
				r.request(blk{0, 0, 2})
			}
			settle(d)
			until(w, "peers that do not read", 15*time.Second)
		})
	}
	run("stop before start", func() {
		w := newWorld(l)
		if w.srv.Stop() == nil {
			vs.Failf("Stop of a server that was not started reports success")
		}
	})
	run("port taken", func() {
		w := newWorld(l)
		w.net.ListenErr = errors.New("address in use")
		w.start()
		if !await(w.started.Done, time.Minute) || w.err == nil {
			vs.Failf("the port is taken: Start is %s and returns %v", where(w.started), w.err)
		}
		w.ended("port taken")
		if len(w.reqs) > 0 {
			vs.Failf("the port is taken, but the tracker is told of it")
		}
	})
	run("all trackers fail", func() {
		w := newWorld(l)
		w.reply = func(treq) reply { return reply{Err: errors.New("connection refused")} }
		w.start()
		if !await(w.started.Done, time.Minute) || w.err == nil {
			vs.Failf("all trackers fail: Start is %s and returns %v", where(w.started), w.err)
		}
		w.ended("all trackers fail")
	})
	run("bad storage", func() {
		w := newWorld(l)
		w.l.info.Name = "../x"
		defer func() { w.l.info.Name = "out" }()
		w.st = storage.New(tdir, wdir, w.l.info)
		w.srv = p2p.New(w.mi, ownID, w.st, port)
		w.start()
		if !await(w.started.Done, time.Minute) || w.err == nil {
			vs.Failf("the storage refuses: Start is %s and returns %v", where(w.started), w.err)
		}
		w.ended("bad storage")
	})
	run("start result", func() {
		w := newWorld(l)
		w.up()
		settle(time.Hour)
		if w.started.Done() {
			vs.Failf("Start returns by itself: %v", w.err)
		}
		until(w, "idle", time.Second)
		w.events("idle")
	})
}

// failedStart: the first announcement fails while peers are being served.
func failedStart(n, ways, all int) {
	l := mk(2, 3)
	w := newWorld(l, 0)
	way := vs.ChooseFree(ways, "failure")
	w.reply = func(t treq) reply {
		if t.event() == "stopped" {
			return reply{Body: peersReply(60)}
		}
		if way == 0 {
			return reply{Delay: 5 * time.Second, Err: errors.New("connection refused")}
		}
		return reply{Delay: 5 * time.Second, Body: []byte("d14:failure reason2:noe")}
	}
	sends := vs.ChooseFree(all, "the peers do")
	vs.Mute(true)
	w.start()
	vs.Quiesce()
	if w.started.Done() {
		vs.Failf("Start does not wait for the tracker")
	}
	for k := 1; k <= n; k++ {
		r := w.remote(k, l.all()...)
		if sends == 1 {
			r.have = []int{}
		}
		r.on = seeder
		r.greet = func(r *remote) {
			r.sendBitfield(r.have...)
			if sends == 1 {
				r.unchoke()
			}
		}
		if sends == 0 || sends == 3 {
			r.on = nil
		}
		if sends == 2 {
			r.on = func(r *remote, x msg) {
				switch x.typ {
				case mInterested:
					r.unchoke()
				case mRequest:
					vs.Spawn("answers", func() { vs.Sleep(5*time.Second - vs.Elapsed()); r.give(x.b) })
				}
			}
		}
		if k == 2 && sends == 3 {
			r.silent = true
		}
		w.connect(r)
		if sends == 0 || sends == 1 || sends == 3 {
			vs.Spawn("at that moment", func() {
				vs.Sleep(5 * time.Second)
				switch {
				case !r.alive():
				case sends == 1:
					r.sendHave(1)
				case sends == 3 && k == 2:
					r.send(r.hello())
					r.sendBitfield(l.all()...)
					r.unchoke()
				default:
					r.unchoke()
				}
			})
		}
	}
	vs.Quiesce()
	vs.Mute(false)
	if !await(w.started.Done, time.Minute) {
		vs.Failf("the first announcement has failed, a minute later Start is %s", where(w.started))
		return
	}
	vs.Join(w.started)
	if w.err == nil {
		vs.Failf("the first announcement failed, Start returns no error")
	}
	w.ended("the first announcement failed")
	w.events("the first announcement failed")
}

func init() {
	mc.Register(&mc.Check{
		ID: "C29", QuickSecs: 60,
		Explain:     "four downloads stopped at every step of their default schedule, once or by two callers; stops while trackers, dials, handshakes or writes hang; stops at several steps under all schedules within the bound; afterwards threads, connections, listeners and two hours of requests are inspected, and a new server must complete the torrent without asking again for verified pieces",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "every moment", Enum: stopEverywhere, Weight: 2},
			{Name: "hard moments", Enum: hard},
			{Name: "failed start", Bound: 1, BoundT: 2, Body: func() { failedStart(2, 2, 4) }},
			{Name: "failed start, deep", Bound: 3, BoundT: 4, Weight: 2, Body: func() { failedStart(1, 1, 2) }},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 3, Body: func() {
				stopAt(stopPlans[vs.ChooseFree(len(stopPlans), "plan")], 17*vs.ChooseFree(mc.Pick(16, 40), "step"), 1)
			}},
			{Name: "race", Bound: 1, BoundT: 1, Race: true, Body: func() {
				stopAt(stopPlans[vs.ChooseFree(len(stopPlans), "plan")], mc.Pick(90, 15)*vs.ChooseFree(mc.Pick(3, 20), "step"), 1)
			}},
		},
	})
}
