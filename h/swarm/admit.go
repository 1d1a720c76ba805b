package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

const limit = 50

// usable: the server's lock is free and it still does its work: it answers a newcomer and fetches what is missing.
func (w *world) usable(what string) {
	r := w.remote(99, w.l.all()...)
	r.on = seeder
	w.connect(r)
	if !await(func() bool { return w.finished() && len(r.got) > 0 }, 3*time.Minute) {
		vs.Failf("%s: three minutes later the target %s and a new seeder has been sent %v", what, w.complete(), r.got)
	}
}

func greeted(r *remote) bool { return len(r.got) > 0 && r.got[0].typ == mBitfield }

// crowd: more peers than the limit come, some leave, others come.
func crowd(in, listed, leave, again, silent int) {
	w := newWorld(mk(2, 3), 0)
	var out []*remote
	for k := 0; k < listed; k++ {
		w.listed = append(w.listed, peerAddr{fmt.Sprintf("10.0.2.%d", k+1), 8000 + k})
	}
	w.onDial = func(addr string) *remote {
		for k, p := range w.listed {
			if fmt.Sprintf("%s:%d", p.ip, p.port) == addr {
				r := &remote{w: w, name: "dialed " + addr, id: peerID(1000 + k), ip: p.ip, port: p.port, choking: true}
				out = append(out, r)
				return r
			}
		}
		return nil
	}
	open := func() (n int) {
		for _, r := range w.remotes {
			if r.alive() && greeted(r) {
				n++
			}
		}
		return
	}
	most := 0
	w.onMsg = func(r *remote, x msg) {
		if n := open(); n > most {
			most = n
		}
	}
	w.up()
	var all []*remote
	for k := 0; k < in; k++ {
		r := w.remote(100 + k)
		r.ip = fmt.Sprintf("10.0.3.%d", k+1)
		r.silent = k < silent
		all = append(all, r)
		w.connect(r)
	}
	settle(time.Second)
	if want := min(limit, in+listed) - min(silent, limit); open() < want-0 && listed == 0 {
		vs.Failf("of %d peers %d are connected after a second", in, open())
	}
	settle(12 * time.Second)
	for _, r := range all {
		if r.alive() && !greeted(r) {
			vs.Failf("%s has neither been accepted nor refused 13 s after it connected", r.name)
		}
	}
	n := 0
	for _, r := range all {
		if r.alive() && n < leave {
			r.drop()
			n++
		}
	}
	settle(time.Second)
	for k := 0; k < again; k++ {
		r := w.remote(200 + k)
		r.ip = fmt.Sprintf("10.0.4.%d", k+1)
		before := open()
		w.connect(r)
		settle(0)
		if before < limit && listed == 0 && !greeted(r) {
			vs.Failf("with %d connections the next peer is refused", before)
		}
	}
	settle(time.Second)
	if most > limit {
		vs.Failf("there were %d connections at once", most)
	}
	vs.Mix(fmt.Sprint(open(), most))
	for _, r := range w.remotes {
		if r.alive() {
			r.drop()
		}
	}
	settle(time.Second)
	// all slots are free again
	for k := 0; k < limit; k++ {
		r := w.remote(300 + k)
		r.ip = fmt.Sprintf("10.0.5.%d", k+1)
		w.connect(r)
	}
	settle(time.Second)
	if listed == 0 && open() != limit {
		vs.Failf("after everybody has left, %d of %d new peers are accepted", open(), limit)
	}
	for _, r := range w.remotes {
		if r.alive() {
			r.drop()
		}
	}
	settle(time.Second)
	w.usable("after the crowd")
	w.quiet()
}

func crowds(e *mc.Enum) {
	ins := []int{1, 49, 50, 51, 60}
	if mc.Thorough {
		ins = []int{1, 2, 48, 49, 50, 51, 52, 60, 99, 100, 101, 150}
	}
	for _, in := range ins {
		for _, listed := range []int{0, 1, 49, 50, 51, 60} {
			for _, leave := range []int{0, 1, 50} {
				for _, again := range []int{1, 3, 60} {
					for _, silent := range []int{0, 1, 50} {
						if e.Stopped() {
							return
						}
						e.Casef(func() {
							e.Sched(vs.Config{}, func() { crowd(in, listed, leave, again, silent) })
						}, "%d come, %d listed, %d leave, %d come again, %d say nothing", in, listed, leave, again, silent)
					}
				}
			}
		}
	}
}

// twice: the same peer connects twice, at the same time or one after the other.
func twice() {
	w := newWorld(mk(2, 3), 0)
	mode := vs.ChooseFree(4, "second connection") // same port is impossible for TCP; another port, dialed, both dialed, or the first dialed
	when := vs.ChooseFree(3, "when")
	low := vs.ChooseFree(2, "id") == 1
	mkr := func(p int) *remote {
		r := w.remote(1)
		r.port = p
		if low { // lower than that of the server, not higher
			r.id[0] = 0
		}
		return r
	}
	a := mkr(7001)
	b := mkr(7002)
	if mode == 1 {
		w.listed = append(w.listed, b.pa())
		if when == 2 { // not before the second response
			w.reply = func(t treq) (x reply) {
				x.Body = peersReply(30)
				if t.at > 20*time.Second {
					x.Body = peersReply(30, b.pa())
				}
				return
			}
		}
		w.onDial = func(string) *remote {
			if b.c != nil {
				return nil
			}
			return b
		}
	}
	if mode == 2 {
		w.listed = append(w.listed, a.pa(), b.pa())
		w.onDial = func(addr string) *remote {
			if addr == a.addr() && a.c == nil {
				return a
			}
			if addr == b.addr() && b.c == nil {
				return b
			}
			return nil
		}
	}
	if mode == 3 {
		w.listed = append(w.listed, a.pa())
		w.onDial = func(addr string) *remote {
			if addr == a.addr() && a.c == nil {
				return a
			}
			return nil
		}
	}
	if mode == 0 {
		w.up()
	} else {
		vs.Mute(true)
		w.start()
		vs.Mute(false)
	}
	if mode == 3 {
		if when > 0 {
			vs.Quiesce()
		}
		if when == 2 {
			settle(29 * time.Second)
		}
	} else if mode != 2 {
		for w.net.Connect("10.9.9.9", 1, port) == nil {
			vs.Quiesce()
		}
		w.connect(a)
		if when == 1 {
			vs.Quiesce()
		}
		if when == 2 {
			settle(29 * time.Second)
		}
	}
	if mode == 0 || mode == 3 {
		w.connect(b)
	}
	settle(2 * time.Second)
	if when == 2 && mode != 2 && !a.alive() {
		vs.Failf("a connection that has long been in use is given up for another one of the same peer")
	}
	la, lb := a.alive() && greeted(a), b.alive() && greeted(b)
	if la == lb {
		vs.Failf("the same peer connected twice: the first connection is up: %v, the second: %v", la, lb)
	}
	x, y := a, b
	if lb {
		x, y = b, a
	}
	if y.c != nil && y.alive() {
		vs.Failf("the refused connection is left open")
	}
	// the other one works: it is told of news and its pieces are known
	x.on = seeder
	x.sendHave(1)
	if !await(w.finished, time.Minute) {
		vs.Failf("the accepted connection is not used: %v", x.got)
	}
	settle(time.Second)
	if !x.knows()[1] {
		vs.Failf("the accepted connection is not told of news: %v", x.got)
	}
	// it leaves and may come again
	x.drop()
	settle(time.Second)
	c := mkr(7003)
	w.connect(c)
	settle(time.Second)
	if !greeted(c) || !c.alive() {
		vs.Failf("the peer cannot connect again after it has left")
	}
	d := w.remote(2)
	w.connect(d)
	settle(time.Second)
	if !greeted(d) || !d.alive() {
		vs.Failf("another peer cannot connect")
	}
	w.quiet()
}

// strangers: handshakes that must be refused, and what comes after them.
func strangers(e *mc.Enum) {
	l := mk(2, 3)
	other := theSHA
	other[0] ^= 1
	last := theSHA
	last[19] ^= 0x80
	type hs struct {
		name string
		b    []byte
		end  bool // closes the connection after it
		ok   bool
	}
	good := handshake(theSHA, peerID(1))
	odd := append([]byte(nil), good...)
	for i := 20; i < 28; i++ {
		odd[i] = 0xff
	}
	var list []hs
	list = append(list,
		hs{"good", good, false, true}, hs{"reserved bits", odd, false, true},
		hs{"other torrent", handshake(other, peerID(1)), false, false}, hs{"almost this torrent", handshake(last, peerID(1)), false, false},
		hs{"own id", handshake(theSHA, ownID), false, false},
		hs{"nothing", nil, false, false}, hs{"nothing, closed", nil, true, false},
		hs{"http", []byte("GET / HTTP/1.1\r\nHost: a\r\nX: " + string(make([]byte, 60)) + "\r\n\r\n"), false, false})
	for _, n := range []int{1, 19, 20, 27, 28, 47, 48, 67} {
		list = append(list, hs{fmt.Sprintf("%d bytes", n), good[:n], false, false}, hs{fmt.Sprintf("%d bytes, closed", n), good[:n], true, false})
	}
	for _, i := range []int{0, 1, 19} {
		c := append([]byte(nil), good...)
		c[i] ^= 1
		list = append(list, hs{fmt.Sprintf("byte %d differs", i), c, false, false})
	}
	for _, h := range list {
		for _, dialed := range []bool{false, true} {
			for times := 1; times <= 60; times += 59 {
				for trick := 0; trick < 3; trick++ {
					if trick > 0 && len(h.b) < 68 {
						continue // it would complete the handshake
					}
					if e.Stopped() {
						return
					}
					e.Casef(func() {
						e.Sched(vs.Config{}, func() { stranger(l, h.b, h.end, h.ok, dialed, times, trick) })
					}, "%s, dialed %v, %d times, trick %d", h.name, dialed, times, trick)
				}
			}
		}
	}
}

func stranger(l *layout, b []byte, end, ok, dialed bool, times, trick int) {
	w := newWorld(l, 0)
	var rs []*remote
	mkr := func(k int) *remote {
		r := w.remote(1)
		r.silent = true
		r.port = 9000 + k
		rs = append(rs, r)
		return r
	}
	if dialed {
		w.onDial = func(addr string) *remote {
			if len(rs) >= times {
				return nil
			}
			return mkr(len(rs))
		}
		for k := 0; k < times; k++ {
			w.listed = append(w.listed, peerAddr{"10.0.1.1", 9000 + k})
		}
	}
	w.up()
	if !dialed {
		for k := 0; k < times; k++ {
			w.connect(mkr(k))
		}
	}
	settle(0)
	for _, r := range rs {
		if r.closed {
			continue
		}
		if len(b) > 0 {
			r.c.Feed(b)
		}
		if ok {
			switch trick {
			case 1:
				r.choking = false
				r.sendHave(1)
			}
		} else if trick == 1 {
			r.c.Feed(frame(mInterested))
			r.c.Feed(frame(mHave, u32(1)))
			r.c.Feed(frame(mUnchoke))
		} else if trick == 2 {
			r.c.Feed(frame(mRequest, u32(0), u32(0), u32(1)))
		}
		if end {
			r.drop()
		}
	}
	settle(15 * time.Second)
	up := 0
	for _, r := range rs {
		if !ok {
			if r.alive() {
				vs.Failf("a connection without a proper handshake is still open after 15 s")
			}
			for _, m := range r.got {
				vs.Failf("a stranger is sent %v", m)
			}
		} else if r.alive() && greeted(r) {
			up++
		}
	}
	if ok && up != 1 {
		vs.Failf("of %d connections of one peer %d are up", times, up)
	}
	w.usable("after the strangers")
	w.quiet()
}

// idAnnounced: the tracker tells ids, and somebody else is there.
func idAnnounced(e *mc.Enum) {
	for _, right := range []bool{true, false} {
		for _, withID := range []bool{true, false} {
			if e.Stopped() {
				return
			}
			e.Casef(func() {
				e.Sched(vs.Config{}, func() {
					w := newWorld(mk(2, 3), 0)
					id := peerID(1)
					ent := ""
					if withID {
						ent = "7:peer id20:" + string(id[:])
					}
					w.reply = func(treq) reply {
						return reply{Body: []byte("d8:intervali1800e5:peersld2:ip8:10.0.1.1" + ent + "4:porti7001eeee")}
					}
					r := w.remote(1, 1)
					r.on = seeder
					if !right {
						r.id = peerID(2)
					}
					w.onDial = func(string) *remote { return r }
					w.up()
					settle(15 * time.Second)
					if want := right || !withID; want != w.finished() || want != r.alive() {
						vs.Failf("the tracker announced an id: %v, the peer has it: %v; connected: %v, used: %v", withID, right, r.alive(), w.finished())
					}
					w.quiet()
				})
			}, "right %v, announced %v", right, withID)
		}
	}
}

// neighbours: peers behind one address whose ids differ in one byte.
func neighbours(e *mc.Enum) {
	for k := 0; k < 20; k++ {
		for _, dialed := range []bool{false, true} {
			for _, n := range []int{2, 3} {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						w := newWorld(mk(2, 3), 0)
						var rs []*remote
						for i := 0; i < n; i++ {
							r := w.remote(1)
							r.port += i
							r.id[k] = byte(i)
							rs = append(rs, r)
							if dialed {
								w.listed = append(w.listed, r.pa())
							}
						}
						w.onDial = func(addr string) *remote {
							for _, r := range rs {
								if r.addr() == addr && r.c == nil {
									return r
								}
							}
							return nil
						}
						w.up()
						if !dialed {
							for _, r := range rs {
								w.connect(r)
							}
						}
						settle(11 * time.Second)
						for i, r := range rs {
							if !r.alive() || !greeted(r) || r.count(mUnchoke) == 0 {
								vs.Failf("of %d peers at one address whose ids differ in byte %d, number %d is not admitted and unchoked: %v", n, k, i, r.got)
							}
						}
						// one leaves, the others stay, and it may come again
						rs[0].drop()
						settle(time.Second)
						again := w.remote(1)
						again.port, again.id = 7500, rs[0].id
						w.connect(again)
						settle(time.Second)
						for _, r := range append(rs[1:], again) {
							if !r.alive() || !greeted(r) {
								vs.Failf("one of %d peers at one address whose ids differ in byte %d left, and another is gone", n, k)
							}
						}
						w.quiet()
					})
				}, "ids differ in byte %d, %d peers, dialed %v", k, n, dialed)
			}
		}
	}
}

// vain: dials that lead to nothing give their places back.
func vain(e *mc.Enum) {
	for _, n := range []int{1, 2, 49, 50, 60} {
		for way := 0; way < 6; way++ {
			for _, rounds := range []int{1, 2} {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						w := newWorld(mk(2, 3), 0)
						for k := 0; k < n; k++ {
							w.listed = append(w.listed, peerAddr{fmt.Sprintf("10.0.2.%d", k+1), 8000 + k})
						}
						w.reply = func(treq) reply { return reply{Body: peersReply(60, w.listed...)} }
						w.onDial = func(addr string) *remote {
							for k, p := range w.listed {
								if fmt.Sprintf("%s:%d", p.ip, p.port) != addr {
									continue
								}
								r := &remote{w: w, name: "dialed " + addr, id: peerID(1000 + k), ip: p.ip, port: p.port, choking: true}
								switch way {
								case 0:
									return nil
								case 1: // says nothing
									r.silent = true
								case 2: // another torrent
									r.silent = true
									var other [20]byte
									r.greet = nil
									vs.Spawn("wrong", func() { r.c.Feed(handshake(other, r.id)) })
								case 3: // leaves at once
									vs.Spawn("leaves", func() { r.drop() })
								case 4: // resets at once
									vs.Spawn("resets", func() { r.closed = true; r.c.Reset() })
								case 5: // stays for a while
									vs.Spawn("leaves", func() { vs.Sleep(5 * time.Second); r.drop() })
								}
								return r
							}
							return nil
						}
						w.up()
						settle(time.Duration(rounds)*60*time.Second - 20*time.Second)
						var in []*remote
						for k := 0; k < limit; k++ {
							r := w.remote(300 + k)
							r.ip = fmt.Sprintf("10.0.5.%d", k+1)
							in = append(in, r)
							w.connect(r)
						}
						settle(time.Second)
						up := 0
						for _, r := range in {
							if r.alive() && greeted(r) {
								up++
							}
						}
						if up != limit {
							vs.Failf("after %d dials in vain %d of %d peers are admitted", n*rounds, up, limit)
						}
						w.quiet()
					})
				}, "%d listed, way %d, %d rounds", n, way, rounds)
			}
		}
	}
}

func init() {
	mc.Register(&mc.Check{
		ID: "C27", QuickSecs: 45,
		Explain:     "numbers of peers around the limit that come, are listed, leave, come again or stay silent; every deviation of a handshake (protocol string, hash, own id, announced id, cut at every byte); the same peer arriving twice, inbound and dialed, in either order, with an id above and below the server's, under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "crowds", Enum: crowds, Weight: 4},
			{Name: "strangers", Enum: strangers, Weight: 2},
			{Name: "announced ids", Enum: idAnnounced},
			{Name: "neighbours", Enum: neighbours},
			{Name: "vain dials", Enum: vain},
			{Name: "twice", Bound: 2, BoundT: 3, Weight: 3, Body: twice},
			{Name: "twice race", Bound: 1, BoundT: 2, Race: true, Body: twice},
		},
	})
}
