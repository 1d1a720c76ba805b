package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// asker asks the server for blocks and keeps what it gets.
type asker struct {
	*remote
	asked  []blk
	pieces []msg
	unchk  bool
}

func (w *world) asker(k int) *asker {
	a := &asker{remote: w.remote(k)}
	a.on = func(r *remote, x msg) {
		switch x.typ {
		case mUnchoke:
			a.unchk = true
		case mChoke:
			a.unchk = false
		case mPiece:
			if !a.unchk {
				vs.Failf("a PIECE for %v is sent to a peer that is choked", x.b)
			}
			a.pieces = append(a.pieces, x)
		}
	}
	return a
}

func (a *asker) ask(b blk) {
	a.asked = append(a.asked, b)
	a.request(b)
}

// truth complains about every answer that is not the torrent's content at the range that was asked for.
func (a *asker) truth(has func(int) bool) {
	left := append([]blk(nil), a.asked...)
	for _, x := range a.pieces {
		k := -1
		for i, b := range left {
			if b == x.b {
				k = i
				break
			}
		}
		if k < 0 {
			vs.Failf("%s gets %v, it asked for %v", a.name, x, a.asked)
			continue
		}
		left = left[k+1:] // answers come in the order of the requests
		if !has(x.b.p) {
			vs.Failf("%s gets %v of a piece the server lacks", a.name, x)
			continue
		}
		c := a.w.l.bytes(x.b.p)
		if x.b.off+x.b.n > len(c) || string(c[x.b.off:x.b.off+x.b.n]) != string(x.data) {
			vs.Failf("%s gets wrong bytes in %v", a.name, x)
		}
	}
}

func (a *asker) payload() (n int) {
	for _, x := range a.pieces {
		n += len(x.data)
	}
	return
}

const ready = 11 * time.Second // after which every peer is unchoked

// requests: every request in every state of the server, and pairs of them.
func requests(e *mc.Enum) {
	type state struct {
		l    *layout
		have []int
	}
	var states []state
	for _, l := range []*layout{mk(2, 3), mk(3, 3), mk(2, 4, fileSpec{"a", 1}, fileSpec{"d/b", 0}, fileSpec{"c", 3})} {
		subsets(l.n(), func(s []int) { states = append(states, state{l, s}) })
	}
	big := []state{{mk(block+1, 2*block+1), []int{0, 1}}, {mk(block+1, 2*block+1), []int{1}}, {mk(3*block, 3*block), []int{0}}, {mk(2*block, 3*block, fileSpec{"a", block + 5}, fileSpec{"b", 2*block - 5}), []int{0, 1}}}
	values := []int{0, 1, 2, 3, 4, 1 << 31, 1<<32 - 1}
	bvalues := []int{0, 1, block - 1, block, block + 1, 2 * block, 1<<32 - 1}
	burst := false
	run := func(s state, bs ...blk) {
		if e.Stopped() {
			return
		}
		burst := burst
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(s.l, s.have...)
				w.up()
				a := w.asker(1)
				w.connect(a.remote)
				settle(ready)
				if !a.unchk {
					vs.Failf("the peer is not unchoked after %v", ready)
				}
				ok := true
				has := func(i int) bool {
					for _, j := range s.have {
						if i == j {
							return true
						}
					}
					return false
				}
				for _, b := range bs {
					a.ask(b)
					valid := has(b.p) && b.n > 0 && b.off+b.n <= len(s.l.bytes(b.p)) && b.n <= block
					if burst {
						ok = ok && valid
						continue
					}
					settle(0)
					if ok && valid {
						if n := len(a.pieces); n == 0 || a.pieces[n-1].b != b {
							vs.Failf("the request for %v of pieces %v is not answered", b, s.have)
						}
					}
					ok = ok && valid
				}
				settle(time.Second)
				a.truth(has)
				if ok && len(a.pieces) != len(bs) {
					vs.Failf("%d requests %v are answered by %v", len(bs), bs, a.got)
				}
				if ok && !a.alive() {
					vs.Failf("the connection is closed after the valid requests %v", bs)
				}
				if n := w.srv.Uploaded(); n != int64(a.payload()) {
					vs.Failf("%d bytes were uploaded, the server counts %d", a.payload(), n)
				}
				w.quiet()
			})
		}, "has %v of %v: %v, at once %v", s.have, len(s.l.data), bs, burst)
	}
	for _, s := range states {
		for _, p := range values {
			for _, off := range values {
				for _, n := range values {
					run(s, blk{p, off, n})
				}
			}
		}
		l := s.l
		for i := 0; i < l.n(); i++ {
			for j := 0; j < l.n(); j++ {
				run(s, blk{i, 0, 1}, blk{j, 0, len(l.bytes(j))}, blk{i, 0, 1})
				run(s, blk{i, 0, 1}, blk{j, 1, 1}, blk{i, 0, len(l.bytes(i))})
				run(s, blk{i, 0, 1}, blk{i, 0, 1})
				for _, burst = range []bool{true, false} {
					x, y := blk{i, 0, len(l.bytes(i))}, blk{j, 0, 1}
					run(s, x, x, y, y, x)
					run(s, y, x, y, x, x, x)
				}
			}
		}
	}
	for _, s := range big {
		for p := 0; p <= 2; p++ {
			for _, off := range bvalues {
				for _, n := range bvalues {
					run(s, blk{p, off, n})
					if mc.Thorough {
						run(s, blk{0, 0, 1}, blk{p, off, n}, blk{p, 0, block})
					}
				}
			}
		}
		var all []blk
		for _, i := range s.have {
			all = append(all, s.l.blocksOf(i)...)
		}
		run(s, all...)
		burst = true
		run(s, all...)
		run(s, append(append(all[:len(all):len(all)], all...), all...)...)
		burst = false
	}
}

// impatient peers ask before they may.
func impatient(e *mc.Enum) {
	for _, l := range []*layout{mk(2, 3), mk(block+1, 2*block+2)} {
		for _, wait := range []time.Duration{0, time.Second, 9 * time.Second} {
			for _, n := range []int{1, 2, 3} {
				for mode := 0; mode < 8; mode++ {
					if e.Stopped() {
						return
					}
					e.Casef(func() {
						e.Sched(vs.Config{}, func() {
							w := newWorld(l, 0)
							w.up()
							a := w.asker(1)
							w.connect(a.remote)
							if mode&1 > 0 {
								a.send(frame(mInterested))
							}
							settle(wait)
							for i := 0; i < n; i++ {
								a.ask(l.blocksOf(0)[0])
							}
							if mode&2 > 0 {
								settle(time.Second)
							}
							if mode&4 > 0 {
								// another one comes, and is treated properly
								b := w.asker(2)
								w.connect(b.remote)
								settle(ready)
								b.ask(l.blocksOf(0)[0])
								settle(0)
								if len(b.pieces) != 1 {
									vs.Failf("a proper peer is sent %v", b.got)
								}
							}
							settle(ready)
							a.truth(func(i int) bool { return i == 0 })
							if n := w.srv.Uploaded(); n < int64(a.payload()) {
								vs.Failf("%d bytes were uploaded, the server counts %d", a.payload(), n)
							}
							w.quiet()
						})
					}, "%d requests %v after the connection, mode %d", n, wait, mode)
				}
			}
		}
	}
}

// arrivals: peers that come at different times, some leave, some do not read.
func arrivals(e *mc.Enum) {
	l := mk(2, 3)
	times := []time.Duration{0, 3 * time.Second, 10 * time.Second, 14 * time.Second, 31 * time.Second}
	n := mc.Pick(3, 4)
	idx := make([]int, n)
	for {
		for perm := 0; perm < 6; perm++ {
			for mode := 0; mode < 6; mode++ {
				if e.Stopped() {
					return
				}
				arr := make([]time.Duration, n)
				for i, x := range idx {
					arr[i] = times[x]
				}
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						w := newWorld(l, 0)
						w.up()
						for k := 0; k < n; k++ {
							vs.Spawn("arrives", func() {
								vs.Sleep(arr[k])
								num := [][]int{{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}}[perm][k%3] + k/3*3
								a := w.asker(num)
								odd := k == mode%3 && mode > 0
								if odd && mode >= 3 {
									a.noRead = true
									a.buf = []int{75, 80, 92, 95, 99}[idx[0]]
								}
								w.connect(a.remote)
								if odd {
									if mode >= 3 {
										vs.Sleep(12 * time.Second)
										for i := 0; i < 3 && a.alive(); i++ {
											a.request(l.blocksOf(0)[0])
										}
									}
									if mode < 3 {
										vs.Sleep(9 * time.Second)
										a.drop()
									}
									return
								}
								within := 10 * time.Second
								if mode >= 3 {
									within = 20 * time.Second // for the one that does not read
								}
								if !await(func() bool { return a.unchk }, within+time.Millisecond) {
									vs.Failf("%s, who came at %v, is not unchoked within %v", a.name, arr[k], within)
								}
								a.ask(l.blocksOf(0)[0])
								vs.Sleep(time.Second)
								if len(a.pieces) != 1 {
									vs.Failf("%s, who came at %v, asks as soon as it is unchoked and is sent %v", a.name, arr[k], a.got)
								}
							})
						}
						vs.Sleep(2 * time.Minute)
						w.quiet()
					})
				}, "arrivals at %v, order %d, mode %d", arr, perm, mode)
			}
		}
		k := n - 1
		for k >= 0 && idx[k] == len(times)-1 {
			idx[k] = 0
			k--
		}
		if k < 0 {
			return
		}
		idx[k]++
	}
}

// leechers: several peers ask while the server downloads and one of them leaves.
func leechers(l *layout, early bool) {
	w := newWorld(l, 0)
	w.up()
	var as []*asker
	leaves := vs.ChooseFree(2, "one leaves") == 1
	for k := 1; k <= 2; k++ {
		a := w.asker(k)
		on := a.on
		asked := map[int]bool{}
		a.on = func(r *remote, x msg) {
			on(r, x)
			if a.unchk && (x.typ == mUnchoke || x.typ == mHave) {
				for _, i := range sorted(r.knows()) {
					if asked[i] {
						continue
					}
					asked[i] = true
					for _, b := range l.blocksOf(i) {
						a.ask(b)
					}
				}
			}
			if leaves && k == 2 && x.typ == mPiece {
				r.drop()
			}
		}
		as = append(as, a)
		w.connect(a.remote)
	}
	vs.Mute(true)
	vs.Sleep(9999 * time.Millisecond)
	vs.Mute(false)
	r := w.remote(3, l.all()...)
	r.on = seeder
	w.connect(r)
	end := time.Minute
	if early {
		end = 5 * time.Minute
	}
	await(func() bool {
		return w.finished() && len(as[0].asked) >= l.n() && len(as[0].pieces) == len(as[0].asked)
	}, end)
	settle(time.Second)
	for _, a := range as {
		a.truth(func(i int) bool { return w.has(i) })
	}
	a := as[0]
	if len(a.pieces) != len(a.asked) || len(sorted(a.knows())) != l.n() {
		vs.Failf("the leecher knows of pieces %v, asked for %v and got %d answers", sorted(a.knows()), a.asked, len(a.pieces))
	}
	up := w.srv.Uploaded()
	got := int64(a.payload() + as[1].payload())
	if up < got || !leaves && up != got {
		vs.Failf("%d bytes were uploaded, the server counts %d", got, up)
	}
	if n := w.srv.Downloaded(); n != int64(len(l.data)-len(l.bytes(0))) {
		vs.Failf("%d bytes were downloaded, the server counts %d", len(l.data)-len(l.bytes(0)), n)
	}
	vs.Mix(fmt.Sprint(up))
	w.quiet()
}

// What an asker says, beside requests.
var sayings = []string{"a", "b", "-a", "-b", "keepalive", "interested", "not interested", "have", "choke", "unchoke"}

// talk: requests among all other messages; only those that are cancelled afterwards may stay unanswered.
func talk(e *mc.Enum) {
	run := func(l *layout, seq []int, burst bool) {
		if e.Stopped() {
			return
		}
		var names []string
		for _, x := range seq {
			names = append(names, sayings[x])
		}
		two := []blk{l.blocksOf(0)[0], {1, 1, 1}}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(l, 0, 1)
				w.up()
				a := w.asker(1)
				w.connect(a.remote)
				settle(ready)
				type asking struct {
					b        blk
					optional bool
				}
				var as []asking
				for _, x := range seq {
					switch x {
					case 0, 1:
						as = append(as, asking{b: two[x]})
						a.ask(two[x])
					case 2, 3:
						b := two[x-2]
						a.send(frame(mCancel, u32(b.p), u32(b.off), u32(b.n)))
						for i := range as {
							if burst && as[i].b == b {
								as[i].optional = true
							}
						}
					case 4:
						a.send(u32(0))
					case 5:
						a.send(frame(mInterested))
					case 6:
						a.send(frame(mNotInterested))
					case 7:
						a.sendHave(0)
					case 8:
						a.choke()
					case 9:
						a.unchoke()
					}
					if !burst {
						settle(time.Second)
					}
				}
				settle(11 * time.Second)
				a.truth(func(i int) bool { return i < 2 })
				var match func(as []asking, ps []msg) bool
				match = func(as []asking, ps []msg) bool {
					if len(as) == 0 {
						return len(ps) == 0
					}
					return len(ps) > 0 && ps[0].b == as[0].b && match(as[1:], ps[1:]) || as[0].optional && match(as[1:], ps)
				}
				if !match(as, a.pieces) {
					vs.Failf("%v, at once %v: sent are %v", names, burst, a.got)
				}
				if !a.alive() {
					vs.Failf("%v, at once %v: the connection is closed", names, burst)
				}
				w.quiet()
			})
		}, "%v, at once %v", names, burst)
	}
	l := mk(2, 5)
	n := len(sayings)
	for depth := 1; depth <= mc.Pick(4, 5); depth++ {
		total := 1
		for i := 0; i < depth; i++ {
			total *= n
		}
		for c := 0; c < total; c++ {
			seq := make([]int, depth)
			asks := 0
			for i, x := depth-1, c; i >= 0; i, x = i-1, x/n {
				seq[i] = x % n
				if seq[i] < 2 {
					asks++
				}
			}
			if asks == 0 || seq[0] == 1 {
				continue
			}
			run(l, seq, false)
			run(l, seq, true)
		}
	}
	big := mk(3*block, 6*block)
	for c := 0; c < 256; c++ {
		run(big, []int{c & 3, c >> 2 & 3, c >> 4 & 3, c >> 6 & 3, 0}, true)
	}
}

// patience: a peer that says something now and then keeps being served.
func patience(e *mc.Enum) {
	l := mk(2, 3)
	for _, have := range [][]int{nil, {0, 1}} {
		for _, gap := range []time.Duration{30 * time.Second, 60 * time.Second, 100 * time.Second, 119 * time.Second} {
			for kind := 0; kind < 5; kind++ {
				for dialed := 0; dialed < 2; dialed++ {
					if e.Stopped() {
						return
					}
					e.Casef(func() {
						e.Sched(vs.Config{}, func() {
							w := newWorld(l, 0)
							if have != nil {
								w = newWorld(l)
							}
							a := w.asker(1)
							on := a.on
							a.on = func(r *remote, x msg) {
								on(r, x)
								if have != nil {
									seeder(r, x)
								}
							}
							a.have = have
							if dialed == 1 {
								w.listed = []peerAddr{a.pa()}
								w.onDial = func(string) *remote {
									if a.c != nil {
										return nil
									}
									return a.remote
								}
								w.up()
							} else {
								w.up()
								w.connect(a.remote)
							}
							settle(ready)
							for i := 1; i <= 8; i++ {
								settle(gap)
								switch kind {
								case 0:
									a.send(u32(0))
								case 1:
									a.send(frame(mInterested))
								case 2:
									a.sendHave(0)
								case 3:
									a.ask(blk{0, 0, 1})
								case 4:
									a.send(frame(mCancel, u32(0), u32(0), u32(1)))
								}
								settle(0)
							}
							n := len(a.pieces)
							a.ask(blk{0, 0, 2})
							settle(time.Second)
							if len(a.pieces) != n+1 || kind == 3 && n != 8 {
								vs.Failf("a peer that has said something each %v is sent %v", gap, a.got)
							}
							a.truth(func(i int) bool { return i < 2 })
							w.quiet()
						})
					}, "gap %v, says %d, has %v, dialed %d", gap, kind, have, dialed)
				}
			}
		}
	}
}

func init() {
	small := mk(2, 3)
	big := mk(block+2, 2*block+4)
	mc.Register(&mc.Check{
		ID: "C26", QuickSecs: 40,
		Explain:     "every request out of the boundary values of index, offset and length, in every state of the pieces and of choking; requests in every sequence with cancels and other messages, at once and one by one; peers that are patient, impatient, arrive at different times or do not read; blocks around 31- and 32-bit offsets of torrents of several GiB; two leechers with several requests each beside a download, under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "requests", Enum: requests, Weight: 2},
			{Name: "huge", Enum: huge, Weight: 0.5},
			{Name: "impatient", Enum: impatient},
			{Name: "talk", Enum: talk},
			{Name: "patience", Enum: patience},
			{Name: "arrivals", Enum: arrivals},
			{Name: "leechers", Bound: 2, BoundT: 2, Weight: 2, Body: func() { leechers(small, false) }},
			{Name: "leechers, blocks", Bound: 1, BoundT: 2, Body: func() { leechers(big, false) }},
			{Name: "leechers race", Bound: 1, BoundT: 2, Race: true, Body: func() { leechers(big, false) }},
		},
	})
}
