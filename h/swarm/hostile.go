package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// shot is something a hostile peer may send.
type shot struct {
	name string
	raw  []byte
}

func piece(p, off int, d []byte) []byte { return frame(mPiece, u32(p), u32(off), d) }

// arsenal lists what a hostile peer may send after the handshake.
func arsenal(l *layout) []shot {
	b0 := l.blocksOf(0)[0]
	last := l.n() - 1
	huge := 1<<32 - 1
	bad := func(p int) []byte {
		d := append([]byte(nil), l.bytes(p)[:l.blocksOf(p)[0].n]...)
		d[0] ^= 1
		return d
	}
	good := l.bytes(0)[:b0.n]
	req := func(p, o, n int) []byte { return frame(mRequest, u32(p), u32(o), u32(n)) }
	spare := bits(l, l.all()...)
	for i := range spare {
		spare[i] = 0xff
	}
	return []shot{
		{"KEEPALIVE", u32(0)},
		{"CHOKE", frame(mChoke)},
		{"UNCHOKE", frame(mUnchoke)},
		{"INTERESTED", frame(mInterested)},
		{"NOT_INTERESTED", frame(mNotInterested)},
		{"HAVE 0", frame(mHave, u32(0))},
		{"HAVE n", frame(mHave, u32(l.n()))},
		{"HAVE 2^31", frame(mHave, u32(1<<31))},
		{"HAVE 2^32-1", frame(mHave, u32(huge))},
		{"BITFIELD all", frame(mBitfield, bits(l, l.all()...))},
		{"BITFIELD none", frame(mBitfield, bits(l))},
		{"BITFIELD empty", frame(mBitfield)},
		{"BITFIELD spare", frame(mBitfield, spare)},
		{"BITFIELD long", frame(mBitfield, bits(l, l.all()...), []byte{0x80})},
		{"REQUEST ok", req(0, 0, b0.n)},
		{"REQUEST last", req(last, 0, 1)},
		{"REQUEST n", req(l.n(), 0, 1)},
		{"REQUEST 2^32-1", req(huge, 0, 1)},
		{"REQUEST at 2^32-1", req(0, huge, 1)},
		{"REQUEST at the end", req(0, len(l.bytes(0)), 1)},
		{"REQUEST of 2^32-1", req(0, 0, huge)},
		{"REQUEST of 0", req(0, 0, 0)},
		{"REQUEST all huge", req(huge, huge, huge)},
		{"REQUEST across", req(0, 1, len(l.bytes(0)))},
		{"PIECE right", piece(0, 0, good)},
		{"PIECE wrong", piece(0, 0, bad(0))},
		{"PIECE wrong last", piece(last, 0, bad(last))},
		{"PIECE n", piece(l.n(), 0, good)},
		{"PIECE 2^32-1", piece(huge, 0, good)},
		{"PIECE at 2^32-1", piece(0, huge, good)},
		{"PIECE unaligned", piece(0, 1, good)},
		{"PIECE empty", piece(0, 0, nil)},
		{"PIECE short", piece(0, 0, good[:len(good)-1])},
		{"PIECE long", piece(0, 0, append(append([]byte(nil), good...), 7))},
		{"CANCEL", frame(mCancel, u32(0), u32(0), u32(b0.n))},
		{"CANCEL huge", frame(mCancel, u32(huge), u32(huge), u32(huge))},
		{"PORT", frame(9, []byte{1, 2})},
		{"type 20", frame(20, []byte{0, 'd', 'e'})},
		{"type 255", frame(255)},
		{"CHOKE with payload", frame(mChoke, []byte{1, 2, 3})},
		{"HAVE of 3 bytes", frame(mHave, []byte{0, 0, 0})},
		{"HAVE of 0 bytes", frame(mHave)},
		{"REQUEST of 11 bytes", frame(mRequest, make([]byte, 11))},
		{"REQUEST of 0 bytes", frame(mRequest)},
		{"PIECE of 7 bytes", frame(mPiece, make([]byte, 7))},
		{"PIECE of 0 bytes", frame(mPiece)},
		{"CANCEL of 5 bytes", frame(mCancel, make([]byte, 5))},
		{"half a length", []byte{0, 0}},
		{"half a message", frame(mPiece, u32(0), u32(0), good)[:11]},
		{"a length of 2^32-1", []byte{0xff, 0xff, 0xff, 0xff, 7}},
		{"a length of 2^31", []byte{0x80, 0, 0, 0, 7}},
		{"a length of 16 MB", []byte{1, 0, 0, 0, 7}},
		{"another handshake", handshake(theSHA, peerID(1))},
	}
}

const (
	endStay = iota
	endDrop
	endReset
)

var endNames = []string{"stays", "leaves", "resets"}

// attack is what a hostile peer does.
type attack struct {
	l      *layout
	pre    []int
	first  []shot // after the handshake
	answer []shot // for every REQUEST
	offers bool   // announces everything and unchokes
	delay  bool   // waits until it is unchoked, and asked
	end    int
	dialed bool
	chop   int
}

func (a attack) String() string {
	s := "a hostile peer"
	if a.dialed {
		s += " that is dialed"
	}
	if a.offers {
		s += " announces everything,"
	}
	if a.delay {
		s += " waits for UNCHOKE,"
	}
	var n []string
	for _, x := range a.first {
		n = append(n, x.name)
	}
	s += " sends [" + strings.Join(n, ", ") + "]"
	if a.answer != nil {
		n = nil
		for _, x := range a.answer {
			n = append(n, x.name)
		}
		s += ", to requests [" + strings.Join(n, ", ") + "]"
	}
	return s + " and " + endNames[a.end] + fmt.Sprintf("; %d bytes in pieces of %d, has %v", len(a.l.data), a.l.piece, a.pre)
}

// run plays the attack and checks that the server still works for honest peers.
func (a attack) run() {
	w := newWorld(a.l, a.pre...)
	setChop(a.chop)
	h := w.remote(1)
	h.greet = func(r *remote) {
		if a.offers {
			r.sendBitfield(a.l.all()...)
			r.unchoke()
		}
		if !a.delay {
			a.shoot(r)
		}
	}
	h.on = func(r *remote, x msg) {
		if x.typ == mUnchoke && a.delay {
			a.shoot(r)
		}
		if x.typ == mRequest && r.alive() {
			for _, s := range a.answer {
				r.send(s.raw)
			}
		}
	}
	if a.dialed {
		w.listed = []peerAddr{h.pa()}
		w.onDial = func(string) *remote {
			if h.c != nil {
				return nil
			}
			return h
		}
		w.up()
	} else {
		w.up()
		w.connect(h)
	}
	if a.delay {
		settle(11 * time.Second)
	} else {
		settle(0)
	}
	w.honest(a.String())
	w.quiet()
}

func (a attack) shoot(r *remote) {
	for _, s := range a.first {
		r.send(s.raw)
	}
	switch a.end {
	case endDrop:
		r.drop()
	case endReset:
		r.closed = true
		r.c.Reset()
	}
}

// honest lets a seeder and a leecher come: the seeder's pieces are fetched, and the leecher gets all of them.
func (w *world) honest(what string) {
	if w.started.Done() {
		vs.Failf("%s: Start has returned %v", what, w.err)
		return
	}
	r := w.remote(99, w.l.all()...)
	r.on = seeder
	q := w.remote(98)
	asked := map[int]bool{}
	got := map[blk]bool{}
	q.on = func(q *remote, x msg) {
		if x.typ == mPiece {
			if d := w.l.bytes(x.b.p); string(x.data) != string(d[x.b.off:x.b.off+x.b.n]) {
				vs.Failf("%s: a leecher gets wrong bytes for %v", what, x)
			}
			got[x.b] = true
		}
		if q.count(mUnchoke) == 0 {
			return
		}
		for _, i := range sorted(q.knows()) {
			if i < w.l.n() && !asked[i] {
				asked[i] = true
				for _, b := range w.l.blocksOf(i) {
					q.request(b)
				}
			}
		}
	}
	w.connect(r)
	w.connect(q)
	q.send(frame(mInterested))
	nb := 0
	for i := 0; i < w.l.n(); i++ {
		nb += len(w.l.blocksOf(i))
	}
	if !await(func() bool { return w.finished() && len(got) == nb }, 3*time.Minute) {
		vs.Failf("%s: three minutes later the target %s, a leecher has %d of %d blocks, a seeder was sent %v", what, w.complete(), len(got), nb, r.got)
		return
	}
	if !r.alive() || !q.alive() {
		vs.Failf("%s: an honest peer was disconnected", what)
	}
}

func hostileSequences(e *mc.Enum) {
	two := mk(2, 3)
	big := mk(block+1, 2*block+2)
	run := func(a attack) {
		if !e.Stopped() {
			e.Casef(func() { e.Sched(vs.Config{}, a.run) }, "%v", a)
		}
	}
	combos := func(a attack, f func(a attack)) {
		for m := 0; m < 6; m++ {
			a.end, a.dialed = m%3, m/3 == 1
			f(a)
		}
	}
	for li, l := range []*layout{two, big} {
		all := arsenal(l)
		for _, offers := range []bool{false, true} {
			for _, delay := range []bool{false, true} {
				base := attack{l: l, pre: []int{0}, offers: offers, delay: delay}
				for i, x := range all {
					base := base
					base.first = []shot{x}
					combos(base, run)
					if li == 1 && !mc.Thorough && (i%4 != 0) {
						continue
					}
					for _, y := range all {
						a := base
						a.first = []shot{x, y}
						if mc.Thorough {
							combos(a, run)
						} else {
							run(a)
						}
						if mc.Thorough && li == 0 && !offers {
							for _, z := range all {
								a.first = []shot{x, y, z}
								run(a)
							}
						}
					}
				}
			}
		}
	}
	// all sequences of answers to requests
	for _, l := range []*layout{two, big} {
		all := arsenal(l)
		for _, x := range all {
			a := attack{l: l, offers: true, answer: []shot{x}}
			run(a)
			a.dialed = true
			run(a)
			for _, y := range all {
				a.answer = []shot{x, y}
				run(a)
			}
		}
	}
}

// hostileBytes cuts and changes a stream that is mostly right.
func hostileBytes(e *mc.Enum) {
	l := mk(2, 3)
	stream := handshake(theSHA, peerID(1))
	stream = append(stream, frame(mBitfield, bits(l, 0, 1))...)
	stream = append(stream, frame(mUnchoke)...)
	stream = append(stream, frame(mInterested)...)
	stream = append(stream, frame(mRequest, u32(0), u32(0), u32(2))...)
	stream = append(stream, piece(1, 0, l.bytes(1))...)
	run := func(raw []byte, end, chop int, what string) {
		if e.Stopped() {
			return
		}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(l, 0)
				setChop(chop)
				w.up()
				h := w.remote(1)
				h.silent = true
				w.connect(h)
				h.send(raw)
				switch end {
				case endDrop:
					h.drop()
				case endReset:
					h.closed = true
					h.c.Reset()
				}
				settle(0)
				w.honest(what)
				w.quiet()
			})
		}, "%s", what)
	}
	for end := range endNames {
		for chop := 0; chop < 2; chop++ {
			for n := 0; n <= len(stream); n++ {
				run(stream[:n], end, chop, fmt.Sprintf("a peer sends %d bytes and %s, %d bytes at a time", n, endNames[end], chop))
			}
		}
		vals := []byte{0, 1, 0x7f, 0x80, 0xff}
		if mc.Thorough {
			vals = nil
			for v := 0; v < 256; v++ {
				vals = append(vals, byte(v))
			}
		}
		for n := range stream {
			for _, v := range vals {
				raw := append([]byte(nil), stream...)
				raw[n] = v
				run(raw, end, 0, fmt.Sprintf("a peer sends %x for byte %d and %s", v, n, endNames[end]))
			}
		}
	}
}

// slow: peers that do not read, in every combination of buffer sizes and moments.
func slow(e *mc.Enum) {
	for _, l := range []*layout{mk(2, 3), mk(block+1, 2*block+2)} {
		for _, n := range []int{1, 2, 5} {
			for _, buf := range []int{0, 67, 68, 73, 74, 78, 79, 95, 120, 300} {
				for mode := 0; mode < 12; mode++ {
					if e.Stopped() {
						return
					}
					if n == 5 && mode&3 == 3 {
						continue // how many may lure it together is left open
					}
					what := fmt.Sprintf("%d peers do not read more than %d bytes, mode %d, %d bytes in pieces of %d", n, buf, mode, len(l.data), l.piece)
					e.Casef(func() {
						e.Sched(vs.Config{}, func() {
							w := newWorld(l, 0)
							w.up()
							vnetBuf(buf)
							for k := 1; k <= n; k++ {
								h := w.remote(k)
								h.noRead = true
								if mode&1 > 0 {
									h.have = l.all()
								}
								h.greet = func(r *remote) {
									if r.have != nil {
										r.sendBitfield(r.have...)
									}
									if mode&2 > 0 {
										r.unchoke()
									}
									for i := 0; i < mode/4*3; i++ {
										r.request(l.blocksOf(0)[0])
									}
								}
								w.connect(h)
							}
							settle(0)
							vnetBuf(1 << 20)
							if mode&2 > 0 {
								settle(11 * time.Second)
							}
							w.honest(what)
							w.quiet()
						})
					}, "%s", what)
				}
			}
		}
	}
}

func init() {
	two := mk(2, 3)
	big := mk(block+1, 2*block+2)
	body := func(full bool) func() {
		return func() {
			l := two
			if vs.ChooseFree(mc.Pick(1, 2), "layout") == 1 {
				l = big
			}
			all := arsenal(l)
			if !mc.Thorough {
				var few []shot
				for _, x := range all {
					switch x.name {
					case "CHOKE", "HAVE 0", "HAVE n", "REQUEST ok", "PIECE right", "PIECE wrong", "half a message", "another handshake":
						few = append(few, x)
					}
				}
				all = few
			}
			a := attack{l: l, end: vs.ChooseFree(3, "end"), offers: vs.ChooseFree(2, "offers") == 1}
			a.first = []shot{all[vs.ChooseFree(len(all), "first")]}
			if a.offers && full {
				a.answer = []shot{all[vs.ChooseFree(len(all), "answer")]}
			}
			w := newWorld(l)
			w.up()
			h := w.remote(1)
			h.greet = func(r *remote) {
				if a.offers {
					r.sendBitfield(l.all()...)
					r.unchoke()
				}
				a.shoot(r)
			}
			h.on = func(r *remote, x msg) {
				if x.typ == mRequest && r.alive() {
					for _, s := range a.answer {
						r.send(s.raw)
					}
				}
			}
			w.connect(h)
			w.honest(a.String())
			w.quiet()
		}
	}
	mc.Register(&mc.Check{
		ID:          "C24",
		Explain:     "every hostile message out of 53 alone and in pairs (thorough: triples), after the handshake or once unchoked, with and without offering pieces, inbound and dialed, staying, leaving or resetting; every one and every pair as the answer to each request; every prefix of a session cut off, and every byte of it changed, read whole or byte by byte; peers that stop reading with every buffer size around the message boundaries; some of these beside an honest download under all schedules within the bound; after each an honest seeder and leecher must both be finished within three minutes",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "sequences", Enum: hostileSequences, Weight: 3},
			{Name: "bytes", Enum: hostileBytes},
			{Name: "slow readers", Enum: slow},
			{Name: "schedules", Bound: 1, BoundT: 2, Weight: 3, Body: body(false)},
			{Name: "race", Bound: 0, BoundT: 1, Race: true, Body: body(true)},
		},
	})
}
