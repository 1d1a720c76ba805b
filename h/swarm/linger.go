package main

import (
	"fmt"
	"net"
	"reflect"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vcontext"
	"github.com/browles/drip/zzv/rt/vs"
)

// leaving: at the end of an execution all peers leave, and what is left of them
// in the server is looked at.
var leaving bool

// running lists the threads of the server.
func running() (out []*vs.Thread) {
	for _, t := range vs.Threads() {
		if n := t.Name; (n == "go" || n == "errgroup" || n == "AfterFunc") && !t.Done() {
			out = append(out, t)
		}
	}
	return
}

// deserted: all peers leave, and after a while the server is as after its start.
func (w *world) deserted() {
	w.ending, w.away = true, true
	w.onDial, w.net.DialHang = nil, nil
	w.reply = func(treq) reply { return reply{Body: peersReply(1800)} }
	go1 := func() {
		for _, r := range w.remotes {
			if r.c != nil && !r.c.Gone() && !r.c.Closed() {
				r.drop()
			}
		}
	}
	for range 3 {
		go1()
		vs.Sleep(time.Minute)
		vs.Quiesce()
	}
	vs.Sleep(time.Millisecond) // beside anything that happens in whole seconds
	vs.Quiesce()
	if w.started.Done() {
		vs.Failf("when all peers have left, Start returns %v", w.err)
		return
	}
	left, before := w.census()
	for i, c := range w.net.Conns {
		if i%2 == 0 && !c.Closed() && !c.Reset0() {
			vs.Failf("three minutes after all peers have left the connection with %v is open", c.RemoteAddr())
		}
	}
	// All places are free.
	if !w.filled(50, "when all peers have left") {
		return
	}
	vs.Sleep(time.Minute + time.Millisecond)
	vs.Quiesce()
	again, after := w.census()
	// Another run, which only those fifty came to.
	w.stop()
	w.over = false
	w.make()
	w.start()
	vs.Quiesce()
	if !w.filled(3, "after another start") {
		return
	}
	vs.Sleep(3 * time.Minute)
	vs.Sleep(time.Millisecond)
	vs.Quiesce()
	fresh, _ := w.census()
	if left != fresh {
		vs.Failf("when all peers have left for three minutes there are %v, after another start %v", left, fresh)
	}
	if again != fresh {
		vs.Failf("when fifty more peers came and went there are %v, after another start %v", again, fresh)
	}
	if before != after {
		vs.Failf("before fifty peers came and went there are %d entries in the maps and lists of the server, %d after", before, after)
	}
}

// filled: n peers come, are taken, and go.
func (w *world) filled(n int, when string) bool {
	var rs []*remote
	for k := 0; k < n; k++ {
		r := &remote{w: w, name: "newcomer", id: peerID(900 + k), ip: fmt.Sprintf("10.9.%d.%d", k/100, k%100+1), port: 7000, choking: true, have: []int{}}
		if !w.connect(r) {
			vs.Failf("%s, newcomer %d cannot connect", when, k+1)
			return false
		}
		rs = append(rs, r)
	}
	vs.Quiesce()
	for k, r := range rs {
		if !r.alive() || !greeted(r) {
			vs.Failf("%s, newcomer %d of %d is not taken", when, k+1, n)
			return false
		}
	}
	for _, r := range rs {
		r.drop()
	}
	vs.Sleep(time.Second)
	vs.Quiesce()
	return true
}

// Ways for a peer to give up a download.
const (
	gDrop    = iota // leaves
	gReset          // resets the connection
	gChoke          // chokes, and leaves a second later
	gStall          // answers no more
	gBad            // sends a wrong block
	gWithout        // leaves while a block is on the way
	nGive
)

var gNames = []string{"leaves", "resets", "chokes", "stalls", "lies", "leaves with half a block"}

// abandoned: peers give some blocks and then give up, so that the download stays
// unfinished when all are gone.
func abandoned(e *mc.Enum) {
	type quitter struct {
		have   []int
		blocks int // after which it gives up
		way    int
		dialed bool
	}
	run := func(l *layout, qs ...quitter) {
		if e.Stopped() {
			return
		}
		what := plan{l: l}.String()
		for i, q := range qs {
			what += fmt.Sprintf("; peer %d has %v and %s after %d blocks, dialed %v", i+1, q.have, gNames[q.way], q.blocks, q.dialed)
		}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(l, 0)
				var rs []*remote
				for i, q := range qs {
					r := w.remote(i+1, q.have...)
					n := 0
					r.on = func(r *remote, m msg) {
						if m.typ != mRequest || n < q.blocks {
							if m.typ == mRequest {
								n++
							}
							seeder(r, m)
							if q.blocks > 0 || m.typ != mInterested {
								return
							}
						}
						switch q.way {
						case gDrop:
							r.drop()
						case gReset:
							r.c.Reset()
						case gChoke:
							if !r.choking {
								r.choke()
								vs.Spawn("leaves", func() {
									vs.Sleep(time.Second)
									if r.alive() {
										r.drop()
									}
								})
							}
						case gBad:
							if m.typ == mRequest {
								r.giveBad(m.b)
							}
						case gWithout:
							if m.typ == mRequest {
								b := frame(mPiece, u32(m.b.p), u32(m.b.off), l.bytes(m.b.p)[m.b.off:m.b.off+m.b.n])
								r.send(b[:len(b)-1])
								r.drop()
							}
						}
					}
					if q.dialed {
						w.listed = append(w.listed, r.pa())
					}
					rs = append(rs, r)
				}
				w.onDial = func(addr string) *remote {
					for _, r := range rs {
						if r.addr() == addr && r.c == nil {
							return r
						}
					}
					return nil
				}
				w.up()
				for i, r := range rs {
					if !qs[i].dialed {
						w.connect(r)
					}
				}
				settle(3 * time.Second)
				w.quiet()
			})
		}, "%s", what)
	}
	for _, l := range []*layout{mk(2, 5), mk(block+1, 2*block+2)} {
		for way := 0; way < nGive; way++ {
			for blocks := 0; blocks <= 3; blocks++ {
				for have := 1; have < 1<<l.n(); have++ {
					var h []int
					for i := range l.n() {
						if have>>i&1 > 0 {
							h = append(h, i)
						}
					}
					for _, dialed := range []bool{false, true} {
						q := quitter{h, blocks, way, dialed}
						run(l, q)
						for other := 0; other < nGive; other++ {
							if mc.Thorough || (way+other)%3 == 0 {
								run(l, q, quitter{[]int{0, 1}, 1, other, false})
							}
						}
					}
				}
			}
		}
	}
}

// vanish: peers whose machine is gone, or who say nothing more for another
// reason: they do not close their connection, after every byte of a session. What
// is about peers that owe the server a block is left open, as it asks again.
func vanish(e *mc.Enum) {
	l := mk(2, 3)
	for has := 0; has < 2; has++ {
		stream := handshake(theSHA, peerID(1))
		if has == 1 {
			stream = append(stream, frame(mBitfield, bits(l, 0, 1))...)
			stream = append(stream, frame(mUnchoke)...)
		} else {
			stream = append(stream, frame(mBitfield, bits(l, 1))...)
			stream = append(stream, frame(mHave, u32(0))...)
		}
		stream = append(stream, frame(mInterested)...)
		stream = append(stream, frame(mRequest, u32(0), u32(0), u32(2))...)
		stream = append(stream, u32(0)...)
		stream = append(stream, frame(mNotInterested)...)
		stream = append(stream, frame(mInterested)...)
		for n := 0; n <= len(stream); n++ {
			for dialed := 0; dialed < 2; dialed++ {
				for others := 0; others < 3; others++ {
					if e.Stopped() {
						return
					}
					e.Casef(func() {
						e.Sched(vs.Config{}, func() {
							w := newWorld(l, 0)
							if has == 1 {
								w = newWorld(l, 0, 1)
							}
							h := w.remote(1)
							h.silent = true
							if dialed == 1 {
								w.listed = []peerAddr{h.pa()}
								w.onDial = func(string) *remote {
									if h.c != nil {
										return nil
									}
									return h
								}
							}
							w.up()
							if dialed == 0 {
								w.connect(h)
							}
							settle(time.Second)
							if h.c == nil {
								vs.Failf("a listed peer is not dialed")
								return
							}
							h.send(stream[:n])
							// Meanwhile others talk.
							for k := 0; k < 4; k++ {
								settle(time.Minute)
								if others == 1 {
									o := w.remote(2 + k)
									o.have = []int{k & 1}
									w.connect(o)
									if k&1 > 0 {
										settle(time.Second)
										o.drop()
									}
								} else if others == 2 && k == 0 {
									w.stayOn(w.remote(2, 0, 1))
								}
							}
							if h.alive() {
								vs.Failf("a peer that has said nothing for four minutes is still there")
							}
							w.quiet()
						})
					}, "server has all: %v; a peer, dialed %d, sends %d bytes and then nothing; others %d", has == 1, dialed, n, others)
				}
			}
		}
	}
}

// stayOn: a peer that gives what it is asked for and says something each minute.
func (w *world) stayOn(r *remote) {
	r.on = seeder
	w.connect(r)
	vs.Spawn("stays on", func() {
		for range 5 {
			vs.Sleep(50 * time.Second)
			if !r.alive() {
				return
			}
			r.send(u32(0))
		}
	})
}

// census counts the threads of the server.
// remains is what there is for peers.
type remains struct{ goroutines, contexts, peers int }

func (r remains) String() string {
	return fmt.Sprintf("%d goroutines, %d contexts and %d peers or queued elements", r.goroutines, r.contexts, r.peers)
}

func (w *world) census() (remains, int) {
	peers, entries := keeps(w.srv)
	return remains{len(running()), vcontext.Live(), peers}, entries
}

// keeps counts what the server has in its maps, lists and channels: the peers
// and what is in channels, and all entries.
func keeps(srv any) (peers, entries int) {
	pkg := reflect.TypeOf(srv).Elem().PkgPath()
	seen := map[uintptr]bool{reflect.ValueOf(srv).Pointer(): true}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			t := v.Type().Elem()
			if v.IsNil() || t.Kind() != reflect.Struct || t.PkgPath() != pkg {
				return
			}
			if hasConn(t) {
				peers++
			} else if !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Struct:
			if v.Type().PkgPath() == pkg {
				for i := range v.NumField() {
					walk(v.Field(i))
				}
			}
		case reflect.Map:
			entries += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Slice, reflect.Array:
			if v.Type().Elem().Kind() != reflect.Uint8 {
				entries += v.Len()
				for i := range v.Len() {
					walk(v.Index(i))
				}
			}
		case reflect.Chan:
			peers += v.Len()
		}
	}
	walk(reflect.ValueOf(srv).Elem())
	return
}

// hasConn: a struct with a connection stands for a peer.
func hasConn(t reflect.Type) bool {
	for i := range t.NumField() {
		if f := t.Field(i).Type; f.Implements(connType) {
			return true
		}
	}
	return false
}

var connType = reflect.TypeFor[net.Conn]()

func init() {
	all := func(f func(*mc.Enum)) func(*mc.Enum) {
		return func(e *mc.Enum) {
			leaving = true
			defer func() { leaving = false }()
			f(e)
		}
	}
	play := func(early bool, ps ...plan) mc.Unit {
		return mc.Unit{Cfg: vs.Config{EarlyTimers: early}, Body: func() {
			leaving = true
			defer func() { leaving = false }()
			p := ps[vs.ChooseFree(len(ps), "plan")]
			p.persist = early
			download(p)
		}}
	}
	two := mk(2, 3)
	sched := play(false,
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, leech: true}, {have: []int{0, 1}, dialed: true}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fDrop, at: 1}, {have: []int{1}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fStall, at: 1}, {have: []int{0, 1}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fBad, at: 1}, {have: []int{0, 1}}}},
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fRest, at: 2}, {have: []int{0, 1}, leaves: time.Second}}},
	)
	sched.Name, sched.Bound, sched.BoundT, sched.Weight = "schedules", 1, 2, 2
	early := play(true,
		plan{l: two, peers: []peerPlan{{have: []int{0, 1}, fault: fLose, at: 1}, {have: []int{0, 1}, leech: true}}},
	)
	early.Name, early.Bound, early.BoundT = "timers", 1, 2
	mc.Register(&mc.Check{
		ID: "C40", QuickSecs: 100,
		Explain:     "what hostile peers send, alone, in pairs and cut short, faults of peers in downloads, downloads that all peers abandon in six ways, peers that fall silent after every byte of a session, strangers, slow and impatient peers, listed peers of every kind, some of it under all schedules and timer orders within the bound; at the end all peers leave, and three minutes later goroutines, contexts, connections, peers and queued elements the server holds and free places are as in another run, and fifty more peers that come and go leave its maps and lists as long as they were",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; time passes only when nothing can run, except where timers are explored; of the memory of the server only the numbers of peers and entries are looked at"},
		Units: []mc.Unit{
			{Name: "hostile", Enum: all(hostileSequences), Weight: 2.5},
			{Name: "cut short", Enum: all(hostileBytes)},
			{Name: "slow readers", Enum: all(slow)},
			{Name: "faults", Enum: all(faults), Weight: 2},
			{Name: "abandoned", Enum: all(abandoned)},
			{Name: "vanish", Enum: all(vanish)},
			{Name: "strangers", Enum: all(strangers)},
			{Name: "impatient", Enum: all(impatient)},
			{Name: "patience", Enum: all(patience)},
			{Name: "in vain", Enum: all(vain)},
			{Name: "listed", Enum: all(listEnum), Weight: 2},
			sched, early,
		},
	})
}
