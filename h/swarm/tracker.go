package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/browles/drip/p2p"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vhttp"
	"github.com/browles/drip/zzv/rt/vrand"
	"github.com/browles/drip/zzv/rt/vs"
)

// ---- C32: which trackers are asked, in which order

// tierModel knows which orders the trackers of each tier may be in.
type tierModel struct{ orders [][][]string }

func permutations(s []string) [][]string {
	if len(s) == 0 {
		return [][]string{{}}
	}
	var out [][]string
	for i := range s {
		rest := append(append([]string{}, s[:i]...), s[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]string{s[i]}, p...))
		}
	}
	return out
}

func newTierModel(tiers [][]string) *tierModel {
	m := &tierModel{}
	for _, t := range tiers {
		m.orders = append(m.orders, permutations(t))
	}
	return m
}

// round takes what was asked in one announcement; "" if that can be.
func (m *tierModel) round(asked []string, fails func(url string) bool) string {
	pos := 0
	for t, orders := range m.orders {
		var next [][]string
		used, ok := 0, false
		seen := map[string]bool{}
		for _, o := range orders {
			match, hit := true, false
			k := 0
			for k < len(o) && !hit {
				if pos+k >= len(asked) || asked[pos+k] != o[k] {
					match = false
					break
				}
				hit = !fails(o[k])
				k++
			}
			if !match {
				continue
			}
			n := append([]string{}, o...)
			if hit {
				n = append([]string{o[k-1]}, append(append([]string{}, o[:k-1]...), o[k:]...)...)
			}
			used, ok = k, hit
			if key := strings.Join(n, " "); !seen[key] {
				seen[key] = true
				next = append(next, n)
			}
		}
		if len(next) == 0 {
			return fmt.Sprintf("%v were asked, where in tier %d any of %v was due next", asked, t+1, orders)
		}
		m.orders[t] = next
		pos += used
		if ok {
			break
		}
	}
	if pos < len(asked) {
		return fmt.Sprintf("%v were asked, but %v has answered", asked, asked[pos-1])
	}
	return ""
}

// kinds of failures of a tracker
const (
	kErr = iota
	kHang
	kReason
	kMalformed
	kEmpty
	kCut
	kRefusal
	kStatus
	nKinds
)

func failure(kind int) reply {
	switch kind {
	case kErr:
		return reply{Err: errors.New("connection refused")}
	case kHang:
		return reply{Hang: true}
	case kReason:
		return reply{Body: []byte("d14:failure reason4:nopee")}
	case kMalformed:
		return reply{Body: []byte("<html>"), Status: 502}
	case kEmpty:
		return reply{}
	case kRefusal:
		return reply{Body: []byte("d14:failure reason4:nope8:intervali60e5:peers6:\x0a\x00\x09\x09\x1a\xe1e")}
	case kStatus:
		return reply{Body: []byte("not found"), Status: 404}
	}
	return reply{Body: []byte("d8:intervali60e"), BodyErr: errors.New("unexpected EOF")}
}

var tierShapes = [][][]string{
	{{"a"}}, {{"a", "b"}}, {{"a"}, {"b"}}, {{"a", "b", "c"}}, {{"a"}, {"b", "c"}}, {{"a", "b"}, {"c"}}, {{"a"}, {"b"}, {"c"}}, {{}, {"a", "b"}},
	{{"a", "b"}, {"c", "d"}}, {{"a", "b", "c"}, {"d"}}, {{"a"}, {"b", "c", "d"}}, {{"a", "b", "c", "d"}},
}

func trackerURL(n string) string { return "http://" + n + ".example/announce" }

// rounds plays announcements: rounds[i] is the set of trackers that fail in the i-th.
func tierRounds(shape [][]string, rounds []int, kind int, announce bool) {
	l := mk(2, 3)
	w := newWorld(l)
	var tiers [][]string
	idx := map[string]int{}
	k := 0
	for _, t := range shape {
		var us []string
		for _, n := range t {
			us = append(us, trackerURL(n))
			idx[trackerURL(n)] = k
			k++
		}
		tiers = append(tiers, us)
	}
	if announce {
		w.mi.Announce = tiers[0][0]
	} else {
		w.mi.AnnounceList = tiers
		w.mi.Announce = "http://unlisted.example/announce"
	}
	round, served := 0, 0
	w.reply = func(t treq) reply {
		served++
		if rounds[min(round, len(rounds)-1)]>>idx[t.url]&1 == 1 {
			return failure((kind + served*(kind/nKinds)) % nKinds)
		}
		return reply{Body: peersReply(100, w.listed...)}
	}
	w.make()
	m := newTierModel(tiers)
	what := fmt.Sprintf("tiers %v, the trackers that fail: %b", shape, rounds)
	seen := 0
	check := func(name string, ev string) bool {
		var asked []string
		for _, t := range w.reqs[seen:] {
			if round == 0 && t.event() == "stopped" && rounds[0] == 1<<k-1 {
				continue // Start has failed, and stopped the server
			}
			asked = append(asked, t.url)
			if t.event() != ev {
				vs.Failf("%s: in round %d the event is %q instead of %q", what, round, t.event(), ev)
			}
		}
		seen = len(w.reqs)
		f := rounds[min(round, len(rounds)-1)]
		if s := m.round(asked, func(u string) bool { return f>>idx[u]&1 == 1 }); s != "" {
			vs.Failf("%s: in round %d (%s): %s", what, round, name, s)
			return false
		}
		return f != 1<<k-1
	}
	w.start()
	settle(99 * time.Second)
	ok := check("start", "started")
	if !ok {
		if !w.started.Done() || w.err == nil {
			vs.Failf("%s: all trackers fail, Start is %s and returns %v", what, where(w.started), w.err)
		}
		return
	}
	for round = 1; round < len(rounds)-1; round++ {
		settle(100 * time.Second)
		check("announce", "")
		if w.started.Done() {
			vs.Failf("%s: Start has returned %v", what, w.err)
			return
		}
	}
	w.stop()
	check("stop", "stopped")
	if vhttp.Bodies != vhttp.Closed {
		vs.Failf("%s: of %d bodies %d were closed", what, vhttp.Bodies, vhttp.Closed)
	}
}

func tierFailures(e *mc.Enum) {
	for _, shape := range tierShapes {
		n := 0
		for _, t := range shape {
			n += len(t)
		}
		sets := 1 << n
		depth := mc.Pick(3, 4)
		if n == 1 {
			depth++
		}
		if n == 4 {
			depth = 3
		}
		total := 1
		for i := 0; i < depth; i++ {
			total *= sets
		}
		for c := 0; c < total; c++ {
			rounds := make([]int, depth)
			for i, x := 0, c; i < depth; i, x = i+1, x/sets {
				rounds[i] = x % sets
			}
			if rounds[0] == sets-1 && c >= sets {
				continue // Start fails
			}
			kinds := []int{(c + c/sets + c/sets/sets) % (2 * nKinds)}
			if mc.Thorough && n < 4 {
				kinds = kinds[:0]
				for k := 0; k < 2*nKinds; k++ {
					kinds = append(kinds, k)
				}
			}
			for _, kind := range kinds {
				for a := 0; a < 2; a++ {
					if a == 1 && (len(shape) > 1 || n > 1) {
						continue
					}
					if e.Stopped() {
						return
					}
					e.Casef(func() { e.Sched(vs.Config{}, func() { tierRounds(shape, rounds, kind, a == 1) }) }, "tiers %v, failing %b, kind %d, announce %d", shape, rounds, kind, a)
				}
			}
		}
	}
}

// noTrackers: announce lists without any tracker.
func noTrackers(e *mc.Enum) {
	for _, shape := range [][][]string{nil, {}, {{}}, {{}, {}}, {nil, {}, nil}} {
		for _, announce := range []string{"", "http://unlisted.example/announce"} {
			e.Casef(func() {
				e.Sched(vs.Config{}, func() {
					w := newWorld(mk(2, 3))
					w.mi.AnnounceList, w.mi.Announce = shape, announce
					w.make()
					w.start()
					settle(30 * time.Second)
					what := fmt.Sprintf("announce list %q, announce %q", shape, announce)
					if announce == "" {
						if !w.started.Done() || w.err == nil {
							vs.Failf("%s: Start is %s and returns %v", what, where(w.started), w.err)
						}
						return
					}
					if w.started.Done() {
						if len(shape) == 0 {
							vs.Failf("%s: Start returns %v", what, w.err)
						}
						if w.err == nil {
							vs.Failf("%s: Start returns no error", what)
						}
						return
					}
					if len(w.reqs) != 1 || w.reqs[0].url != announce {
						vs.Failf("%s: asked are %v", what, w.reqs)
					}
					w.stop()
				})
			}, "announce list %q, announce %q", shape, announce)
		}
	}
}

// askers ask at the same time; afterwards every tier is still whole.
func askers() {
	shape := tierShapes[3+vs.ChooseFree(mc.Pick(3, 5), "shape")]
	n := 0
	for _, t := range shape {
		n += len(t)
	}
	fail := vs.ChooseFree(1<<n, "failing")
	early := vs.ChooseFree(2, "started before")
	w := newWorld(mk(2, 3))
	var tiers [][]string
	idx := map[string]int{}
	k := 0
	for _, t := range shape {
		var us []string
		for _, n := range t {
			us = append(us, trackerURL(n))
			idx[trackerURL(n)] = k
			k++
		}
		tiers = append(tiers, us)
	}
	w.mi.AnnounceList = tiers
	half := vs.ChooseFree(2, "they recover")
	quiet := false
	w.reply = func(t treq) reply {
		if quiet {
			return failure(kErr)
		}
		if fail>>idx[t.url]&1 == 1 && !(half == 1 && len(w.reqs) > n) {
			return failure(kReason)
		}
		return reply{Body: peersReply(1800)}
	}
	w.make()
	before := fmt.Sprint(w.mi.AnnounceList)
	vrand.Explore = true
	defer func() { vrand.Explore = false }()
	m := p2p.NewMultitracker(w.mi, w.srv)
	if early == 1 {
		m.Start()
	}
	var ts []*vs.Thread
	for k := 0; k < 2; k++ {
		ts = append(ts, vs.GoNamed("asker", func() { m.Announce() }))
	}
	ts = append(ts, vs.GoNamed("stopper", func() { m.Stop() }))
	vs.Join(ts...)
	quiet = true
	if now := fmt.Sprint(w.mi.AnnounceList); now != before {
		vs.Failf("the announce list of the metainfo %s has become %s", before, now)
	}
	from := len(w.reqs)
	if _, err := m.Announce(); err == nil {
		vs.Failf("all trackers fail, but Announce does not")
	}
	at, answered := from, false
	for _, t := range tiers {
		var got []string
		for range t {
			if at < len(w.reqs) {
				got = append(got, w.reqs[at].url)
				at++
			}
		}
		if len(t) > 0 && half == 0 && !answered && fail>>idx[got[0]]&1 == 1 {
			for _, u := range t {
				if fail>>idx[u]&1 == 0 {
					vs.Failf("of the tier %v, %v has answered, and %v, which has not, is asked first", t, u, got[0])
				}
			}
		}
		for _, u := range t {
			answered = answered || fail>>idx[u]&1 == 0
		}
		want := append([]string{}, t...)
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(want) != fmt.Sprint(got) {
			vs.Failf("after concurrent announcements the tier %v is asked as %v", want, got)
		}
	}
	if at != len(w.reqs) {
		vs.Failf("after concurrent announcements %d trackers are asked instead of %d", len(w.reqs)-from, at-from)
	}
}

// ---- C33: what trackers are told, when, and what they may answer

// told checks a request against what is true when nothing is going on.
func (w *world) truth(t treq, event string, up, down, left int, what string) {
	want := map[string]string{
		"info_hash": string(theSHA[:]), "peer_id": string(ownID[:]), "port": fmt.Sprint(port),
		"uploaded": fmt.Sprint(up), "downloaded": fmt.Sprint(down), "left": fmt.Sprint(left), "event": event,
	}
	for k, v := range want {
		if t.q.Get(k) != v || len(t.q[k]) > 1 {
			vs.Failf("%s: the tracker is told %s=%q instead of %q", what, k, t.q[k], v)
		}
	}
}

// accounts plays a sequence of steps with an announcement after each.
func accounts(l *layout, pre []int, steps []int) {
	what := fmt.Sprintf("steps %v, %d bytes in pieces of %d, %d files, had %v", steps, len(l.data), l.piece, len(l.info.Files), pre)
	w := newWorld(l, pre...)
	w.reply = func(treq) reply { return reply{Body: peersReply(60)} }
	up, down, left := 0, 0, len(l.data)
	have := map[int]bool{}
	for _, i := range pre {
		left -= len(l.bytes(i))
		have[i] = true
	}
	down0 := down
	w.up()
	w.truth(w.reqs[0], "started", 0, 0, left, what)
	slack := 0 // bytes of which it is left open whether they count as downloaded
	for n, step := range steps {
		missing := -1
		for i := 0; i < l.n(); i++ {
			if !have[i] {
				missing = i
				break
			}
		}
		switch step {
		case 0: // a piece is downloaded
			if missing < 0 {
				break
			}
			r := w.remote(10+n, missing)
			r.on = seeder
			w.connect(r)
			settle(time.Second)
			r.drop()
			have[missing] = true
			left -= len(l.bytes(missing))
			down += len(l.bytes(missing))
		case 1: // a peer is served every block there is, the first one twice
			r := w.remote(10 + n)
			w.connect(r)
			settle(11 * time.Second)
			for i := range l.info.Pieces {
				if !have[i] {
					continue
				}
				for k, b := range l.blocksOf(i) {
					r.request(b)
					up += b.n
					if k == 0 {
						r.request(b)
						up += b.n
					}
				}
			}
			settle(time.Second)
			r.drop()
		case 2: // a piece turns out to be wrong
			if missing < 0 {
				break
			}
			r := w.remote(10+n, missing)
			r.on = func(r *remote, x msg) {
				switch x.typ {
				case mInterested:
					r.unchoke()
				case mRequest:
					r.giveBad(x.b)
				}
			}
			w.connect(r)
			settle(time.Second)
			if r.alive() {
				r.drop()
			}
			slack += len(l.bytes(missing))
		case 3: // a peer asks for what it cannot have
			r := w.remote(10 + n)
			w.connect(r)
			settle(11 * time.Second)
			r.request(blk{l.n() - 1, len(l.bytes(l.n() - 1)), 5})
			settle(time.Second)
			if r.alive() {
				r.drop()
			}
		case 4: // a piece is fetched in two attempts
			if missing < 0 {
				break
			}
			r := w.remote(10+n, missing)
			k := 0
			r.on = func(r *remote, x msg) {
				k++
				if x.typ == mRequest && k == 3 {
					r.give(x.b)
					r.drop()
					return
				}
				seeder(r, x)
			}
			w.connect(r)
			settle(time.Second)
			if r.alive() {
				r.drop()
			}
			r = w.remote(40+n, missing)
			r.on = seeder
			w.connect(r)
			settle(11 * time.Second)
			if r.alive() {
				r.drop()
			}
			have[missing] = true
			left -= len(l.bytes(missing))
			down += len(l.bytes(missing))
			slack += block + 1
		case 5, 6, 7: // a peer stops reading, or leaves, while blocks are sent to it
			if len(have) == 0 {
				break
			}
			some := ints(have)[0]
			r := w.remote(10 + n)
			r.noRead, r.buf = true, 68+5+(l.n()+7)/8+5+13+len(l.bytes(some))+[]int{-1, 0, 15}[step-5]
			w.connect(r)
			settle(11 * time.Second)
			for range 2 {
				for _, b := range l.blocksOf(some) {
					r.request(b)
				}
			}
			settle(time.Second)
			if step == 7 && r.alive() {
				r.drop()
			}
			settle(40 * time.Second)
			if r.alive() {
				r.drop()
				settle(time.Second)
			}
			up = int(w.payload())
		}
		seen := len(w.reqs)
		settle(61 * time.Second)
		if len(w.reqs) == seen {
			vs.Failf("%s: no announcement within 61 s, the interval is 60 s", what)
			return
		}
		t := w.reqs[len(w.reqs)-1]
		d := 0
		fmt.Sscan(t.q.Get("downloaded"), &d)
		if d < down || d > down+slack {
			vs.Failf("%s: after step %d the tracker is told downloaded=%d instead of %d", what, n, d, down)
		}
		if slack > 0 {
			down, slack = d, 0
		}
		w.truth(t, "", up, down, left, fmt.Sprintf("%s, after step %d", what, n))
	}
	_ = down0
	w.quiet()
	w.truth(w.reqs[len(w.reqs)-1], "stopped", up, down, left, what)
}

func accountings(e *mc.Enum) {
	layouts := []*layout{mk(2, 5), mk(block+1, 2*block+2), mk(3, 8, fileSpec{"a", 4}, fileSpec{"b/c", 0}, fileSpec{"d", 4})}
	for _, l := range layouts {
		for _, pre := range [][]int{nil, {0}, {1}, l.all()} {
			depth := mc.Pick(3, 4)
			total := 1
			for i := 0; i < depth; i++ {
				total *= 8
			}
			for c := 0; c < total; c++ {
				steps := make([]int, depth)
				for i, x := 0, c; i < depth; i, x = i+1, x/8 {
					steps[i] = x % 8
				}
				if e.Stopped() {
					return
				}
				e.Casef(func() { e.Sched(vs.Config{}, func() { accounts(l, pre, steps) }) }, "steps %v, %d bytes in pieces of %d, had %v", steps, len(l.data), l.piece, pre)
			}
		}
	}
}

// intervals: announcements come as often as the tracker asks, never in a flood.
func intervals(e *mc.Enum) {
	for _, s := range []string{"1", "2", "60", "1800", "86400", "0", "-1", "-1800", "2147483647", "2147483648", "4294967296", "9223372036", "9223372037", "9223372036854775807", "-9223372036854775808", ""} {
		if e.Stopped() {
			return
		}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(mk(2, 3))
				w.reply = func(treq) reply {
					if s == "" {
						return reply{Body: []byte("d5:peers0:e")}
					}
					return reply{Body: []byte("d8:intervali" + s + "e5:peers0:e")}
				}
				w.up()
				settle(10*time.Minute + time.Second/2)
				n := len(w.reqs) - 1
				want := -1
				switch s {
				case "1":
					want = 600
				case "2":
					want = 300
				case "60":
					want = 10
				case "1800", "86400":
					want = 0
				}
				if want >= 0 && n != want {
					vs.Failf("the interval is %s s: %d announcements in ten minutes", s, n)
				}
				if want < 0 && n > 600 {
					vs.Failf("the interval is %q: %d announcements in ten minutes", s, n)
				}
				for i, t := range w.reqs {
					if i > 0 && want > 0 && t.at-w.reqs[i-1].at > time.Duration(600/want)*time.Second+time.Second/2 {
						vs.Failf("the interval is %s s: %v between announcements", s, t.at-w.reqs[i-1].at)
					}
				}
				w.usable("interval " + s)
				w.quiet()
			})
		}, "interval %q", s)
	}
}

// queries: the announce URL is asked as it is, with what the request adds.
func queries(e *mc.Enum) {
	for _, u := range []struct {
		url  string
		base string
		keep map[string]string
	}{
		{"http://t/announce", "http://t/announce", nil},
		{"http://t/announce?key=abc", "http://t/announce", map[string]string{"key": "abc"}},
		{"http://t/announce?passkey=a%20b&x=%26", "http://t/announce", map[string]string{"passkey": "a b", "x": "&"}},
		{"http://t/announce?", "http://t/announce", nil},
		{"http://t", "http://t", nil},
		{"http://t:8080/", "http://t:8080/", nil},
		{"https://t/an%20nounce", "https://t/an%20nounce", nil},
		{"http://t/a?x", "http://t/a", map[string]string{"x": ""}},
	} {
		if e.Stopped() {
			return
		}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				w := newWorld(mk(2, 3))
				w.mi.Announce = u.url
				w.reply = func(treq) reply { return reply{Body: peersReply(60)} }
				w.make()
				w.up()
				settle(61 * time.Second)
				w.quiet()
				if len(w.reqs) != 3 {
					vs.Failf("%s: %d requests instead of 3", u.url, len(w.reqs))
					return
				}
				for i, ev := range []string{"started", "", "stopped"} {
					t := w.reqs[i]
					w.truth(t, ev, 0, 0, 3, u.url)
					if strings.TrimSuffix(t.url, "?") != u.base {
						vs.Failf("%s: %s is asked", u.url, t.url)
					}
					for k, v := range u.keep {
						if len(t.q[k]) != 1 || t.q[k][0] != v {
							vs.Failf("%s: %s is asked with %s=%q", u.url, t.url, k, t.q[k])
						}
					}
				}
			})
		}, "%s", u.url)
	}
}

var replies = []string{
	"", "d", "de", "le", "i1e", "0:", "e", "<html></html>", "d8:intervali60ee", "d8:intervali60e5:peers", "d8:intervali60e5:peers0:e", "d8:intervali60e5:peers1:xe",
	"d8:intervali60e5:peers5:abcdee", "d8:intervali60e5:peers7:abcdefge", "d8:intervali60e5:peersi7ee", "d8:intervali60e5:peersdee", "d8:intervali60e5:peerslee",
	"d8:intervali60e5:peersli1eee", "d8:intervali60e5:peersl1:xee", "d8:intervali60e5:peerslleee", "d8:intervali60e5:peersldeee",
	"d8:intervali60e5:peersld2:ip8:10.0.9.9eee", "d8:intervali60e5:peersld4:porti1eeee", "d8:intervali60e5:peersld2:ipi1e4:porti1eeee",
	"d8:intervali60e5:peersld2:ip8:10.0.9.94:port1:1eee", "d8:intervali60e5:peersld2:ip8:10.0.9.97:peer idi1e4:porti1eeee",
	"d8:intervali60e5:peersld2:ip8:10.0.9.97:peer id3:abc4:porti1eeee", "d8:intervali60e5:peersld2:ip8:10.0.9.97:peer id40:abcdefghijabcdefghijabcdefghijabcdefghij4:porti1eeee",
	"d8:intervali60e5:peersld2:ip8:10.0.9.94:porti0eeee", "d8:intervali60e5:peersld2:ip8:10.0.9.94:porti-1eeee", "d8:intervali60e5:peersld2:ip8:10.0.9.94:porti65536eeee",
	"d8:intervali60e5:peersld2:ip8:10.0.9.94:porti99999999999999999999eeee", "d8:intervali60e5:peersld2:ip0:4:porti1eeee", "d8:intervali60e5:peersld2:ip9:localhost4:porti1eeee",
	"d8:intervali60e5:peersld2:ip3:::14:porti1eeee", "d8:intervali60e5:peersld2:ip5:::1%a4:porti1eeee", "d14:failure reason0:e", "d14:failure reasoni1ee", "d14:failure reason1:xe",
	"d8:interval1:xe", "d8:intervali99999999999999999999ee", "d8:intervali60e5:peers6:\x00\x00\x00\x00\x00\x00e", "d8:intervali60e5:peers6:\xff\xff\xff\xff\xff\xffe",
	"d15:warning reason1:x8:intervali60e5:peers0:e", "d8:intervali60e5:peers0:ex", "d5:peers0:8:intervali60ee", "d8:intervali60e5:peers99999999999999999999:e",
}

// answers: whatever trackers answer, the server goes on, or Start returns an error if it was the first.
func answers(e *mc.Enum) {
	for _, a := range replies {
		for _, b := range append([]string{"ok"}, replies...) {
			if b != "ok" && a != "d8:intervali60e5:peers0:e" && !mc.Thorough {
				continue
			}
			if e.Stopped() {
				return
			}
			e.Casef(func() {
				e.Sched(vs.Config{}, func() {
					w := newWorld(mk(2, 3))
					w.onDial = func(addr string) *remote {
						r := w.remote(77)
						r.silent = true
						return r
					}
					what := fmt.Sprintf("a tracker answers %q, then %q", a, b)
					w.reply = func(treq) reply {
						if len(w.reqs) == 1 {
							return reply{Body: []byte(a)}
						}
						if b == "ok" {
							return reply{Body: peersReply(60)}
						}
						return reply{Body: []byte(b)}
					}
					w.start()
					settle(20 * time.Second)
					if w.started.Done() {
						if w.err == nil {
							vs.Failf("%s: Start returns nil", what)
						}
						if strings.HasPrefix(a, "d8:intervali60e5:peers0:e") && len(a) == 25 {
							vs.Failf("%s: Start returns %v", what, w.err)
						}
						w.ended(what)
					} else {
						if a == "" || a == "d" || a == "<html></html>" || a == "d14:failure reason1:xe" {
							vs.Failf("%s: Start goes on", what)
						}
						settle(50 * time.Second)
						if w.started.Done() {
							vs.Failf("%s: Start returns %v", what, w.err)
							return
						}
						w.usable(what)
						w.quiet()
					}
					if vhttp.Bodies != vhttp.Closed {
						vs.Failf("%s: of %d bodies %d were closed", what, vhttp.Bodies, vhttp.Closed)
					}
				})
			}, "%q then %q", a, b)
		}
	}
	// trackers that fail or hang for a while
	for kind := 0; kind < nKinds; kind++ {
		for from := 1; from <= 3; from++ {
			for n := 1; n <= 3; n++ {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						what := fmt.Sprintf("requests %d to %d fail in way %d", from+1, from+n, kind)
						w := newWorld(mk(2, 3))
						w.reply = func(treq) reply {
							if k := len(w.reqs) - 1; k >= from && k < from+n {
								return failure(kind)
							}
							return reply{Body: peersReply(60)}
						}
						w.up()
						settle(time.Duration(60*from+1) * time.Second)
						// while it fails
						at := vs.Elapsed()
						w.usable(what)
						if d := vs.Elapsed() - at; d > 5*time.Second {
							vs.Failf("%s: a peer waits %v for the server", what, d)
						}
						settle(time.Duration(60*n+59) * time.Second)
						if w.started.Done() {
							vs.Failf("%s: Start returns %v", what, w.err)
							return
						}
						if len(w.reqs) < from+n+1 {
							vs.Failf("%s: there are no more than %d requests", what, len(w.reqs))
						}
						w.quiet()
						if vhttp.Bodies != vhttp.Closed {
							vs.Failf("%s: of %d bodies %d were closed", what, vhttp.Bodies, vhttp.Closed)
						}
					})
				}, "kind %d from %d, %d times", kind, from, n)
			}
		}
	}
}

// racingAccounts: announcements while blocks come and go.
func racingAccounts() {
	l := mk(2, 3)
	w := newWorld(l, 0)
	w.reply = func(treq) reply { return reply{Body: peersReply(11)} }
	w.up()
	r := w.remote(1, 1)
	r.on = seeder
	q := w.remote(2)
	q.on = func(q *remote, x msg) {
		if x.typ == mUnchoke {
			q.request(blk{0, 0, 2})
			q.request(blk{0, 0, 1})
		}
	}
	w.connect(q)
	if vs.ChooseFree(2, "the seeder") == 1 {
		settle(11 * time.Second)
	}
	w.connect(r)
	await(func() bool { return w.finished() && q.count(mPiece) == 2 }, time.Minute)
	settle(12 * time.Second)
	t := w.reqs[len(w.reqs)-1]
	w.truth(t, "", 3, 1, 0, "at the same time")
	last := []int{0, 0, 1}
	for _, t := range w.reqs {
		var x [3]int
		fmt.Sscan(t.q.Get("uploaded"), &x[0])
		fmt.Sscan(t.q.Get("downloaded"), &x[1])
		fmt.Sscan(t.q.Get("left"), &x[2])
		if x[0] < last[0] || x[1] < last[1] || x[2] > last[2] || x[2] < 0 {
			vs.Failf("the tracker is told up, down, left %v after %v", x, last)
		}
		last = x[:]
	}
	w.quiet()
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C32",
		Explain:     "twelve shapes of tiers with up to four trackers, every set of failing trackers in each of three (thorough: four) announcements, six kinds of failure, against a model that keeps every order the unknown shuffle may have had; two announcements and a stop at the same time under all schedules within the bound, after which every tier must be whole",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "failures", Enum: tierFailures, Weight: 2},
			{Name: "no trackers", Enum: noTrackers},
			{Name: "concurrent", Bound: 2, BoundT: 3, Weight: 2, Body: askers},
			{Name: "concurrent race", Bound: 1, BoundT: 2, Race: true, Body: askers},
		},
	})
	mc.Register(&mc.Check{
		ID:          "C33",
		Explain:     "every sequence of three (thorough: four) out of: a piece arrives, a peer is served, a piece fails, an invalid request, a piece in two attempts, each followed by an announcement, from four initial states of three layouts; 16 intervals; 8 announce URLs; 46 answers at the start and later; six kinds of failure at each position for each length; torrents of several GiB of which nothing, all, or all but a piece is there; announcements beside transfers under all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "accounts", Enum: accountings, Weight: 2},
			{Name: "intervals", Enum: intervals},
			{Name: "queries", Enum: queries},
			{Name: "answers", Enum: answers},
			{Name: "huge", Enum: huge, Weight: 0.3},
			{Name: "failed start", Bound: 1, BoundT: 2, Body: func() { failedStart(2, 2, 4) }},
			{Name: "at the same time", Bound: 2, BoundT: 3, Weight: 2, Body: racingAccounts},
			{Name: "race", Bound: 1, BoundT: 1, Race: true, Body: racingAccounts},
		},
	})
}
