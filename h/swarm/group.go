package main

import (
	"crypto/sha1"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/pex"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vhttp"
	"github.com/browles/drip/zzv/rt/vnet"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

// Several servers and a tracker, all of them the real ones.

func init() {
	pick := func(early bool, ps ...band) mc.Unit {
		return mc.Unit{Cfg: vs.Config{EarlyTimers: early}, Body: func() { c := ps[vs.ChooseFree(len(ps), "band")]; c.early = early; c.play() }}
	}
	two, three := mk(2, 3), mk(2, 5)
	sched := pick(false,
		band{l: two, has: [][]int{{0, 1}, {}}},
		band{l: two, has: [][]int{{0}, {1}}},
		band{l: three, has: [][]int{{0, 1, 2}, {1}, {}}},
		band{l: two, has: [][]int{{0}, {1}}, resets: []reset{{35 * time.Second, 0}}},
	)
	crossing := pick(false,
		band{l: two, has: [][]int{{0, 1}, {}}, resets: []reset{{1, 0}}, calm: 29 * time.Second},
		band{l: two, has: [][]int{{}, {0, 1}}, resets: []reset{{1, 0}}, calm: 29 * time.Second},
		band{l: two, has: [][]int{{0, 1}, {}, {}}, resets: []reset{{1, 0}, {1, 0}}, calm: 29 * time.Second},
	)
	crossing.Name, crossing.Bound, crossing.BoundT, crossing.Weight = "crossing dials", 1, 2, 2
	sched.Name, sched.Bound, sched.BoundT, sched.Weight = "schedules", 1, 2, 2
	early := pick(true,
		band{l: two, has: [][]int{{0, 1}, {}}},
		band{l: two, has: [][]int{{0}, {1}}},
	)
	early.Name, early.Bound, early.BoundT = "timers", 1, 2
	race := pick(false,
		band{l: two, has: [][]int{{0}, {1}}},
		band{l: three, has: [][]int{{0}, {1}, {2}}},
	)
	race.Name, race.Bound, race.BoundT, race.Race, race.Weight = "race", 1, 1, true, 2
	race2 := pick(false,
		band{l: two, l2: second(two), has: [][]int{{0}, {1}, {1}, {0}}, shared: true, sameID: true},
	)
	race2.Name, race2.Bound, race2.BoundT, race2.Race = "race, two torrents", 1, 1, true
	mc.Register(&mc.Check{
		ID:          "C38",
		QuickSecs:   60,
		Explain:     "two to four servers of the implementation and its HTTP tracker in one virtual world: every distribution of up to three pieces in which each piece is somewhere, with servers that start later, in all orders, connections that are reset at every second, servers that are stopped and come back (with what they have, with another id, or without anything), ports that cannot be dialed, a tracker that is away; some of it under all schedules and orders of timers within the bound; everybody gets everything exactly, and stopped servers are gone from the tracker",
		Assumptions: []string{"network, clock, files and randomness are virtual; HTTP requests of the servers are handed to the tracker's handler directly; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "groups", Enum: groups, Weight: 2},
			{Name: "turbulence", Enum: turbulence, Weight: 2},
			{Name: "two torrents", Enum: twoTorrents},
			sched, crossing, early, race, race2,
		},
	})
}

// reset is a connection that breaks.
type reset struct {
	at time.Duration
	k  int // of those open then
}

// leave is a server that stops, and may come back.
type leave struct {
	at    time.Duration
	who   int
	back  time.Duration // so long later; 0: not at all
	newID bool
	empty bool // without its files
}

type band struct {
	l      *layout
	has    [][]int
	later  []time.Duration
	resets []reset
	leaves []leave
	deaf   []int // servers whose port cannot be dialed
	away   [2]time.Duration
	early  bool
	calm   time.Duration // no decisions until then

	l2     *layout // another torrent, which every second server has
	shared bool    // servers 0 and 1, 2 and 3 share their directories
	sameID bool    // and their ids
}

// of is the torrent of a server.
func (c band) of(k int) *layout {
	if c.l2 != nil && k%2 == 1 {
		return c.l2
	}
	return c.l
}

// second is another torrent, with its own content, as like the first as can be.
func second(l *layout) *layout {
	m, i := *l, *l.info
	m.data = append([]byte{}, l.data...)
	for k := range m.data {
		m.data[k] ^= 0x80
	}
	i.Pieces = nil
	for k := 0; k < l.n(); k++ {
		i.Pieces = append(i.Pieces, sha1.Sum(m.bytes(k)))
	}
	i.Name = "out2"
	i.SHA1[19] ^= 1
	m.info = &i
	return &m
}

func (c band) String() string {
	s := fmt.Sprintf("%d bytes in pieces of %d; servers have %v", len(c.l.data), c.l.piece, c.has)
	if c.later != nil {
		s += fmt.Sprintf(", start after %v", c.later)
	}
	for _, r := range c.resets {
		s += fmt.Sprintf("; connection %d is reset after %v", r.k, r.at)
	}
	for _, x := range c.leaves {
		s += fmt.Sprintf("; server %d is stopped after %v", x.who, x.at)
		if x.back > 0 {
			s += fmt.Sprintf(" for %v", x.back)
		}
		if x.newID {
			s += ", comes with another id"
		}
		if x.empty {
			s += ", without files"
		}
	}
	if c.l2 != nil {
		s += fmt.Sprintf("; every second server has another torrent, shared=%v sameID=%v", c.shared, c.sameID)
	}
	if c.deaf != nil {
		s += fmt.Sprintf("; %v cannot be dialed", c.deaf)
	}
	if c.away[1] > 0 {
		s += fmt.Sprintf("; the tracker is away %v", c.away)
	}
	return s
}

// mate is a server of a band.
type mate struct {
	w       *troop
	k       int
	l       *layout
	id      [20]byte
	st      *storage.Storage
	srv     *p2p.Server
	started *vs.Thread
	err     error
	had     int // bytes when it was started
	life    int
}

type troop struct {
	c     band
	l     *layout
	fs    *vos.FS
	net   *vnet.Net
	tr    *pex.HTTP
	mates []*mate
	own   map[*vs.Thread]bool // threads that are not the servers'
	clean bool                // nothing disturbs
	asked int
}

func (m *mate) dir() string {
	if m.w.c.shared {
		return fmt.Sprintf("/data/%d", m.k/2)
	}
	return fmt.Sprintf("/data/%d", m.k)
}
func (m *mate) tdir() string { return m.dir() + "/t" }
func (m *mate) wdir() string { return m.dir() + "/w" }
func (m *mate) port() int    { return 21500 + m.k }

// page takes a response of the tracker.
type page struct {
	h    http.Header
	code int
	body []byte
}

func (p *page) Header() http.Header {
	if p.h == nil {
		p.h = http.Header{}
	}
	return p.h
}
func (p *page) WriteHeader(c int) {
	if p.code == 0 {
		p.code = c
	}
}
func (p *page) Write(b []byte) (int, error) {
	p.WriteHeader(200)
	p.body = append(p.body, b...)
	return len(b), nil
}

// muster makes the world of a band.
func muster(c band) *troop {
	w := &troop{c: c, l: c.l, own: map[*vs.Thread]bool{}}
	vhttp.Reset()
	vnet.BufSize, vnet.Chop, vnet.Keep = 1<<20, 0, false
	w.net = vnet.Reset()
	w.net.Loop = true
	w.net.Refuse = func(port int) bool {
		for _, k := range c.deaf {
			if port == w.mates[k].port() {
				return true
			}
		}
		return false
	}
	w.fs = vos.Reset()
	w.fs.Quiet = true
	vs.Mute(true)
	infos := []*metainfo.Info{c.l.info}
	if c.l2 != nil {
		infos = append(infos, c.l2.info)
	}
	w.tr = pex.NewHTTP(infos)
	vs.Quiesce()
	for k, have := range c.has {
		l := c.of(k)
		m := &mate{w: w, k: k, l: l, id: peerID(k)}
		if c.sameID {
			m.id = peerID(k / 2)
		}
		w.mates = append(w.mates, m)
		w.fs.Mkdir(m.tdir())
		w.fs.Mkdir(m.wdir())
		if len(have) > 0 {
			st := storage.New(m.tdir(), m.wdir(), l.info)
			if err := st.Load(); err != nil {
				vs.Failf("Load: %v", err)
			}
			for _, i := range have {
				for _, b := range l.blocksOf(i) {
					if err := st.PutBlock(i, b.off, append([]byte(nil), l.bytes(i)[b.off:b.off+b.n]...)); err != nil {
						vs.Failf("PutBlock: %v", err)
					}
				}
			}
		}
	}
	vs.Quiesce()
	vs.Mute(false)
	for _, t := range vs.Threads() {
		w.own[t] = true
	}
	vhttp.OnRequest = func(req *http.Request) vhttp.Reply {
		if t := vs.Elapsed(); c.away[1] > 0 && t >= c.away[0] && t < c.away[1] {
			return vhttp.Reply{Hang: true}
		}
		w.asked++
		r := &page{}
		u := *req.URL
		w.tr.ServeHTTP(r, &http.Request{Method: "GET", URL: &u, RemoteAddr: fmt.Sprintf("10.0.0.1:%d", 50000+w.asked), Header: http.Header{}})
		if r.code == 0 {
			r.code = 200
		}
		if r.code != 200 {
			vs.Failf("%v: the tracker answers %d %q to %q", c, r.code, r.body, u.RawQuery)
		}
		return vhttp.Reply{Status: r.code, Body: r.body}
	}
	return w
}

func (m *mate) start() {
	mi := &metainfo.Metainfo{Announce: "http://tracker.one/announce", Info: m.l.info}
	m.life++
	m.st = storage.New(m.tdir(), m.wdir(), m.l.info)
	srv := p2p.New(mi, m.id, m.st, m.port())
	m.srv = srv
	var t *vs.Thread
	t = vs.GoNamed("Start", func() {
		err := srv.Start()
		if m.started == t {
			m.err = err
		}
	})
	m.started = t
}

func (m *mate) stop() {
	if m.started == nil {
		return
	}
	srv, st := m.srv, m.started
	m.started = nil
	t := vs.GoNamed("Stop", func() { srv.Stop() })
	if !await(func() bool { return t.Done() && st.Done() }, 3*time.Minute) {
		vs.Failf("%v: three minutes after Stop of server %d: Stop is %s, Start is %s", m.w.c, m.k, where(t), where(st))
	}
}

// finished tells whether the target of a server is what it must be; it only looks.
func (m *mate) finished() bool {
	l := m.l
	top := m.tdir() + "/" + l.info.Name
	if len(l.info.Files) == 0 {
		return string(m.w.fs.Get(top)) == string(l.data)
	}
	o := 0
	for _, f := range l.info.Files {
		p := top + "/" + strings.Join(f.Path, "/")
		if !m.w.fs.Exists(p) || string(m.w.fs.Get(p)) != string(l.data[o:o+int(f.Length)]) {
			return false
		}
		o += int(f.Length)
	}
	return true
}

// extra: a file in the target that does not belong there.
func (m *mate) extra() string {
	want := map[string]bool{}
	for _, x := range m.w.mates {
		if x.tdir() == m.tdir() {
			for n := range x.l.target() {
				want[strings.Replace(n, tdir, m.tdir(), 1)] = true
			}
		}
	}
	for _, n := range first(m.w.fs.Files()) {
		if strings.HasPrefix(n, m.tdir()+"/") && !want[n] {
			return n
		}
	}
	return ""
}

func first(n []string, _ [][]byte) []string { return n }

func (w *troop) done() bool {
	for _, m := range w.mates {
		if m.started != nil && !m.finished() {
			return false
		}
	}
	return true
}

// play lets a band get everything and end.
func (c band) play() {
	w := muster(c)
	w.clean = len(c.resets)+len(c.leaves)+len(c.deaf) == 0 && c.away[1] == 0 && !c.early
	var last time.Duration
	for k, m := range w.mates {
		d := time.Duration(0)
		if c.later != nil {
			d = c.later[k]
		}
		last = max(last, d)
		if d == 0 {
			m.start()
		} else {
			w.own[vs.Spawn("later", func() { vs.Sleep(d); m.start() })] = true
		}
	}
	for _, r := range c.resets {
		last = max(last, r.at)
		w.own[vs.Spawn("resets", func() {
			vs.Sleep(r.at)
			k := 0
			for i := 0; i < len(w.net.Conns); i += 2 {
				x, y := w.net.Conns[i], w.net.Conns[i+1]
				if !x.Closed() && !y.Closed() && !x.Reset0() {
					if k == r.k {
						x.Cut()
						return
					}
					k++
				}
			}
		})] = true
	}
	for _, x := range c.leaves {
		last = max(last, x.at+x.back)
		w.own[vs.Spawn("leaves", func() {
			m := w.mates[x.who]
			vs.Sleep(x.at)
			m.stop()
			if x.back == 0 {
				return
			}
			vs.Sleep(x.back)
			if x.newID {
				m.id = peerID(10 + m.k)
			}
			if x.empty {
				for _, n := range first(w.fs.Files()) {
					if strings.HasPrefix(n, m.dir()+"/") {
						vos.Remove(n)
					}
				}
			}
			m.start()
		})] = true
	}
	last = max(last, c.away[1])
	if c.calm > 0 {
		settle(c.calm)
	}
	limit := last + 4*time.Minute
	if c.early {
		limit = 2 * time.Hour
	}
	// What comes later must have come.
	if !await(func() bool { return vs.Elapsed() > last && w.done() }, limit) {
		s := ""
		for _, m := range w.mates {
			if m.started != nil {
				s += fmt.Sprintf("; server %d: complete=%v, downloaded %d, uploaded %d, started %v", m.k, m.finished(), m.srv.Downloaded(), m.srv.Uploaded(), m.started.Done())
			}
		}
		vs.Failf("%v: after %v not everybody has everything%s", c, limit, s)
	}
	took := vs.Elapsed() - last
	vs.Mute(true)
	vs.Quiesce()
	if w.clean {
		var up, down int64
		for k, m := range w.mates {
			up, down = up+m.srv.Uploaded(), down+m.srv.Downloaded()
			miss := int64(len(m.l.data))
			for _, i := range c.has[k] {
				miss -= int64(len(m.l.bytes(i)))
			}
			if d := m.srv.Downloaded(); d != miss {
				vs.Failf("%v: server %d lacked %d bytes and counts %d downloaded", c, k, miss, d)
			}
		}
		if up != down {
			vs.Failf("%v: %d bytes were uploaded, %d downloaded", c, up, down)
		}
	}
	for _, m := range w.mates {
		if m.started != nil && m.started.Done() {
			vs.Failf("%v: Start of server %d has returned: %v", c, m.k, m.err)
		}
		if x := m.extra(); x != "" {
			vs.Failf("%v: server %d has the file %s", c, m.k, x)
		}
	}
	for _, m := range w.mates {
		m.stop()
	}
	vs.Quiesce()
	for _, t := range vs.Threads() {
		if n := t.Name; (n == "go" || n == "errgroup" || n == "AfterFunc") && !t.Done() && !w.own[t] {
			vs.Failf("%v: a goroutine of a stopped server is left, at %s", c, t.At())
		}
	}
	for _, x := range w.net.Conns {
		if !x.Closed() && !x.Reset0() {
			vs.Failf("%v: a connection is left open", c)
		}
	}
	ls := []*layout{c.l}
	if c.l2 != nil {
		ls = append(ls, c.l2)
	}
	for _, l := range ls {
		if n := w.ask(l.info.SHA1); n != "" {
			vs.Failf("%v: the tracker lists %q when all have stopped", c, n)
		}
	}
	vs.Sleep(2 * time.Minute)
	vs.Quiesce()
	for _, l := range ls {
		tor := w.tr.Torrents[l.info.SHA1]
		if n := len(tor.Peers); n > 0 {
			vs.Failf("%v: two minutes later the tracker remembers %d peers", c, n)
		}
	}
	vs.Mix(fmt.Sprint(took.Round(time.Second)))
	vs.Mute(false)
}

// ask is what the tracker tells a newcomer.
func (w *troop) ask(sha [20]byte) string {
	r := &page{}
	req, _ := http.NewRequest("GET", "http://tracker.one/announce?info_hash="+strings.Map(func(r rune) rune { return r }, hex(sha[:]))+"&peer_id=-xxxxxxxxxxxxxxxxxxx&port=9&uploaded=0&downloaded=0&left=1&compact=1&event=stopped", nil)
	req.RemoteAddr = "10.0.0.77:1"
	w.tr.ServeHTTP(r, req)
	i := strings.Index(string(r.body), "5:peers")
	if i < 0 {
		vs.Failf("the tracker answers %q", r.body)
		return ""
	}
	s := string(r.body[i+7:])
	return s[strings.Index(s, ":")+1 : len(s)-1]
}

func hex(b []byte) (s string) {
	for _, c := range b {
		s += fmt.Sprintf("%%%02x", c)
	}
	return
}

// spread visits every distribution of n pieces to k servers in which each piece is somewhere.
func spread(n, k int, f func([][]int)) {
	var rec func(has [][]int)
	rec = func(has [][]int) {
		if len(has) == k {
			m := map[int]bool{}
			for _, h := range has {
				for _, i := range h {
					m[i] = true
				}
			}
			if len(m) == n {
				f(append([][]int{}, has...))
			}
			return
		}
		subsets(n, func(s []int) { rec(append(has[:len(has):len(has)], append([]int{}, s...))) })
	}
	rec(nil)
}

func groups(e *mc.Enum) {
	run := func(c band) {
		if !e.Stopped() {
			e.Casef(func() { e.Sched(vs.Config{}, c.play) }, "%v", c)
		}
	}
	s := time.Second
	layouts := []*layout{mk(2, 3), mk(4, 3), mk(2, 5), mk(2, 4, fileSpec{"a", 1}, fileSpec{"d/b", 3}), mk(block+1, 2*block+2)}
	for _, l := range layouts {
		for _, k := range []int{2, 3} {
			if k == 3 && l.n() == 3 && !mc.Thorough {
				continue
			}
			spread(l.n(), k, func(has [][]int) {
				run(band{l: l, has: has})
				for _, d := range [][]time.Duration{{0, s, 2 * s}, {0, 0, 31 * s}, {0, 7 * s, 0}, {12 * s, 0, 45 * s}, {61 * s, 33 * s, 0}} {
					run(band{l: l, has: has, later: d[:k]})
				}
				for d := 0; d < k; d++ {
					run(band{l: l, has: has, deaf: []int{d}})
					run(band{l: l, has: has, deaf: []int{d}, later: []time.Duration{0, 10 * s, 40 * s}[:k]})
				}
			})
		}
	}
	// three servers with three pieces, four with two
	three := mk(2, 5)
	spread(3, 3, func(has [][]int) { run(band{l: three, has: has}) })
	two := mk(2, 3)
	spread(2, 4, func(has [][]int) {
		run(band{l: two, has: has})
		run(band{l: two, has: has, later: []time.Duration{0, 11 * s, 0, 40 * s}})
	})
}

// twoTorrents: groups of two torrents at one tracker, in the same directories
// or not, under the same ids or not, do not disturb each other.
func twoTorrents(e *mc.Enum) {
	s := time.Second
	for _, l := range []*layout{mk(2, 3), mk(2, 4, fileSpec{"a", 1}, fileSpec{"d/b", 3}), mk(block+1, 2*block+2)} {
		spread(l.n(), 2, func(a [][]int) {
			spread(l.n(), 2, func(b [][]int) {
				for k := 0; k < 4; k++ {
					c := band{l: l, l2: second(l), shared: k&1 > 0, sameID: k&2 > 0}
					c.has = [][]int{a[0], b[0], a[1], b[1]}
					for _, c.later = range [][]time.Duration{nil, {0, s, 2 * s, 3 * s}, {0, 0, 31 * s, 11 * s}, {12 * s, 0, 0, 45 * s}} {
						if e.Stopped() {
							return
						}
						c := c
						e.Casef(func() { e.Sched(vs.Config{}, c.play) }, "%v", c)
					}
				}
			})
		})
	}
}

func turbulence(e *mc.Enum) {
	run := func(c band) {
		if !e.Stopped() {
			e.Casef(func() { e.Sched(vs.Config{}, c.play) }, "%v", c)
		}
	}
	s := time.Second
	two, big := mk(2, 3), mk(block+1, 2*block+1)
	ats := []time.Duration{0, 1, s, 5 * s, 9*s + 1, 10 * s, 10*s + 1, 15 * s, 20 * s, 29 * s, 30 * s, 30*s + 1, 31 * s, 40 * s, 40*s + 1, 50 * s, 61 * s, 90 * s}
	for _, l := range []*layout{two, big} {
		for _, has := range [][][]int{{{0, 1}, {}}, {{0}, {1}}, {{}, {0, 1}}, {{0, 1}, {}, {}}, {{0}, {1}, {}}, {{0, 1}, {0}, {1}}} {
			k := len(has)
			for _, at := range ats {
				for n := 0; n < k; n++ {
					run(band{l: l, has: has, resets: []reset{{at, n}}})
				}
				for _, at2 := range ats {
					if mc.Thorough || l == two && k == 2 {
						run(band{l: l, has: has, resets: []reset{{at, 0}, {at2, 0}}})
					}
				}
				for who := 0; who < k; who++ {
					for _, back := range []time.Duration{1, 5 * s, 31 * s, 65 * s, 130 * s} {
						run(band{l: l, has: has, leaves: []leave{{at: at, who: who, back: back}}})
						run(band{l: l, has: has, leaves: []leave{{at: at, who: who, back: back, newID: true}}})
						if others(has, who, l.n()) {
							run(band{l: l, has: has, leaves: []leave{{at: at, who: who, back: back, empty: true}}})
							run(band{l: l, has: has, leaves: []leave{{at: at, who: who, back: back, empty: true, newID: true}}})
						}
					}
					if others(has, who, l.n()) {
						run(band{l: l, has: has, leaves: []leave{{at: at, who: who}}})
					}
				}
				if at > 0 {
					for _, d := range []time.Duration{s, 20 * s, 70 * s} {
						run(band{l: l, has: has, away: [2]time.Duration{at, at + d}})
					}
				}
			}
		}
	}
}

// others tells whether every piece is with another server.
func others(has [][]int, who, n int) bool {
	m := map[int]bool{}
	for k, h := range has {
		if k != who {
			for _, i := range h {
				m[i] = true
			}
		}
	}
	return len(m) == n
}
