package main

import (
	"crypto/sha1"
	"encoding/binary"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"sort"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/p2p"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/vhttp"
	"github.com/browles/drip/zzv/rt/vnet"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

const (
	tdir  = "/data/t"
	wdir  = "/data/w"
	block = 1 << 14
	port  = 21503
)

var (
	ownID  = [20]byte{'-', 'o', 'w', 'n', '-', 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	theSHA = [20]byte{1, 2, 3, 0xab, 'h', 'a', 's', 'h', ' ', '%', 0, 0xff, 7, 7, 7, 7, 7, 7, 7, 7}
)

type fileSpec struct {
	path string
	n    int
}

// layout is a torrent and its content.
type layout struct {
	info  *metainfo.Info
	data  []byte
	piece int
}

func mk(piece, total int, files ...fileSpec) *layout {
	l := &layout{piece: piece, data: make([]byte, total)}
	for i := range l.data {
		l.data[i] = byte(i*7 + i>>8*13 + i>>14*31 + 1)
	}
	info := &metainfo.Info{Name: "out", PieceLength: piece, SHA1: theSHA}
	for i := 0; i < total; i += piece {
		info.Pieces = append(info.Pieces, sha1.Sum(l.data[i:min(i+piece, total)]))
	}
	if len(files) == 0 {
		info.Length = int64(total)
	}
	for _, f := range files {
		info.Files = append(info.Files, &metainfo.File{Path: strings.Split(f.path, "/"), Length: int64(f.n)})
	}
	l.info = info
	return l
}

func (l *layout) n() int             { return len(l.info.Pieces) }
func (l *layout) bytes(i int) []byte { return l.data[i*l.piece : min((i+1)*l.piece, len(l.data))] }

// all lists the piece numbers.
func (l *layout) all() (out []int) {
	for i := 0; i < l.n(); i++ {
		out = append(out, i)
	}
	return
}

type blk struct{ p, off, n int }

func (l *layout) blocksOf(i int) (out []blk) {
	n := len(l.bytes(i))
	for o := 0; o < n; o += block {
		out = append(out, blk{i, o, min(block, n-o)})
	}
	return
}

func (l *layout) isBlock(b blk) bool {
	if b.p < 0 || b.p >= l.n() {
		return false
	}
	for _, x := range l.blocksOf(b.p) {
		if x == b {
			return true
		}
	}
	return false
}

// target is what the finished torrent must be on disk.
func (l *layout) target() map[string]string {
	m := map[string]string{}
	if len(l.info.Files) == 0 {
		m[tdir+"/"+l.info.Name] = string(l.data)
		return m
	}
	o := 0
	for _, f := range l.info.Files {
		m[tdir+"/"+l.info.Name+"/"+strings.Join(f.Path, "/")] = string(l.data[o : o+int(f.Length)])
		o += int(f.Length)
	}
	return m
}

// ---- the world of an execution

// treq is a request a tracker got.
type treq struct {
	at  time.Duration
	url string // without the query
	q   url.Values
	raw string
}

func (t treq) event() string { return t.q.Get("event") }

// world is one server and what surrounds it.
type world struct {
	l       *layout
	fs      *vos.FS
	net     *vnet.Net
	mi      *metainfo.Metainfo
	st      *storage.Storage
	srv     *p2p.Server
	started *vs.Thread
	over    bool  // Start has returned
	err     error // of Start
	reqs    []treq
	reply   func(t treq) vhttp.Reply
	listed  []peerAddr
	remotes []*remote
	onDial  func(addr string) *remote
	onMsg   func(r *remote, m msg)
	ending  bool
	away    bool // nobody comes back
	sends   func(r *remote, typ int, b blk, good bool)
}

type peerAddr struct {
	ip   string
	port int
}

// newWorld makes a server that has some pieces and is not started yet.
func newWorld(l *layout, have ...int) *world {
	w := &world{l: l}
	vhttp.Reset()
	vnet.BufSize, vnet.Chop, vnet.Keep = 1<<20, 0, true
	w.net = vnet.Reset()
	w.fs = vos.Reset()
	w.fs.Mkdir(tdir)
	w.fs.Mkdir(wdir)
	w.fs.Quiet = true
	if len(have) > 0 {
		vs.Mute(true)
		st := storage.New(tdir, wdir, l.info)
		if err := st.Load(); err != nil {
			vs.Failf("Load: %v", err)
		}
		for _, i := range have {
			for _, b := range l.blocksOf(i) {
				if err := st.PutBlock(i, b.off, append([]byte(nil), l.bytes(i)[b.off:b.off+b.n]...)); err != nil {
					vs.Failf("PutBlock: %v", err)
				}
			}
		}
		vs.Mute(false)
	}
	w.mi = &metainfo.Metainfo{Announce: "http://tracker.one/announce", Info: l.info}
	w.reply = func(t treq) vhttp.Reply { return vhttp.Reply{Body: peersReply(1800, w.listed...)} }
	vhttp.OnRequest = func(req *http.Request) vhttp.Reply {
		u := *req.URL
		raw := u.RawQuery
		u.RawQuery = ""
		q, err := url.ParseQuery(raw)
		if err != nil {
			vs.Failf("the tracker gets the malformed query %q", raw)
		}
		t := treq{at: vs.Elapsed(), url: u.String(), q: q, raw: raw}
		if w.over {
			vs.Failf("the tracker is told %q after Start has returned", raw)
		}
		w.reqs = append(w.reqs, t)
		return w.reply(t)
	}
	w.net.OnDial = func(addr string) (func(*vnet.TCPConn), error) {
		if w.onDial == nil {
			return nil, errors.New("connection refused")
		}
		r := w.onDial(addr)
		if r == nil {
			return nil, errors.New("connection refused")
		}
		if r.buf > 0 {
			vnetBuf(r.buf)
		}
		return func(c *vnet.TCPConn) { vnetBuf(1 << 20); r.c = c; r.inbound = false; w.join(r) }, nil
	}
	w.make()
	return w
}

// make creates the storage and the server.
func (w *world) make() {
	w.st = storage.New(tdir, wdir, w.l.info)
	w.srv = p2p.New(w.mi, ownID, w.st, port)
}

func peersReply(interval int, ps ...peerAddr) []byte {
	s := ""
	for _, p := range ps {
		var b [6]byte
		var a, c, d, e byte
		fmt.Sscanf(p.ip, "%d.%d.%d.%d", &a, &c, &d, &e)
		b[0], b[1], b[2], b[3] = a, c, d, e
		binary.BigEndian.PutUint16(b[4:], uint16(p.port))
		s += string(b[:])
	}
	return []byte(fmt.Sprintf("d8:intervali%de5:peers%d:%se", interval, len(s), s))
}

// start runs the server in a thread of its own.
func (w *world) start() {
	w.over = false
	w.started = vs.GoNamed("Start", func() { w.err = w.srv.Start(); w.over = true })
}

// up starts the server and lets it settle, without decisions.
func (w *world) up() {
	vs.Mute(true)
	w.start()
	vs.Quiesce()
	vs.Mute(false)
	if w.started.Done() {
		vs.Failf("Start returned at once: %v", w.err)
	}
}

type cond struct {
	f     func() bool
	timer vs.Timer
	fired bool
}

func (c *cond) Fire()         { c.fired = true }
func (c *cond) Enabled() bool { return c.fired || c.f() }

// await blocks until f holds or d has passed; f must only look.
func await(f func() bool, d time.Duration) bool {
	if vs.Aborting() {
		return false
	}
	c := &cond{f: f}
	c.timer.Fire = c
	c.timer.Arm(vs.NowNano() + int64(d))
	vs.Yield(c, "await")
	c.timer.Disarm()
	return f()
}

// settle lets everything run that can without the clock moving, then d pass, without decisions.
func settle(d time.Duration) {
	vs.Mute(true)
	vs.Quiesce()
	if d > 0 {
		vs.Sleep(d)
		vs.Quiesce()
	}
	vs.Mute(false)
}

// stop stops the server and waits until Start has returned.
func (w *world) stop() {
	if w.started == nil {
		return
	}
	w.ending = true
	t := vs.GoNamed("Stop", func() { w.srv.Stop() })
	if !await(func() bool { return t.Done() && w.started.Done() }, 2*time.Minute) {
		vs.Failf("two minutes after Stop: Stop is %s, Start is %s", where(t), where(w.started))
		return
	}
	vs.Join(t, w.started)
}

func where(t *vs.Thread) string {
	if t.Done() {
		return "done"
	}
	return "at " + t.At()
}

// quiet ends the execution without decisions.
func (w *world) quiet() {
	vs.Mute(true)
	vs.Quiesce()
	if n, up := w.payload(), w.srv.Uploaded(); n != up {
		vs.Failf("%d bytes of blocks were sent, the server counts %d uploaded", n, up)
	}
	if leaving && w.started != nil && !w.started.Done() {
		w.deserted()
	}
	w.stop()
	vs.Mute(false)
}

// payload sums the bytes of the blocks this run of the server has sent.
func (w *world) payload() (n int64) {
	for _, r := range w.remotes {
		if r.srv != w.srv || r.c == nil {
			continue
		}
		b := r.c.PeerWrote()
		if len(b) < 68 {
			continue
		}
		for b = b[68:]; len(b) >= 5; {
			l := 4 + int(binary.BigEndian.Uint32(b))
			if l > len(b) {
				break
			}
			if l > 13 && int(b[4]) == mPiece {
				n += int64(l - 13)
			}
			b = b[l:]
		}
	}
	return
}

// has asks the storage for a piece; not from conditions.
func (w *world) has(i int) bool {
	vs.Mute(true)
	defer vs.Mute(false)
	_, err := w.st.GetBlock(i, 0, 1)
	return err == nil
}

func (w *world) pieces() (out []int) {
	for i := 0; i < w.l.n(); i++ {
		if w.has(i) {
			out = append(out, i)
		}
	}
	return
}

// finished tells whether the target is complete; it only looks.
func (w *world) finished() bool {
	if len(w.l.info.Files) == 0 {
		if !w.fs.Exists(tdir + "/out") {
			return false
		}
	} else if !w.fs.Exists(tdir + "/out/" + strings.Join(w.l.info.Files[len(w.l.info.Files)-1].Path, "/")) {
		return false
	}
	return w.complete() == ""
}

// complete checks the target against the torrent.
func (w *world) complete() string {
	want := w.l.target()
	names, data := w.fs.Files()
	for i, n := range names {
		if !strings.HasPrefix(n, tdir+"/") {
			continue
		}
		c, ok := want[n]
		if !ok {
			return "has the file " + n
		}
		if c != string(data[i]) {
			return "has other bytes in " + n
		}
		delete(want, n)
	}
	for n := range want {
		return "lacks " + n
	}
	return ""
}

// ---- remote peers

const (
	mKeep = iota - 1
	mChoke
	mUnchoke
	mInterested
	mNotInterested
	mHave
	mBitfield
	mRequest
	mPiece
	mCancel
)

var mNames = map[int]string{mKeep: "KEEPALIVE", mChoke: "CHOKE", mUnchoke: "UNCHOKE", mInterested: "INTERESTED", mNotInterested: "NOT_INTERESTED",
	mHave: "HAVE", mBitfield: "BITFIELD", mRequest: "REQUEST", mPiece: "PIECE", mCancel: "CANCEL"}

// msg is a message of the wire, read by the harness' own reader.
type msg struct {
	typ   int
	b     blk // index, begin, length
	data  []byte
	at    time.Duration
	seq   int // order among all messages all remotes got
	after int // how many messages the remote had sent
}

func (m msg) String() string {
	s, ok := mNames[m.typ]
	if !ok {
		s = fmt.Sprint("type ", m.typ)
	}
	switch m.typ {
	case mHave:
		s += fmt.Sprintf(" %d", m.b.p)
	case mRequest, mCancel, mPiece:
		s += fmt.Sprintf(" %d:%d+%d", m.b.p, m.b.off, m.b.n)
	case mBitfield:
		s += fmt.Sprintf(" %x", m.data)
	}
	return s
}

func u32(n int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(n)) }

func frame(typ int, payload ...[]byte) []byte {
	n := 1
	for _, p := range payload {
		n += len(p)
	}
	out := append(u32(n), byte(typ))
	for _, p := range payload {
		out = append(out, p...)
	}
	return out
}

func handshake(sha, id [20]byte) []byte {
	out := append([]byte{19}, "BitTorrent protocol"...)
	out = append(out, make([]byte, 8)...)
	out = append(out, sha[:]...)
	return append(out, id[:]...)
}

func bits(l *layout, have ...int) []byte {
	b := make([]byte, (l.n()+7)/8)
	for _, i := range have {
		b[i/8] |= 0x80 >> (i % 8)
	}
	return b
}

// remote is a peer of the server; its thread answers what arrives.
type remote struct {
	w       *world
	srv     *p2p.Server // the run it is connected to
	name    string
	c       *vnet.TCPConn
	id      [20]byte
	ip      string
	port    int
	inbound bool
	t       *vs.Thread

	hs     []byte // the handshake the server sent
	got    []msg
	sent   int
	closed bool // the connection has ended
	bad    string

	announced []int
	gone      func() // the server has closed the connection
	idle      bool
	silent    bool // does not even answer the handshake
	noRead    bool // reads nothing at all
	buf       int  // how much the connection holds, if not plenty
	slowHS    time.Duration
	have      []int
	greet     func(r *remote) // after the handshake; default: send the bitfield
	on        func(r *remote, m msg)
	choking   bool // the server is choked by it
	serve     func(b blk) []byte
}

var seqNo int

func peerID(k int) [20]byte {
	var id [20]byte
	copy(id[:], fmt.Sprintf("-remote-peer-%07d", k))
	return id
}

// remote describes a peer number k; have are the pieces it announces.
func (w *world) remote(k int, have ...int) *remote {
	r := &remote{w: w, name: fmt.Sprintf("peer %d", k), id: peerID(k), ip: fmt.Sprintf("10.0.1.%d", k), port: 7000 + k, have: have, choking: true}
	return r
}

func (r *remote) addr() string  { return fmt.Sprintf("%s:%d", r.ip, r.port) }
func (r *remote) pa() peerAddr  { return peerAddr{r.ip, r.port} }
func (r *remote) hello() []byte { return handshake(theSHA, r.id) }
func (r *remote) send(b []byte) {
	r.sent++
	r.c.Feed(b)
	if r.w.sends != nil && len(b) > 4 {
		switch int(b[4]) {
		case mChoke, mUnchoke:
			r.w.sends(r, int(b[4]), blk{}, false)
		}
	}
}
func (r *remote) alive() bool    { return r.c != nil && !r.closed && !r.c.Gone() && !r.c.Closed() }
func (r *remote) choke()         { r.choking = true; r.send(frame(mChoke)) }
func (r *remote) unchoke()       { r.choking = false; r.send(frame(mUnchoke)) }
func (r *remote) sendHave(i int) { r.announced = append(r.announced, i); r.send(frame(mHave, u32(i))) }
func (r *remote) sendBitfield(have ...int) {
	r.announced = append(r.announced, have...)
	r.send(frame(mBitfield, bits(r.w.l, have...)))
}
func (r *remote) request(b blk) {
	r.send(frame(mRequest, u32(b.p), u32(b.off), u32(b.n)))
}
func (r *remote) piece(p, off int, d []byte) {
	r.send(frame(mPiece, u32(p), u32(off), d))
	if r.w.sends != nil {
		good := false
		if p >= 0 && p < r.w.l.n() {
			c := r.w.l.bytes(p)
			good = off >= 0 && off+len(d) <= len(c) && string(c[off:off+len(d)]) == string(d)
		}
		r.w.sends(r, mPiece, blk{p, off, len(d)}, good)
	}
}

// give answers a request with the right bytes.
func (r *remote) give(b blk) {
	d := r.w.l.bytes(b.p)
	if b.off+b.n > len(d) {
		return
	}
	r.piece(b.p, b.off, d[b.off:b.off+b.n])
}

// giveBad answers with wrong bytes.
func (r *remote) giveBad(b blk) {
	d := append([]byte(nil), r.w.l.bytes(b.p)[b.off:b.off+b.n]...)
	d[len(d)-1] ^= 0x40
	r.piece(b.p, b.off, d)
}

func (r *remote) drop() {
	r.closed = true
	r.c.Drop()
}

// connect opens a connection to the server; false if nobody listens.
func (w *world) connect(r *remote) bool {
	if r.buf > 0 {
		vnetBuf(r.buf)
	}
	r.c = w.net.Connect(r.ip, r.port, port)
	vnetBuf(1 << 20)
	if r.c == nil {
		return false
	}
	r.inbound = true
	w.join(r)
	return true
}

// join starts the thread of a remote whose connection is open.
func (w *world) join(r *remote) {
	w.remotes = append(w.remotes, r)
	r.srv = w.srv
	hello := func() {
		r.c.Feed(r.hello())
		if r.greet != nil {
			r.greet(r)
		} else if r.have != nil {
			r.sendBitfield(r.have...)
		}
	}
	if r.slowHS > 0 {
		vs.Spawn("shakes hands", func() {
			vs.Sleep(r.slowHS)
			if r.alive() {
				hello()
			}
		})
	} else if !r.silent {
		hello()
	}
	r.t = vs.Spawn(r.name, r.run)
}

func (r *remote) Fire() { r.idle = true }

func (r *remote) Enabled() bool {
	return r.closed || r.idle || !r.noRead && (r.c.Gone() || r.ready())
}

// ready: a whole message has arrived.
func (r *remote) ready() bool {
	p := r.c.Peek()
	if r.hs == nil {
		return len(p) >= 68
	}
	return len(p) >= 4 && len(p) >= 4+int(binary.BigEndian.Uint32(p))
}

func (r *remote) run() {
	var tm vs.Timer
	tm.Fire = r
	defer tm.Disarm()
	for {
		if !r.silent {
			tm.Arm(vs.NowNano() + int64(100*time.Second))
		}
		vs.Yield(r, r.name)
		if vs.Aborting() {
			return
		}
		if r.closed {
			return
		}
		if r.idle {
			r.idle = false
			r.send(u32(0)) // keepalive
		}
		for !r.noRead && r.ready() {
			r.one()
			if r.closed {
				return
			}
		}
		if r.c.Gone() {
			r.closed = true
			if !r.c.Closed() {
				r.c.Drop()
			}
			if r.gone != nil {
				r.gone()
			}
			return
		}
	}
}

func (r *remote) one() {
	if r.hs == nil {
		r.hs = r.c.Take(68)
		return
	}
	n := int(binary.BigEndian.Uint32(r.c.Take(4)))
	seqNo++
	m := msg{typ: mKeep, at: vs.Elapsed(), seq: seqNo, after: r.sent}
	if n > 0 {
		p := r.c.Take(n)
		m.typ, p = int(p[0]), p[1:]
		get := func(i int) int {
			if len(p) < 4*i+4 {
				r.bad = fmt.Sprintf("a short message of type %d: %x", m.typ, p)
				return -1
			}
			return int(binary.BigEndian.Uint32(p[4*i:]))
		}
		switch m.typ {
		case mHave:
			m.b.p = get(0)
		case mBitfield:
			m.data = p
		case mRequest, mCancel:
			m.b = blk{get(0), get(1), get(2)}
		case mPiece:
			m.b = blk{get(0), get(1), len(p) - 8}
			m.data = p[min(8, len(p)):]
		}
	}
	r.got = append(r.got, m)
	vs.Tracef("%s gets %v", r.name, m)
	vs.Mix(r.name + m.String())
	if r.w.onMsg != nil {
		r.w.onMsg(r, m)
	}
	if r.on != nil {
		r.on(r, m)
	}
}

// seeder answers interest with unchoking and requests with the right blocks.
func seeder(r *remote, m msg) {
	switch m.typ {
	case mInterested:
		if r.choking {
			r.unchoke()
		}
	case mRequest:
		if !r.choking {
			r.give(m.b)
		}
	}
}

// count counts the messages of a type.
func (r *remote) count(typ int) (n int) {
	for _, m := range r.got {
		if m.typ == typ {
			n++
		}
	}
	return
}

func (r *remote) last(typ int) (msg, bool) {
	for i := len(r.got) - 1; i >= 0; i-- {
		if r.got[i].typ == typ {
			return r.got[i], true
		}
	}
	return msg{}, false
}

// knows lists the pieces the server has told the remote it has.
func (r *remote) knows() map[int]bool {
	out := map[int]bool{}
	for _, m := range r.got {
		switch m.typ {
		case mHave:
			out[m.b.p] = true
		case mBitfield:
			for i := 0; i < len(m.data)*8; i++ {
				if m.data[i/8]&(0x80>>(i%8)) != 0 {
					out[i] = true
				}
			}
		}
	}
	return out
}

func sorted(m map[int]bool) (out []int) {
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return
}

func vnetBuf(n int) { vnet.BufSize = n }

func setChop(n int) { vnet.Chop = n }
