// Package vnet stands in for net: virtual TCP whose connections live in
// memory, whose operations are scheduling points, and whose deadlines follow
// the scheduler's clock.
package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

// BufSize is how many bytes a direction of a new connection holds before writes block.
var BufSize = 1 << 20

// Chop, when set, makes reads return at most that many bytes (partial reads).
var Chop = 0

// Hook, when set, may make an operation fail: listen, accept, dial, read, write or
// close. Of what is written, part still arrives. A connection whose reads or
// writes fail is broken, unless they fail for lack of buffers.
var Hook func(op string, n int) (part int, err error)

func hooked(op string, n int) (int, error) {
	if Hook == nil || vs.Aborting() {
		return 0, nil
	}
	return Hook(op, n)
}

// Keep makes connections keep what is written to them.
var Keep = false

type half struct {
	buf    []byte
	off    int
	wclose bool // no more data will come
	rst    bool
	total  int
	size   int // how much it holds
}

func (h *half) avail() int { return len(h.buf) - h.off }

// TCPConn is one end of a virtual connection.
type TCPConn struct {
	in, out      *half
	laddr, raddr *net.TCPAddr
	peer         *TCPConn
	tag          byte
	closed       bool
	rdl, wdl     dl
	Tag          string
	noPoint      bool
	// for harnesses
	ClosedAt time.Duration
	RDLSet   int
	Wrote    []byte // all that was written successfully, if Keep is set
}

type dl struct {
	set   bool
	when  int64
	timer vs.Timer
}

func (d *dl) passed() bool { return d.set && vs.NowNano() >= d.when }
func (d *dl) Fire()        {}

func (d *dl) put(t time.Time) {
	d.timer.Disarm()
	d.set = !t.IsZero()
	if d.set {
		d.when = t.UnixNano()
		d.timer.Fire = d
		if d.when > vs.NowNano() {
			d.timer.Arm(d.when)
		}
	}
}

type rwait TCPConn
type wwait TCPConn

func (c *rwait) Enabled() bool {
	return c.closed || c.in.avail() > 0 || c.in.wclose || c.in.rst || c.rdl.passed()
}
func (c *wwait) Enabled() bool {
	return c.closed || c.out.avail() < c.out.size || c.out.rst || c.wdl.passed()
}

func (c *TCPConn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

func (c *TCPConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	vs.Yield((*rwait)(c), "conn.Read")
	switch {
	case vs.Aborting():
		return 0, io.EOF
	case c.closed:
		vs.RaceAcquire(unsafe.Pointer(&c.tag))
		return 0, c.operr("read", net.ErrClosed)
	case c.rdl.passed():
		return 0, c.operr("read", vos.ErrDeadlineExceeded)
	}
	if _, err := hooked("read", c.in.avail()); err != nil {
		c.Cut()
		return 0, c.operr("read", err)
	}
	switch {
	case c.in.avail() > 0:
		if Chop > 0 && len(p) > Chop {
			p = p[:Chop]
		}
		n := copyBytes(p, c.in.buf[c.in.off:])
		c.in.off += n
		if c.in.off == len(c.in.buf) {
			c.in.buf, c.in.off = nil, 0
		}
		return n, nil
	case c.in.rst:
		return 0, c.operr("read", syscall.ECONNRESET)
	}
	return 0, io.EOF
}

func copyBytes(a, b []byte) int { return copy(a, b) }

func (c *TCPConn) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	done := 0
	for first := true; ; first = false {
		vs.Yield((*wwait)(c), "conn.Write")
		switch {
		case vs.Aborting():
			return done, io.ErrClosedPipe
		case c.closed:
			vs.RaceAcquire(unsafe.Pointer(&c.tag))
			return done, c.operr("write", net.ErrClosed)
		case c.wdl.passed():
			return done, c.operr("write", vos.ErrDeadlineExceeded)
		case c.out.rst:
			return done, c.operr("write", syscall.EPIPE)
		}
		if first {
			if part, err := hooked("write", len(p)); err != nil {
				part = min(part, c.out.size-c.out.avail())
				c.out.push(p[:part])
				c.keep(p[:part])
				if err != syscall.ENOBUFS {
					c.Cut()
				}
				return part, c.operr("write", err)
			}
		}
		n := c.out.size - c.out.avail()
		if n > len(p) {
			n = len(p)
		}
		if c.peer != nil && c.peer.closed {
			// the other end is gone: it answers with a reset, the next operation sees it
			c.out.rst = true
			c.in.rst = true
			c.keep(p)
			return done + len(p), nil
		}
		c.out.push(p[:n])
		c.keep(p[:n])
		done += n
		p = p[n:]
		if len(p) == 0 {
			return done, nil
		}
	}
}

func (c *TCPConn) keep(p []byte) {
	if Keep {
		c.Wrote = append(c.Wrote, p...)
	}
}

func (h *half) push(p []byte) {
	n := len(h.buf)
	if n+len(p) > cap(h.buf) {
		b := make([]byte, n, 2*n+len(p)+64)
		copyBytes(b[:n], h.buf)
		h.buf = b
	}
	h.buf = h.buf[:n+len(p)]
	copyBytes(h.buf[n:], p)
	h.total += len(p)
}

func (c *TCPConn) Close() error {
	vs.Point("conn.Close")
	vs.RaceAcquire(unsafe.Pointer(&c.tag))
	if c.closed {
		return c.operr("close", net.ErrClosed)
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&c.tag))
	_, err := hooked("close", 0)
	c.shut()
	if err != nil {
		return c.operr("close", err)
	}
	return nil
}

func (c *TCPConn) shut() {
	c.closed = true
	c.ClosedAt = vs.Elapsed()
	c.out.wclose = true
	if c.in.avail() > 0 {
		// unread data: the kernel resets the connection
		c.out.rst = true
	}
	c.rdl.timer.Disarm()
	c.wdl.timer.Disarm()
}

func (c *TCPConn) CloseWrite() error { vs.Point("conn.CloseWrite"); c.out.wclose = true; return nil }
func (c *TCPConn) CloseRead() error  { return nil }

func (c *TCPConn) LocalAddr() net.Addr  { return c.laddr }
func (c *TCPConn) RemoteAddr() net.Addr { return c.raddr }

func (c *TCPConn) SetDeadline(t time.Time) error {
	if c.closed {
		vs.RaceAcquire(unsafe.Pointer(&c.tag))
		return c.operr("set", net.ErrClosed)
	}
	c.rdl.put(t)
	c.wdl.put(t)
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		vs.RaceAcquire(unsafe.Pointer(&c.tag))
		return c.operr("set", net.ErrClosed)
	}
	c.RDLSet++
	c.rdl.put(t)
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		vs.RaceAcquire(unsafe.Pointer(&c.tag))
		return c.operr("set", net.ErrClosed)
	}
	c.wdl.put(t)
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

// ---- for harnesses: looking at a connection without scheduling ----

func (c *TCPConn) Closed() bool  { return c.closed }
func (c *TCPConn) Buffered() int { return c.in.avail() }

// Gone: the other end has closed or reset the connection.
func (c *TCPConn) Gone() bool { return c.in.wclose || c.in.rst }

// Peek returns what has arrived and has not been read.
func (c *TCPConn) Peek() []byte { return c.in.buf[c.in.off:] }

// Take removes n bytes of what has arrived.
func (c *TCPConn) Take(n int) []byte {
	b := append([]byte(nil), c.in.buf[c.in.off:c.in.off+n]...)
	c.in.off += n
	return b
}

// Feed makes bytes arrive at the other end, without a scheduling point.
func (c *TCPConn) Feed(p []byte) {
	if c.peer.closed {
		c.in.rst = true
		return
	}
	c.out.push(p)
}

// PeerWrote is all that the other end has written, if Keep was set.
func (c *TCPConn) PeerWrote() []byte { return c.peer.Wrote }

// Drop closes this end without a scheduling point.
func (c *TCPConn) Drop() {
	if !c.closed {
		c.shut()
	}
}

// Reset0 tells whether the connection has been reset by either end.
func (c *TCPConn) Reset0() bool { return c.in.rst && c.out.rst }

// Reset aborts the connection (RST).
func (c *TCPConn) Reset() {
	if !c.closed {
		c.shut()
		c.out.rst = true
		c.in.rst = true
	}
}

// Cut breaks a connection for both ends, which must notice and close.
func (c *TCPConn) Cut() { c.in.rst, c.out.rst = true, true }

// Pair makes a connection between two addresses.
func Pair(a, b *net.TCPAddr) (*TCPConn, *TCPConn) {
	x, y := &half{size: BufSize}, &half{size: BufSize}
	c := &TCPConn{in: x, out: y, laddr: a, raddr: b}
	d := &TCPConn{in: y, out: x, laddr: b, raddr: a}
	c.peer, d.peer = d, c
	n := cur()
	n.Conns = append(n.Conns, c, d)
	return c, d
}

// TCPListener is a virtual listening socket.
type TCPListener struct {
	addr   *net.TCPAddr
	queue  []*TCPConn
	closed bool
	dl     dl
	tag    byte
}

func (l *TCPListener) Enabled() bool { return l.closed || len(l.queue) > 0 || l.dl.passed() }

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	vs.Yield(l, "Accept")
	if vs.Aborting() || l.closed {
		vs.RaceAcquire(unsafe.Pointer(&l.tag))
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	if len(l.queue) == 0 {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: vos.ErrDeadlineExceeded}
	}
	c := l.queue[0]
	if _, err := hooked("accept", 0); err != nil {
		if err == syscall.ECONNABORTED { // others leave it in the queue
			l.queue = l.queue[1:]
			c.Reset()
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", err)}
	}
	l.queue = l.queue[1:]
	cur().Accepted++
	return c, nil
}

func (l *TCPListener) Close() error {
	vs.Point("Listener.Close")
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	vs.RaceReleaseMerge(unsafe.Pointer(&l.tag))
	_, err := hooked("close", 0)
	l.closed = true
	for _, c := range l.queue {
		c.Reset()
	}
	if err != nil {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: err}
	}
	return nil
}

func (l *TCPListener) Addr() net.Addr                { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error { l.dl.put(t); return nil }
func (l *TCPListener) Closed() bool                  { return l.closed }
func (l *TCPListener) Backlog() int                  { return len(l.queue) }

// Net is the network of an execution.
type Net struct {
	Listeners []*TCPListener
	Conns     []*TCPConn
	// OnDial answers outgoing connections: it returns an error, or takes the remote end.
	OnDial func(addr string) (accept func(remote *TCPConn), err error)
	Dials  []string
	// DialHang makes a dial to an address never be answered.
	DialHang  func(addr string) bool
	Accepted  int
	nextPort  int
	LocalIP   net.IP
	ListenErr error
	// Loop connects dials of LocalIP with the listeners of this network.
	Loop bool
	// Refuse refuses some of them.
	Refuse func(port int) bool
}

var current *Net

func cur() *Net {
	if current == nil {
		Reset()
	}
	return current
}

// Reset starts an execution with an empty network.
func Reset() *Net {
	Hook = nil
	current = &Net{nextPort: 40000, LocalIP: net.IPv4(10, 0, 0, 1).To4()}
	return current
}

func Cur() *Net { return cur() }

func Listen(network, address string) (net.Listener, error) {
	l, err := listen(address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	s := ":0"
	if a != nil {
		s = a.String()
	}
	return listen(s)
}

func listen(address string) (*TCPListener, error) {
	vs.Point("Listen")
	n := cur()
	_, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: errors.New("invalid port")}
	}
	if _, err := hooked("listen", 0); err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", err)}
	}
	if n.ListenErr != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: n.ListenErr}
	}
	if port == 0 {
		n.nextPort++
		port = n.nextPort
	}
	for _, l := range n.Listeners {
		if l.addr.Port == port && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Err: syscall.EADDRINUSE}
		}
	}
	l := &TCPListener{addr: &net.TCPAddr{IP: n.LocalIP, Port: port}}
	n.Listeners = append(n.Listeners, l)
	return l, nil
}

// Connect opens a connection from a remote address to the listener on port;
// nil if nobody listens.
func (n *Net) Connect(ip string, rport, port int) *TCPConn {
	for _, l := range n.Listeners {
		if l.addr.Port == port && !l.closed {
			ipx := net.ParseIP(ip)
			if v4 := ipx.To4(); v4 != nil {
				ipx = v4
			}
			srv, cli := Pair(l.addr, &net.TCPAddr{IP: ipx, Port: rport})
			l.queue = append(l.queue, srv)
			return cli
		}
	}
	return nil
}

func Dial(network, address string) (net.Conn, error) { return dial(context.Background(), address, 0) }

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return dial(context.Background(), address, d)
}

// hang waits until the context ends or the timeout comes.
type hang struct {
	ctx   context.Context
	fired bool
}

func (h *hang) Fire()         { h.fired = true }
func (h *hang) Enabled() bool { return h.fired || h.ctx.Err() != nil }

func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(context.Background(), r.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func dial(ctx context.Context, address string, timeout time.Duration) (net.Conn, error) {
	vs.Point("Dial")
	n := cur()
	fail := func(e error) error { return &net.OpError{Op: "dial", Net: "tcp", Err: e} }
	if err := ctx.Err(); err != nil {
		return nil, fail(err)
	}
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, fail(err)
	}
	port, err := strconv.Atoi(p)
	if err != nil || port < 0 || port > 65535 {
		return nil, fail(errors.New("invalid port"))
	}
	ip := net.ParseIP(h)
	if ip == nil {
		return nil, fail(&net.DNSError{Err: "no such host", Name: h, IsNotFound: true})
	}
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	n.Dials = append(n.Dials, net.JoinHostPort(ip.String(), p))
	if _, err := hooked("dial", 0); err != nil {
		return nil, fail(os.NewSyscallError("socket", err))
	}
	if n.DialHang != nil && n.DialHang(net.JoinHostPort(ip.String(), p)) {
		// the kernel gives up after about two minutes
		if timeout <= 0 || timeout > 127*time.Second {
			timeout = 127 * time.Second
		}
		h := &hang{ctx: ctx}
		t := &vs.Timer{Fire: h}
		t.Arm(vs.NowNano() + int64(timeout))
		vs.Yield(h, "Dial.wait")
		t.Disarm()
		if err := ctx.Err(); err != nil {
			return nil, fail(err)
		}
		return nil, fail(vos.ErrDeadlineExceeded)
	}
	if n.Loop && ip.Equal(n.LocalIP) {
		if n.Refuse != nil && n.Refuse(port) {
			return nil, fail(syscall.ECONNREFUSED)
		}
		n.nextPort++
		if c := n.Connect(ip.String(), n.nextPort, port); c != nil {
			return c, nil
		}
		return nil, fail(syscall.ECONNREFUSED)
	}
	if n.OnDial == nil {
		return nil, fail(syscall.ECONNREFUSED)
	}
	acc, err := n.OnDial(net.JoinHostPort(ip.String(), p))
	if err != nil {
		return nil, fail(err)
	}
	n.nextPort++
	c, d := Pair(&net.TCPAddr{IP: n.LocalIP, Port: n.nextPort}, &net.TCPAddr{IP: ip, Port: port})
	acc(d)
	return c, nil
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	FallbackDelay   time.Duration
	DualStack       bool
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dial(context.Background(), address, d.limit())
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return dial(ctx, address, d.limit())
}

func (d *Dialer) limit() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		if u := d.Deadline.Sub(vs.Now()); t == 0 || u < t {
			t = max(u, 1)
		}
	}
	return t
}

type ListenConfig struct {
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Control         func(network, address string, c syscall.RawConn) error
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

type pipeAddr struct{}

// Pipe is a pair of connections with loopback addresses.
func Pipe() (net.Conn, net.Conn) {
	a, b := Pair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: 1}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: 2})
	return a, b
}

func LookupHost(host string) ([]string, error) {
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}
func LookupIP(host string) ([]net.IP, error) {
	if ip := net.ParseIP(host); ip != nil {
		return []net.IP{ip}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
}
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	h, p, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	port, err := strconv.Atoi(p)
	if err != nil {
		return nil, err
	}
	ip := net.ParseIP(h)
	if h != "" && ip == nil {
		return nil, &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}
	}
	return &net.TCPAddr{IP: ip, Port: port}, nil
}
