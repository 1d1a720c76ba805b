// The checks of the HTTP tracker (package pex).
package main

import (
	"encoding/binary"
	"fmt"
	"net/http"
	"net/netip"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/pex"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func main() { mc.Main() }

var hashes = [3][20]byte{{1, 2, 0, 0xff, '&', '%', ' ', '+', 'x'}, {2, 2}, {9, 9, 9}} // the last one is not served

// client is a peer that announces itself.
type client struct {
	remote string // address of the connection
	ipArg  string
	port   string
	id     string
}

func (c client) ip() netip.Addr {
	s := c.ipArg
	if s == "" {
		ap, err := netip.ParseAddrPort(c.remote)
		if err != nil {
			return netip.Addr{}
		}
		return ap.Addr().Unmap()
	}
	a, _ := netip.ParseAddr(s)
	return a.Unmap()
}

func id20(s string) string { return (s + "--------------------")[:20] }

var clients = []client{
	{"10.0.0.1:5000", "", "7001", id20("a")},
	{"10.0.0.1:5001", "", "7002", id20("b")},                   // the same address, another port
	{"10.0.0.1:5002", "", "7001", id20("c")},                   // the first one restarted with another id
	{"[2001:db8::1]:5003", "", "7001", id20("d")},              // IPv6
	{"10.0.0.9:5004", "10.0.0.2", "65535", id20("e\x00\xff&")}, // says its address
	{"10.0.0.9:5005", "::ffff:10.0.0.1", "7001", id20("a")},    // the first one, written differently
	{"10.0.0.9:5006", "2001:DB8:0:0::1", "7001", id20("d")},    // the fourth one, written differently
	{"[::ffff:10.0.0.3]:5007", "", "256", id20("f")},
}

// op is an announcement, or time that passes.
type op struct {
	c       int
	torrent int
	event   string
	compact bool
	sleep   time.Duration
}

func (o op) String() string {
	if o.sleep > 0 {
		return fmt.Sprint("wait ", o.sleep)
	}
	s := fmt.Sprintf("client %d", o.c)
	if o.event != "" {
		s += " " + o.event
	}
	if o.torrent > 0 {
		s += fmt.Sprintf(" torrent %d", o.torrent)
	}
	if o.compact {
		s += " compact"
	}
	return s
}

// recorder takes a response.
type recorder struct {
	h    http.Header
	code int
	body []byte
}

func (r *recorder) Header() http.Header {
	if r.h == nil {
		r.h = http.Header{}
	}
	return r.h
}
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(p []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, p...)
	return len(p), nil
}

func query(c client, hash [20]byte, event string, compact bool) string {
	v := url.Values{}
	v.Set("info_hash", string(hash[:]))
	v.Set("peer_id", c.id)
	v.Set("port", c.port)
	v.Set("uploaded", "0")
	v.Set("downloaded", "0")
	v.Set("left", "1")
	if c.ipArg != "" {
		v.Set("ip", c.ipArg)
	}
	if event != "" {
		v.Set("event", event)
	}
	if compact {
		v.Set("compact", "1")
	}
	return v.Encode()
}

func ask(h *pex.HTTP, remote, raw string) *recorder {
	rw := &recorder{}
	req := &http.Request{Method: "GET", URL: &url.URL{Scheme: "http", Host: "t", Path: "/announce", RawQuery: raw}, RemoteAddr: remote, Header: http.Header{}}
	h.ServeHTTP(rw, req)
	if rw.code == 0 {
		rw.code = 200
	}
	return rw
}

// ---- the harness' own reader of responses

type dict map[string]any

func parse(b []byte) (v any, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	p := 0
	var val func() any
	str := func() string {
		i := p
		for b[p] != ':' {
			p++
		}
		n, err := strconv.Atoi(string(b[i:p]))
		if err != nil || n < 0 {
			panic("length")
		}
		p += 1 + n
		return string(b[p-n : p])
	}
	val = func() any {
		switch b[p] {
		case 'i':
			i := p + 1
			for b[p] != 'e' {
				p++
			}
			n, err := strconv.ParseInt(string(b[i:p]), 10, 64)
			if err != nil {
				panic("int")
			}
			p++
			return n
		case 'l':
			p++
			out := []any{}
			for b[p] != 'e' {
				out = append(out, val())
			}
			p++
			return out
		case 'd':
			p++
			out := dict{}
			last := ""
			for b[p] != 'e' {
				k := str()
				if k <= last && len(out) > 0 {
					panic("order")
				}
				last = k
				out[k] = val()
			}
			p++
			return out
		}
		return str()
	}
	v = val()
	return v, p == len(b)
}

// listing turns a response into sorted "ip:port" or "ip:port id" strings.
func listing(rw *recorder, compact bool) (out []string, reason string, bad string) {
	if rw.code >= 500 {
		return nil, "", fmt.Sprintf("status %d", rw.code)
	}
	v, ok := parse(rw.body)
	d, isDict := v.(dict)
	if !ok || !isDict {
		return nil, "", fmt.Sprintf("status %d, malformed body %q", rw.code, rw.body)
	}
	if f, ok := d["failure reason"].(string); ok {
		return nil, f, ""
	}
	if iv, ok := d["interval"].(int64); !ok || iv <= 0 || iv > 60 {
		// peers that are silent for a minute are not listed
		return nil, "", fmt.Sprintf("the interval is %v in %q", d["interval"], rw.body)
	}
	if compact {
		s, ok := d["peers"].(string)
		if !ok || len(s)%6 != 0 {
			return nil, "", fmt.Sprintf("compact peers are %q", d["peers"])
		}
		for i := 0; i < len(s); i += 6 {
			a := netip.AddrFrom4([4]byte([]byte(s[i : i+4])))
			out = append(out, netip.AddrPortFrom(a, binary.BigEndian.Uint16([]byte(s[i+4:i+6]))).String())
		}
	} else {
		l, ok := d["peers"].([]any)
		if !ok {
			return nil, "", fmt.Sprintf("peers are %q", d["peers"])
		}
		for _, x := range l {
			p, _ := x.(dict)
			ip, ok1 := p["ip"].(string)
			id, ok2 := p["peer id"].(string)
			port, ok3 := p["port"].(int64)
			a, err := netip.ParseAddr(ip)
			if !ok1 || !ok2 || !ok3 || err != nil || port < 1 || port > 65535 {
				return nil, "", fmt.Sprintf("a peer is %v", x)
			}
			out = append(out, netip.AddrPortFrom(a.Unmap(), uint16(port)).String()+" "+id)
		}
	}
	sort.Strings(out)
	return out, "", ""
}

// ---- the model

type entry struct {
	ip    netip.Addr
	port  uint16
	id    string
	at    time.Duration
	event string
}

type model map[int]map[netip.AddrPort]entry

func (m model) announce(o op, now time.Duration) {
	c := clients[o.c]
	port, _ := strconv.Atoi(c.port)
	k := netip.AddrPortFrom(c.ip(), uint16(port))
	if m[o.torrent] == nil {
		m[o.torrent] = map[netip.AddrPort]entry{}
	}
	m[o.torrent][k] = entry{c.ip(), uint16(port), c.id, now, o.event}
}

// expect lists who must be in the response, and who may be.
func (m model) expect(o op, now time.Duration) (must, may []string) {
	c := clients[o.c]
	port, _ := strconv.Atoi(c.port)
	self := netip.AddrPortFrom(c.ip(), uint16(port))
	for k, e := range m[o.torrent] {
		if k == self || e.event == "stopped" || now-e.at > time.Minute || o.compact && !e.ip.Is4() {
			continue
		}
		s := k.String()
		if !o.compact {
			s += " " + e.id
		}
		may = append(may, s)
		if now-e.at < time.Minute {
			must = append(must, s)
		}
	}
	sort.Strings(must)
	sort.Strings(may)
	return
}

func (m model) clone() model {
	out := model{}
	for t, x := range m {
		out[t] = map[netip.AddrPort]entry{}
		for k, e := range x {
			out[t][k] = e
		}
	}
	return out
}

// judge compares a response with what the model expects.
func (m model) judge(o op, rw *recorder, now time.Duration) string {
	got, reason, bad := listing(rw, o.compact)
	if bad != "" {
		return bad
	}
	if o.torrent == 2 {
		if reason == "" {
			return fmt.Sprintf("a torrent that is not tracked is answered %q", rw.body)
		}
		return ""
	}
	if reason != "" {
		return "failure reason " + reason
	}
	must, may := m.expect(o, now)
	in := func(s string, l []string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	for i, s := range got {
		if i > 0 && got[i-1] == s {
			return fmt.Sprintf("%q is listed twice", s)
		}
		if !in(s, may) {
			return fmt.Sprintf("lists %q, of which only %q are peers", got, may)
		}
	}
	for _, s := range must {
		if !in(s, got) {
			return fmt.Sprintf("lists %q instead of %q", got, must)
		}
	}
	return ""
}

func newTracker() *pex.HTTP {
	var infos []*metainfo.Info
	for _, h := range hashes[:2] {
		infos = append(infos, &metainfo.Info{Name: "x", SHA1: h})
	}
	return pex.NewHTTP(infos)
}

func do(h *pex.HTTP, o op) *recorder {
	return ask(h, clients[o.c].remote, query(clients[o.c], hashes[o.torrent], o.event, o.compact))
}

// size counts what is kept in maps and slices reachable from v.
func size(v reflect.Value, seen map[uintptr]bool) (n int) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		return size(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		return size(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += size(v.Field(i), seen)
		}
	case reflect.Map:
		n = v.Len()
		for _, k := range v.MapKeys() {
			n += size(v.MapIndex(k), seen)
		}
	case reflect.Slice:
		n = v.Len()
		for i := 0; i < v.Len(); i++ {
			n += size(v.Index(i), seen)
		}
	}
	return
}

func play(ops []op) {
	vs.Mute(true)
	h := newTracker()
	m := model{}
	vs.Quiesce()
	empty := size(reflect.ValueOf(h), map[uintptr]bool{})
	for i, o := range ops {
		if o.sleep > 0 {
			vs.Sleep(o.sleep)
			vs.Quiesce()
			continue
		}
		now := vs.Elapsed()
		if o.torrent < 2 {
			m.announce(o, now)
		}
		rw := do(h, o)
		if s := m.judge(o, rw, now); s != "" {
			vs.Failf("after %v: %s", ops[:i+1], s)
			return
		}
	}
	vs.Sleep(3 * time.Minute)
	vs.Quiesce()
	if n := size(reflect.ValueOf(h), map[uintptr]bool{}); n > empty {
		vs.Failf("after %v: three minutes later %d peers are kept", ops, n-empty)
	}
}

func sequences(e *mc.Enum) {
	var all []op
	for c := range clients {
		for _, ev := range []string{"started", "stopped"} {
			all = append(all, op{c: c, event: ev, compact: c%2 == 0})
		}
	}
	all = append(all, op{c: 0, compact: true}, op{c: 1}, op{c: 3, event: "completed"}, op{c: 3, compact: true}, op{c: 0, torrent: 1}, op{c: 1, torrent: 1, event: "stopped", compact: true}, op{c: 0, torrent: 2})
	all = append(all, op{sleep: 29 * time.Second}, op{sleep: 60 * time.Second}, op{sleep: 61 * time.Second})
	run := func(ops []op) {
		if !e.Stopped() {
			e.Casef(func() { e.Sched(vs.Config{}, func() { play(ops) }) }, "%v", ops)
		}
	}
	ask := []op{{c: 4}, {c: 4, compact: true}}
	var rec func(ops []op, n int)
	rec = func(ops []op, n int) {
		if len(ops) > 0 {
			run(append(append([]op{}, ops...), ask...))
		}
		if n == 0 || e.Stopped() {
			return
		}
		for _, o := range all {
			rec(append(append([]op{}, ops...), o), n-1)
		}
	}
	rec(nil, mc.Pick(3, 5))
}

// requests: what is not well-formed is refused and leaves nothing behind.
func requests(e *mc.Enum) {
	good := query(clients[0], hashes[0], "started", false)
	bad := []struct{ remote, raw string }{
		{"10.0.0.1:1", ""}, {"10.0.0.1:1", "%"}, {"10.0.0.1:1", "%zz=1"}, {"10.0.0.1:1", "a;b"}, {"10.0.0.1:1", strings.Replace(good, "info_hash", "info_hask", 1)},
		{"", good}, {"10.0.0.1", good}, {"nonsense:1", good}, {"@", good}, {":1", good},
	}
	set := func(k, v string) {
		q, _ := url.ParseQuery(good)
		q.Set(k, v)
		bad = append(bad, struct{ remote, raw string }{"10.0.0.1:1", q.Encode()})
	}
	for _, v := range []string{"", "0", "-1", "65536", "65537", "4294967297", "18446744073709551617", "x", "1x", " 1", "1e3", "0x10"} {
		set("port", v)
	}
	for _, v := range []string{"x", "1.2.3", "1.2.3.4.5", "1.2.3.4:5", "256.1.1.1", "localhost", "::1%lo", "[::1]"} {
		set("ip", v)
	}
	for _, v := range []string{"short", "", string(hashes[2][:]), string(hashes[0][:19]), string(hashes[0][:]) + "x"} {
		set("info_hash", v)
	}
	for _, v := range []string{"short", id20("x") + "y"} {
		set("peer_id", v)
	}
	for _, k := range []string{"uploaded", "downloaded", "left"} {
		for _, v := range []string{"x", "9223372036854775808", "1.5"} {
			set(k, v)
		}
	}
	for i := range bad {
		for j := range bad {
			if j != i && !mc.Thorough && j%7 != 0 {
				continue
			}
			if e.Stopped() {
				return
			}
			e.Casef(func() {
				e.Sched(vs.Config{}, func() {
					vs.Mute(true)
					h := newTracker()
					m := model{}
					o := op{c: 1}
					m.announce(o, vs.Elapsed())
					do(h, o)
					for _, k := range []int{i, j} {
						rw := ask(h, bad[k].remote, bad[k].raw)
						if _, reason, s := listing(rw, false); s == "" && reason == "" {
							vs.Failf("the request %q from %q is answered %q", bad[k].raw, bad[k].remote, rw.body)
						} else if rw.code >= 500 {
							vs.Failf("the request %q from %q: status %d", bad[k].raw, bad[k].remote, rw.code)
						}
					}
					for _, o := range []op{{c: 4}, {c: 7, compact: true}} {
						m.announce(o, vs.Elapsed())
						if s := m.judge(o, do(h, o), vs.Elapsed()); s != "" {
							vs.Failf("after the requests %q and %q: %s", bad[i].raw, bad[j].raw, s)
						}
					}
				})
			}, "%q from %q, %q from %q", bad[i].raw, bad[i].remote, bad[j].raw, bad[j].remote)
		}
	}
	// what is well-formed, in other ways, is answered
	for _, raw := range []string{good + "&numwant=5&key=x&foo=bar", good + "&compact=0", good + "&event=whatever", strings.Replace(good, "uploaded=0", "uploaded=9223372036854775807", 1)} {
		e.Casef(func() {
			e.Sched(vs.Config{}, func() {
				vs.Mute(true)
				h := newTracker()
				if got, reason, s := listing(ask(h, "10.0.0.1:1", raw), false); s != "" || reason != "" || len(got) > 0 {
					vs.Failf("the request %q is answered %v %s %s", raw, got, reason, s)
				}
			})
		}, "%q", raw)
	}
}

// crowds: as many peers as there may be.
func crowds(e *mc.Enum) {
	for _, n := range []int{1, 49, 50, 51, 200, 300} {
		for _, compact := range []bool{false, true} {
			e.Casef(func() {
				e.Sched(vs.Config{}, func() {
					vs.Mute(true)
					h := newTracker()
					want := map[string]bool{}
					for k := 0; k < n; k++ {
						c := client{fmt.Sprintf("10.1.%d.%d:1", k/200, k%200+1), "", fmt.Sprint(1000 + k), id20(fmt.Sprint("p", k))}
						ask(h, c.remote, query(c, hashes[0], "started", compact))
						s := fmt.Sprintf("10.1.%d.%d:%d", k/200, k%200+1, 1000+k)
						if !compact {
							s += " " + c.id
						}
						want[s] = true
					}
					got, reason, bad := listing(ask(h, "10.0.0.1:1", query(clients[0], hashes[0], "", compact)), compact)
					if reason != "" || bad != "" {
						vs.Failf("%d peers: %s%s", n, reason, bad)
					}
					seen := map[string]bool{}
					for _, s := range got {
						if !want[s] || seen[s] {
							vs.Failf("%d peers: %q is listed", n, s)
						}
						seen[s] = true
					}
					if len(got) != n {
						vs.Failf("%d peers: %d are listed", n, len(got))
					}
				})
			}, "%d peers, compact %v", n, compact)
		}
	}
}

// addresses: every kind of address, told or taken from the connection, is
// listed as it is, and is the one the client itself is not told.
func addresses(e *mc.Enum) {
	ips := []string{"0.0.0.0", "127.0.0.1", "127.255.255.254", "10.0.0.1", "192.168.1.1", "172.16.0.9", "169.254.1.1", "100.64.0.1", "1.2.3.4", "8.8.8.8", "224.0.0.1", "255.255.255.255",
		"::1", "::", "fe80::1", "fc00::7", "2001:db8::ff", "ff02::1", "::ffff:1.2.3.4", "::1.2.3.4", "64:ff9b::1.2.3.4"}
	for _, ip := range ips {
		for _, port := range []string{"1", "80", "1023", "1024", "6881", "32767", "32768", "65535"} {
			for told := 0; told < 3; told++ {
				for _, compact := range []bool{false, true} {
					e.Casef(func() {
						e.Sched(vs.Config{}, func() {
							vs.Mute(true)
							h := newTracker()
							c := client{"10.7.7.7:99", ip, port, id20("x")}
							switch told {
							case 1:
								c = client{netip.AddrPortFrom(netip.MustParseAddr(ip), 5).String(), "", port, id20("x")}
							case 2:
								c.remote = "[2001:db8::77]:99"
							}
							a := c.ip()
							if _, reason, bad := listing(ask(h, c.remote, query(c, hashes[0], "started", compact)), compact); reason != "" || bad != "" {
								vs.Failf("%+v: %s%s", c, reason, bad)
							}
							e.State(fmt.Sprint(c))
							e.Trans(3)
							var want []string
							if !compact {
								want = []string{fmt.Sprintf("%s %s", netip.AddrPortFrom(a, portOf(port)), c.id)}
							} else if a.Is4() {
								want = []string{fmt.Sprintf("%s:%s", a, port)}
							}
							got, reason, bad := listing(ask(h, "10.0.0.200:1", query(client{"10.0.0.200:1", "", "7", id20("y")}, hashes[0], "started", compact)), compact)
							if reason != "" || bad != "" || fmt.Sprint(got) != fmt.Sprint(want) {
								vs.Failf("%+v is listed as %q (%s%s), want %q", c, got, reason, bad, want)
							}
							got, _, _ = listing(ask(h, c.remote, query(c, hashes[0], "", compact)), compact)
							for _, g := range got {
								if len(want) > 0 && g == want[0] {
									vs.Failf("%+v is told its own address", c)
								}
							}
							if len(got) != 1 {
								vs.Failf("%+v is told of %q", c, got)
							}
						})
					}, "%s port %s told %d compact %v", ip, port, told, compact)
				}
			}
		}
	}
}

func portOf(s string) uint16 {
	n, _ := strconv.Atoi(s)
	return uint16(n)
}

// ---- C37: concurrent announcements

type done struct {
	o        op
	rw       *recorder
	from, to int
	now      time.Duration
}

// explained tells whether some order of the operations, one after the other, explains the responses.
func explained(base model, ops []*done, now time.Duration) string {
	n := len(ops)
	why := ""
	var rec func(m model, left int) bool
	rec = func(m model, left int) bool {
		if left == 0 {
			return true
		}
		for i := 0; i < n; i++ {
			if left>>i&1 == 0 {
				continue
			}
			first := true
			for j := 0; j < n; j++ {
				if left>>j&1 == 1 && j != i && ops[j].to < ops[i].from {
					first = false
				}
			}
			if !first {
				continue
			}
			x := m.clone()
			x.announce(ops[i].o, now)
			if s := x.judge(ops[i].o, ops[i].rw, now); s != "" {
				why = fmt.Sprintf("%v: %s", ops[i].o, s)
				continue
			}
			if rec(x, left&^(1<<i)) {
				return true
			}
		}
		return false
	}
	if rec(base, 1<<n-1) {
		return ""
	}
	return why
}

func concurrent() {
	menu := []op{{c: 0, event: "started"}, {c: 0, event: "stopped"}, {c: 1, compact: true}, {c: 2, event: "started"}, {c: 3, event: "started", compact: true}, {c: 0, torrent: 1}}
	progs := [][]op{}
	for i := 0; i < 2; i++ {
		a := vs.ChooseFree(len(menu), "op")
		if i == 1 && !mc.Thorough {
			progs = append(progs, []op{menu[a]})
			break
		}
		b := vs.ChooseFree(len(menu), "op")
		progs = append(progs, []op{menu[a], menu[b]})
	}
	old := vs.ChooseFree(2, "expiring") == 1
	progs = append(progs, []op{{c: 4}})
	vs.Mute(true)
	h := newTracker()
	vs.Quiesce()
	m := model{}
	if old {
		o := op{c: 7, event: "started"}
		m.announce(o, vs.Elapsed())
		do(h, o)
		vs.Sleep(2*time.Minute - time.Nanosecond)
	} else {
		vs.Sleep(time.Minute - time.Second)
		o := op{c: 7, event: "started"}
		m.announce(o, vs.Elapsed())
		do(h, o)
		vs.Sleep(time.Second - time.Nanosecond)
	}
	vs.Mute(false)
	vs.Sleep(time.Nanosecond) // the cleaner wakes up now, too
	now := vs.Elapsed()
	var all []*done
	var ts []*vs.Thread
	for _, p := range progs {
		var mine []*done
		for _, o := range p {
			d := &done{o: o}
			mine = append(mine, d)
			all = append(all, d)
		}
		ts = append(ts, vs.GoNamed("client", func() {
			for _, d := range mine {
				d.from = vs.Steps()
				d.rw = do(h, d.o)
				d.to = vs.Steps()
			}
		}))
	}
	vs.Join(ts...)
	if s := explained(m, all, now); s != "" {
		vs.Failf("no order of the announcements explains the responses: %s", s)
	}
	// what is left
	vs.Mute(true)
	vs.Quiesce()
	o := op{c: 6}
	last := &done{o: o, from: vs.Steps(), to: vs.Steps() + 1, rw: do(h, o)}
	if s := explained(m, append(all, last), now); s != "" {
		vs.Failf("no order of the announcements explains what is listed in the end: %s", s)
	}
}

func init() {
	mc.Register(&mc.Check{
		ID:          "C36",
		Explain:     "every sequence of up to three (thorough: five) operations out of 26 (announcements of eight clients with colliding and differently written addresses, two torrents, four events, both forms, and waits around the expiry), each followed by one client asking in both forms, against a model; every malformed value of each parameter, in pairs; crowds of up to 300; 21 addresses of every kind and eight ports, told or taken from the connection",
		Assumptions: []string{"HTTP parsing and the listening socket are not part of it: ServeHTTP is called directly"},
		Units: []mc.Unit{
			{Name: "sequences", Enum: sequences, Weight: 3},
			{Name: "requests", Enum: requests},
			{Name: "crowds", Enum: crowds},
			{Name: "addresses", Enum: addresses},
		},
	})
	mc.Register(&mc.Check{
		ID: "C37", QuickSecs: 40,
		Explain:     "every pair (thorough: two pairs) of announcements out of six against a third client while the cleaner wakes, with an entry expiring or not, under all schedules within the bound; the responses must be explained by an order that respects what had been answered before",
		Assumptions: []string{"HTTP parsing and the listening socket are not part of it: ServeHTTP is called directly"},
		Units: []mc.Unit{
			{Name: "announcements", Bound: 2, BoundT: 3, Weight: 3, Body: concurrent},
			{Name: "announcements race", Bound: 1, BoundT: 2, Race: true, Body: concurrent},
		},
	})
}
