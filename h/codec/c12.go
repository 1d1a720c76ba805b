package main

import (
	"fmt"
	"math"
	"net/url"
	"reflect"
	"strings"

	"github.com/browles/drip/api/magnet"
	"github.com/browles/drip/api/tracker"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C12",
		Units: []mc.Unit{
			{Name: "round-trip", Enum: queryRoundTrip, Weight: 2},
			{Name: "bytes", Enum: queryBytes},
			{Name: "malformed", Enum: queryMalformed},
		},
		Explain: "every combination of field values from a table, every byte value at every position of the two hashes, every malformed or foreign form of each parameter; the query is read with a parser of its own and decoded again",
	})
	mc.Register(&mc.Check{
		ID: "C13",
		Units: []mc.Unit{
			{Name: "responses", Enum: respRoundTrip, Weight: 2},
			{Name: "compact", Enum: compactPeers, Weight: 2},
			{Name: "lists", Enum: peerLists, Weight: 2},
			{Name: "unencodable", Enum: peersUnencodable, Weight: 0.5},
			{Name: "used", Enum: usedPeers, Weight: 0.2},
		},
		Explain: "every combination of response fields from a table, every short list of peers of a small alphabet in both forms, every length of a compact string, every malformed peer entry, pairs of lists decoded one after the other into the same place; compared with the reference encoder",
	})
	mc.Register(&mc.Check{
		ID: "C14",
		Units: []mc.Unit{
			{Name: "combinations", Enum: magnetCombos, Weight: 2},
			{Name: "bytes", Enum: magnetBytes},
			{Name: "lengths", Enum: magnetLengths},
			{Name: "many", Enum: magnetMany},
		},
		Explain: "every selection and order of parameters from a table, every byte value in every text parameter under every form of escaping, every form of the length, up to forty trackers and peers, repeated ones too",
	})
}

// ------------------------------------------------------------- C12

// refQuery reads a query string without the library.
func refQuery(q string) (map[string]string, error) {
	m := map[string]string{}
	if q == "" {
		return m, nil
	}
	for _, kv := range strings.Split(q, "&") {
		k, v, ok := strings.Cut(kv, "=")
		if !ok {
			return nil, fmt.Errorf("no = in %q", kv)
		}
		uk, err := refUnescape(k)
		if err != nil {
			return nil, err
		}
		uv, err := refUnescape(v)
		if err != nil {
			return nil, err
		}
		if _, ok := m[uk]; ok {
			return nil, fmt.Errorf("%q twice", uk)
		}
		m[uk] = uv
	}
	return m, nil
}

func refUnescape(s string) (string, error) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '+':
			b = append(b, ' ')
		case c == '%':
			if i+2 >= len(s) {
				return "", fmt.Errorf("short escape in %q", s)
			}
			h := strings.IndexByte("0123456789abcdef", s[i+1]|0x20)
			l := strings.IndexByte("0123456789abcdef", s[i+2]|0x20)
			if s[i+1] <= '9' {
				h = strings.IndexByte("0123456789", s[i+1])
			}
			if s[i+2] <= '9' {
				l = strings.IndexByte("0123456789", s[i+2])
			}
			if h < 0 || l < 0 {
				return "", fmt.Errorf("bad escape in %q", s)
			}
			b = append(b, byte(h<<4|l))
			i += 2
		case c <= ' ' || c >= 0x7f || c == '&' || c == '#' || c == ';' || c == '=':
			return "", fmt.Errorf("%q is not escaped in %q", c, s)
		default:
			b = append(b, c)
		}
	}
	return string(b), nil
}

func checkQuery(e *mc.Enum, r tracker.Request) {
	q := r.Encode()
	m, err := refQuery(q)
	if err != nil {
		e.Failf("the query %q is malformed: %v", q, err)
		return
	}
	want := map[string]string{
		"info_hash":  string(r.InfoHash[:]),
		"peer_id":    string(r.PeerID[:]),
		"port":       fmt.Sprint(r.Port),
		"uploaded":   fmt.Sprint(r.Uploaded),
		"downloaded": fmt.Sprint(r.Downloaded),
		"left":       fmt.Sprint(r.Left),
		"compact":    map[bool]string{false: "0", true: "1"}[r.Compact],
	}
	if r.IP != "" {
		want["ip"] = r.IP
	}
	if r.Event != "" {
		want["event"] = r.Event
	}
	if !reflect.DeepEqual(m, want) {
		e.Failf("the query of %+v says %q, want %q", r, m, want)
		return
	}
	var got tracker.Request
	if err := got.Decode(q); err != nil || got != r {
		e.Failf("%q decodes to %+v, %v, want %+v", q, got, err, r)
	}
}

func queryRoundTrip(e *mc.Enum) {
	vs.MapOrder = 0
	var h [20]byte
	copy(h[:], "\x00\xff&=%+ #\n;?/abcdeff2")
	for _, ih := range [][20]byte{{}, h} {
		for _, id := range [][20]byte{{}, h} {
			for _, ip := range []string{"", "1.2.3.4", "::1", "a b&c=d"} {
				for _, port := range []int{0, 1, 6881, 65535, 65536, -1, math.MaxInt64} {
					for _, up := range []int64{0, 1, math.MaxInt64, -1} {
						for _, down := range []int64{0, 1 << 40, math.MaxInt64} {
							for _, left := range []int64{0, 5, math.MaxInt64, math.MinInt64} {
								for _, ev := range []string{"", "started", "stopped", "completed"} {
									for _, c := range []bool{false, true} {
										if e.Stopped() {
											return
										}
										if !e.Mine() {
											continue
										}
										r := tracker.Request{InfoHash: ih, PeerID: id, IP: ip, Port: port, Uploaded: up, Downloaded: down, Left: left, Event: ev, Compact: c}
										e.Run([]byte(fmt.Sprintf("%+v", r)), func() {
											e.State(fmt.Sprint(r))
											e.Trans(1)
											checkQuery(e, r)
										})
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func queryBytes(e *mc.Enum) {
	vs.MapOrder = 0
	for pos := 0; pos < 20; pos++ {
		for v := 0; v < 256; v++ {
			e.Casef(func() {
				e.State(fmt.Sprint(pos, v))
				e.Trans(2)
				r := tracker.Request{Port: 1}
				copy(r.InfoHash[:], "aaaaaaaaaaaaaaaaaaaa")
				copy(r.PeerID[:], "bbbbbbbbbbbbbbbbbbbb")
				r.InfoHash[pos] = byte(v)
				r.PeerID[19-pos] = byte(v)
				checkQuery(e, r)
				r.PeerID[(pos+1)%20] = byte(v)
				r.InfoHash[(pos+1)%20] = byte(255 - v)
				checkQuery(e, r)
				r = tracker.Request{IP: "x" + string(rune(v)) + "y", Event: string([]byte{byte(v)}), Port: 7}
				checkQuery(e, r)
			}, "byte %d at %d", v, pos)
		}
	}
}

func queryMalformed(e *mc.Enum) {
	vs.MapOrder = 0
	hash := strings.Repeat("h", 20)
	num := []struct {
		s  string
		ok bool
	}{{"0", true}, {"17", true}, {"-5", true}, {"x", false}, {"1x", false}, {"0x10", false}, {"1.5", false}, {"9223372036854775807", true}, {"9223372036854775808", false}, {"%31", true}, {"1_0", false}, {"%20", false}}
	for _, k := range []string{"port", "uploaded", "downloaded", "left"} {
		for _, v := range num {
			e.Casef(func() {
				e.State(k + v.s)
				e.Trans(1)
				q := "info_hash=" + hash + "&peer_id=" + hash + "&" + k + "=" + v.s
				var r tracker.Request
				err := r.Decode(q)
				if (err == nil) != v.ok {
					e.Failf("%q: err = %v", q, err)
				}
				if err == nil {
					u, _ := refUnescape(v.s)
					if got := fmt.Sprint(map[string]int64{"port": int64(r.Port), "uploaded": r.Uploaded, "downloaded": r.Downloaded, "left": r.Left}[k]); got != u {
						e.Failf("%q: %s = %s", q, k, got)
					}
				}
			}, "%s=%s", k, v.s)
		}
	}
	for n := 0; n <= 45; n++ {
		for _, k := range []string{"info_hash", "peer_id"} {
			for _, c := range []string{"z", "%00", "%ff"} {
				e.Casef(func() {
					e.State(fmt.Sprint(k, n, c))
					e.Trans(1)
					q := "port=1&" + k + "=" + strings.Repeat(c, n)
					var r tracker.Request
					err := r.Decode(q)
					if n == 0 {
						return // absent: open
					}
					if (err == nil) != (n == 20) {
						e.Failf("%s of %d bytes: err = %v", k, n, err)
					}
				}, "%s of %d %s", k, n, c)
			}
		}
	}
	for _, q := range []string{"%", "a=%", "info_hash=%zz", "%gg=1", "port=%1", "a=1;b=2"} {
		e.Casef(func() {
			e.State(q)
			var r tracker.Request
			if err := r.Decode(q); err == nil {
				e.Failf("%q decodes to %+v", q, r)
			}
		}, "%q", q)
	}
	// unknown parameters do not matter, nor does the order
	params := []string{"info_hash=" + hash, "peer_id=" + strings.Repeat("p", 20), "port=7", "left=3", "compact=1", "numwant=50", "key=%00%ff", "no_peer_id=1", "event=started"}
	want := tracker.Request{Port: 7, Left: 3, Compact: true, Event: "started"}
	copy(want.InfoHash[:], hash)
	copy(want.PeerID[:], strings.Repeat("p", 20))
	for i := range params {
		for j := range params {
			e.Casef(func() {
				e.State(fmt.Sprint("order", i, j))
				e.Trans(1)
				p := append([]string{}, params...)
				p[i], p[j] = p[j], p[i]
				var r tracker.Request
				if err := r.Decode(strings.Join(p, "&")); err != nil || r != want {
					e.Failf("%q decodes to %+v, %v", strings.Join(p, "&"), r, err)
				}
			}, "order %d %d", i, j)
		}
	}
}

// ------------------------------------------------------------- C13

type refPeer struct {
	id, ip string
	port   int
}

func (p refPeer) n() *N {
	return ndict("peer id", nstr(p.id), "ip", nstr(p.ip), "port", nint(int64(p.port)))
}

func (p refPeer) tp() *tracker.Peer { return &tracker.Peer{ID: p.id, IP: p.ip, Port: p.port} }

func respRoundTrip(e *mc.Enum) {
	vs.MapOrder = 0
	ps := []refPeer{{strings.Repeat("i", 20), "10.0.0.1", 6881}, {"\x00\xff", "host.example", 0}}
	type kv struct {
		k string
		n *N
	}
	type opt struct {
		set func(*tracker.Response)
		kv  *kv
	}
	none := opt{func(*tracker.Response) {}, nil}
	fields := [][]opt{
		{none, {func(r *tracker.Response) { r.FailureReason = "no" }, &kv{"failure reason", nstr("no")}}},
		{{func(r *tracker.Response) {}, &kv{"interval", nint(0)}}, {func(r *tracker.Response) { r.Interval = 1800 }, &kv{"interval", nint(1800)}}, {func(r *tracker.Response) { r.Interval = -1 }, &kv{"interval", nint(-1)}}},
		{none,
			{func(r *tracker.Response) { r.Peers = &tracker.Peers{} }, &kv{"peers", nlist()}},
			{func(r *tracker.Response) { r.Peers = &tracker.Peers{Compact: true} }, &kv{"peers", nstr("")}},
			{func(r *tracker.Response) {
				r.Peers = &tracker.Peers{List: []*tracker.Peer{ps[0].tp(), ps[1].tp()}}
			}, &kv{"peers", nlist(ps[0].n(), ps[1].n())}},
			{func(r *tracker.Response) {
				r.Peers = &tracker.Peers{Compact: true, List: []*tracker.Peer{{IP: "10.0.0.1", Port: 6881}}}
			}, &kv{"peers", nstr("\x0a\x00\x00\x01\x1a\xe1")}},
		},
		{none, {func(r *tracker.Response) { r.WarningReason = "w" }, &kv{"warning reason", nstr("w")}}},
		{none, {func(r *tracker.Response) { r.MinInterval = 60 }, &kv{"min interval", nint(60)}}},
		{none, {func(r *tracker.Response) { r.TrackerID = "tid\xff" }, &kv{"tracker id", nstr("tid\xff")}}},
		{none, {func(r *tracker.Response) { r.Complete = 3 }, &kv{"complete", nint(3)}}},
		{none, {func(r *tracker.Response) { r.Incomplete = 9 }, &kv{"incomplete", nint(9)}}},
		{none, {func(r *tracker.Response) {}, &kv{"peers6", nstr("xxxxxxxxxxxxxxxxxx")}}}, // a key of others
	}
	var rec func(f int, idx []int)
	rec = func(f int, idx []int) {
		if e.Stopped() {
			return
		}
		if f < len(fields) {
			for k := range fields[f] {
				rec(f+1, append(idx, k))
			}
			return
		}
		if !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprint(idx)), func() {
			var r tracker.Response
			var kvs []any
			for f, k := range idx {
				o := fields[f][k]
				o.set(&r)
				if o.kv != nil {
					kvs = append(kvs, o.kv.k, o.kv.n)
				}
			}
			doc := ndict(kvs...).enc()
			e.State(doc)
			e.Trans(1)
			if idx[len(idx)-1] == 0 {
				if b, err := bencode.Marshal(&r); err != nil || string(b) != doc {
					e.Failf("encodes to %q, %v, want %q", b, err, doc)
					return
				}
			}
			var got tracker.Response
			if err := bencode.Unmarshal([]byte(doc), &got); err != nil {
				e.Failf("%q does not decode: %v", doc, err)
				return
			}
			if !sameResponse(&got, &r) {
				e.Failf("%q decodes to %+v (peers %s), want %+v (peers %s)", doc, got, showPeers(got.Peers), r, showPeers(r.Peers))
			}
		})
	}
	rec(0, nil)
}

func sameResponse(a, b *tracker.Response) bool {
	x, y := *a, *b
	x.Peers, y.Peers = nil, nil
	return x == y && samePeers(a.Peers, b.Peers)
}

func samePeers(a, b *tracker.Peers) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if a.Compact != b.Compact || len(a.List) != len(b.List) {
		return false
	}
	for i := range a.List {
		if *a.List[i] != *b.List[i] {
			return false
		}
	}
	return true
}

func showPeers(p *tracker.Peers) string {
	if p == nil {
		return "nil"
	}
	s := fmt.Sprintf("compact=%v", p.Compact)
	for _, x := range p.List {
		s += fmt.Sprintf(" %+v", *x)
	}
	return s
}

func compactPeers(e *mc.Enum) {
	vs.MapOrder = 0
	ips := [][4]byte{{0, 0, 0, 0}, {1, 2, 3, 4}, {255, 255, 255, 255}, {10, 0, 128, 1}, {127, 0, 0, 1}}
	ports := []int{0, 1, 255, 256, 6881, 32768, 65535}
	type ent struct {
		ip   [4]byte
		port int
	}
	var ents []ent
	for _, ip := range ips {
		for _, p := range ports {
			ents = append(ents, ent{ip, p})
		}
	}
	var rec func(l []ent)
	rec = func(l []ent) {
		if e.Stopped() {
			return
		}
		if e.Mine() {
			e.Run([]byte(fmt.Sprint(l)), func() {
				var raw []byte
				p := &tracker.Peers{Compact: true}
				for _, x := range l {
					raw = append(append(raw, x.ip[:]...), byte(x.port>>8), byte(x.port))
					p.List = append(p.List, &tracker.Peer{IP: fmt.Sprintf("%d.%d.%d.%d", x.ip[0], x.ip[1], x.ip[2], x.ip[3]), Port: x.port})
				}
				doc := nstr(string(raw)).enc()
				e.State(doc)
				e.Trans(len(l))
				if b, err := bencode.Marshal(p); err != nil || string(b) != doc {
					e.Failf("%s encodes to %q, %v, want %q", showPeers(p), b, err, doc)
				}
				var got tracker.Peers
				if err := bencode.Unmarshal([]byte(doc), &got); err != nil || !samePeers(&got, p) {
					e.Failf("%q decodes to %s, %v, want %s", doc, showPeers(&got), err, showPeers(p))
				}
			})
		}
		if len(l) == mc.Pick(3, 4) {
			return
		}
		for _, x := range ents {
			rec(append(l[:len(l):len(l)], x))
		}
	}
	rec(nil)
	for n := 0; n <= 100; n++ {
		e.Casef(func() {
			e.State(fmt.Sprint("len", n))
			var got tracker.Peers
			s := pattern(n, 2)
			err := bencode.Unmarshal([]byte(nstr(s).enc()), &got)
			if (err == nil) != (n%6 == 0) {
				e.Failf("a compact string of %d bytes: %v", n, err)
			} else if err == nil && len(got.List) != n/6 {
				e.Failf("a compact string of %d bytes gives %d peers", n, len(got.List))
			}
			for i, p := range got.List {
				if err == nil && (p.IP != fmt.Sprintf("%d.%d.%d.%d", s[6*i], s[6*i+1], s[6*i+2], s[6*i+3]) || p.Port != int(s[6*i+4])<<8|int(s[6*i+5])) {
					e.Failf("entry %d of a compact string is %+v", i, *p)
				}
			}
		}, "compact string of %d bytes", n)
	}
	for v := 0; v < 65536; v += 1 {
		e.Casef(func() {
			e.State(fmt.Sprint("port", v))
			raw := []byte{9, 8, 7, 6, byte(v >> 8), byte(v)}
			p := &tracker.Peers{Compact: true, List: []*tracker.Peer{{IP: "9.8.7.6", Port: v}}}
			if b, err := bencode.Marshal(p); err != nil || string(b) != "6:"+string(raw) {
				e.Failf("port %d encodes to %q, %v", v, b, err)
			}
			var got tracker.Peers
			if err := bencode.Unmarshal([]byte("6:"+string(raw)), &got); err != nil || !samePeers(&got, p) {
				e.Failf("port %d decodes to %s, %v", v, showPeers(&got), err)
			}
		}, "port %d", v)
	}
}

func peerLists(e *mc.Enum) {
	vs.MapOrder = 0
	vals := map[string][]*N{
		"peer id": {nil, nstr(""), nstr(strings.Repeat("p", 20)), nint(1), nlist(), ndict()},
		"ip":      {nil, nstr(""), nstr("1.2.3.4"), nstr("::1"), nstr("host"), nint(1), nlist(nstr("1.2.3.4"))},
		"port":    {nil, nint(0), nint(6881), nint(70000), nint(-1), nstr("6881"), nlist(), nuint(math.MaxUint64)},
	}
	extra := []*N{nil, nint(1)}
	var entries []*N
	okEntry := map[*N]*tracker.Peer{}
	for _, id := range vals["peer id"] {
		for _, ip := range vals["ip"] {
			for _, port := range vals["port"] {
				for _, x := range extra {
					var kv []any
					if id != nil {
						kv = append(kv, "peer id", id)
					}
					if ip != nil {
						kv = append(kv, "ip", ip)
					}
					if port != nil {
						kv = append(kv, "port", port)
					}
					if x != nil {
						kv = append(kv, "extra", x)
					}
					n := ndict(kv...)
					entries = append(entries, n)
					if (id == nil || id.Kind == 's') && ip != nil && ip.Kind == 's' && port != nil && port.Kind == 'i' && port.fitsInt(64) {
						p := &tracker.Peer{IP: ip.Str}
						fmt.Sscan(port.Int, &p.Port)
						if id != nil {
							p.ID = id.Str
						}
						okEntry[n] = p
					}
				}
			}
		}
	}
	for _, n := range []*N{nint(1), nstr("x"), nlist(), ndict(), nlist(ndict("ip", nstr("1.1.1.1"), "port", nint(1)))} {
		entries = append(entries, n)
	}
	good1 := refPeer{"a", "5.6.7.8", 1}
	try := func(l []*N) {
		if e.Stopped() || !e.Mine() {
			return
		}
		doc := nlist(l...).enc()
		e.Run([]byte(doc), func() {
			e.State(doc)
			e.Trans(len(l))
			want := &tracker.Peers{}
			ok := true
			for _, n := range l {
				p := okEntry[n]
				if p == nil {
					ok = false
					break
				}
				want.List = append(want.List, p)
			}
			var got tracker.Peers
			err := bencode.Unmarshal([]byte(doc), &got)
			if (err == nil) != ok {
				e.Failf("%q: err = %v", doc, err)
			} else if ok && !samePeers(&got, want) {
				e.Failf("%q decodes to %s, want %s", doc, showPeers(&got), showPeers(want))
			}
			if ok {
				// and as part of a response, and back
				var r tracker.Response
				if err := bencode.Unmarshal([]byte(ndict("interval", nint(3), "peers", nlist(l...)).enc()), &r); err != nil || !samePeers(r.Peers, want) || r.Interval != 3 {
					e.Failf("a response with %q decodes to %s, %v", doc, showPeers(r.Peers), err)
				}
				var nl []*N
				for _, p := range want.List {
					nl = append(nl, refPeer{p.ID, p.IP, p.Port}.n())
				}
				if b, err := bencode.Marshal(want); err != nil || string(b) != nlist(nl...).enc() {
					e.Failf("%s encodes to %q, %v", showPeers(want), b, err)
				}
			}
		})
	}
	g := good1.n()
	okEntry[g] = good1.tp()
	try(nil)
	for _, n := range entries {
		try([]*N{n})
		try([]*N{g, n})
		try([]*N{n, g})
		try([]*N{g, n, g})
		{
			for _, m := range entries {
				try([]*N{n, m})
			}
		}
	}
	for _, n := range []*N{nint(1), ndict(), ndict("ip", nstr("1.1.1.1"), "port", nint(1))} {
		e.Casef(func() {
			e.State(n.enc())
			var got tracker.Peers
			if err := bencode.Unmarshal([]byte(n.enc()), &got); err == nil {
				e.Failf("%q is accepted as peers", n.enc())
			}
		}, "peers = %s", n.enc())
	}
}

func peersUnencodable(e *mc.Enum) {
	vs.MapOrder = 0
	bad := []*tracker.Peer{{IP: "::1", Port: 1}, {IP: "host", Port: 1}, {IP: "", Port: 1}, {IP: "1.2.3", Port: 1}, {IP: "1.2.3.4", Port: -1}, {IP: "1.2.3.4", Port: 65536}, {IP: "1.2.3.4", Port: 1 << 32}}
	ok := &tracker.Peer{IP: "1.2.3.4", Port: 5}
	for i, b := range bad {
		for _, l := range [][]*tracker.Peer{{b}, {ok, b}, {b, ok}, {ok, b, ok}} {
			e.Casef(func() {
				e.State(fmt.Sprint(i, len(l)))
				e.Trans(1)
				out, err := bencode.Marshal(&tracker.Peers{Compact: true, List: l})
				if err == nil {
					// leaving out what cannot be expressed is fine, inventing another address is not
					var got tracker.Peers
					if bencode.Unmarshal(out, &got) != nil {
						e.Failf("encodes to %q, which does not decode", out)
					}
					for _, p := range got.List {
						if p.IP != ok.IP || p.Port != ok.Port {
							e.Failf("%s encodes to %s", showPeers(&tracker.Peers{Compact: true, List: l}), showPeers(&got))
						}
					}
				}
			}, "bad %d in %d", i, len(l))
		}
	}
}

// ------------------------------------------------------------- C14

func magnetCombos(e *mc.Enum) {
	vs.MapOrder = 0
	params := []struct {
		q   string
		set func(*magnet.Magnet)
	}{
		{"xt=urn:btih:c12fe1c06bba254a9dc9f519b335aa7c1367a88a", func(m *magnet.Magnet) { m.ExactTopic = "urn:btih:c12fe1c06bba254a9dc9f519b335aa7c1367a88a" }},
		{"dn=a+b%26c", func(m *magnet.Magnet) { m.Name = "a b&c" }},
		{"xl=123", func(m *magnet.Magnet) { m.Length = 123 }},
		{"tr=udp%3A%2F%2Fx%3A1%2Fa", func(m *magnet.Magnet) { m.Trackers = append(m.Trackers, "udp://x:1/a") }},
		{"tr=http://y?z%3D1", func(m *magnet.Magnet) { m.Trackers = append(m.Trackers, "http://y?z=1") }},
		{"ws=http://w/%25", func(m *magnet.Magnet) { m.WebSeed = "http://w/%" }},
		{"x.pe=1.2.3.4:5", func(m *magnet.Magnet) { m.Peers = append(m.Peers, "1.2.3.4:5") }},
		{"x.pe=[::1]:6", func(m *magnet.Magnet) { m.Peers = append(m.Peers, "[::1]:6") }},
		{"kt=ignored", func(m *magnet.Magnet) {}},
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if e.Stopped() {
			return
		}
		if e.Mine() {
			var qs []string
			var want magnet.Magnet
			for _, i := range seq {
				qs = append(qs, params[i].q)
				params[i].set(&want)
			}
			link := "magnet:?" + strings.Join(qs, "&")
			e.Run([]byte(link), func() {
				e.State(link)
				e.Trans(len(seq))
				got, err := magnet.ParseMagnetURL(link)
				if err != nil || !reflect.DeepEqual(*got, want) {
					e.Failf("%q gives %+v, %v, want %+v", link, got, err, want)
				}
			})
		}
		if len(seq) == mc.Pick(7, 8) {
			return
		}
	next:
		for i := range params {
			for _, j := range seq {
				if i == j && !strings.HasPrefix(params[i].q, "tr=") && !strings.HasPrefix(params[i].q, "x.pe=") {
					continue next
				}
			}
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)
}

// magnetMany: any number of trackers and peers.
func magnetMany(e *mc.Enum) {
	vs.MapOrder = 0
	for n := 0; n <= 40; n++ {
		for k := 0; k <= 40; k++ {
			for mix := 0; mix < 2; mix++ {
				if e.Stopped() {
					return
				}
				e.Casef(func() {
					e.State(fmt.Sprint(n, k))
					e.Trans(1)
					want := magnet.Magnet{Name: "n"}
					qs := []string{"dn=n"}
					add := func(i int, tr bool) {
						if tr && i < n {
							qs = append(qs, fmt.Sprintf("tr=http://t%d", i))
							want.Trackers = append(want.Trackers, fmt.Sprintf("http://t%d", i))
						}
						if !tr && i < k {
							qs = append(qs, fmt.Sprintf("x.pe=h:%d", i+1))
							want.Peers = append(want.Peers, fmt.Sprintf("h:%d", i+1))
						}
					}
					for i := 0; i < 40; i++ {
						add(i, true)
						if mix == 1 {
							add(i, false)
						}
					}
					for i := 0; i < 40 && mix == 0; i++ {
						add(i, false)
					}
					m, err := magnet.ParseMagnetURL("magnet:?" + strings.Join(qs, "&"))
					if err != nil || !reflect.DeepEqual(*m, want) {
						e.Failf("%d trackers and %d peers give %+v, %v", n, k, m, err)
					}
				}, "%d trackers, %d peers, interleaved %d", n, k, mix)
			}
		}
	}
}

// usedPeers: a response decoded where there was another one.
func usedPeers(e *mc.Enum) {
	vs.MapOrder = 0
	docs := []string{"0:", "6:\x0a\x00\x00\x01\x1a\xe1", "12:\x0a\x00\x00\x01\x1a\xe1\x0a\x00\x00\x02\x00\x01", "le", "ld2:ip8:10.0.0.37:peer id1:x4:porti7eee", "ld2:ip8:10.0.0.34:porti7eed2:ip3:::14:porti8eee"}
	for i, a := range docs {
		for j, b := range docs {
			e.Casef(func() {
				e.State(fmt.Sprint(i, j))
				e.Trans(2)
				var used, want tracker.Peers
				if err := bencode.Unmarshal([]byte(a), &used); err != nil {
					e.Failf("%q: %v", a, err)
				}
				if err := bencode.Unmarshal([]byte(b), &want); err != nil {
					e.Failf("%q: %v", b, err)
				}
				if err := bencode.Unmarshal([]byte(b), &used); err != nil || !samePeers(&used, &want) {
					e.Failf("%q where %q was decoded gives %s, %v, want %s", b, a, showPeers(&used), err, showPeers(&want))
				}
				var r tracker.Response
				for _, x := range []string{a, b} {
					if err := bencode.Unmarshal([]byte("d8:intervali1e5:peers"+x+"e"), &r); err != nil {
						e.Failf("%q: %v", x, err)
					}
				}
				if !samePeers(r.Peers, &want) {
					e.Failf("a response with %q where %q was decoded gives %s, want %s", b, a, showPeers(r.Peers), showPeers(&want))
				}
			}, "%q after %q", b, a)
		}
	}
}

func magnetBytes(e *mc.Enum) {
	vs.MapOrder = 0
	fields := []struct {
		k   string
		get func(*magnet.Magnet) string
	}{
		{"xt", func(m *magnet.Magnet) string { return m.ExactTopic }},
		{"dn", func(m *magnet.Magnet) string { return m.Name }},
		{"ws", func(m *magnet.Magnet) string { return m.WebSeed }},
		{"tr", func(m *magnet.Magnet) string { return strings.Join(m.Trackers, "|") }},
		{"x.pe", func(m *magnet.Magnet) string { return strings.Join(m.Peers, "|") }},
	}
	for _, f := range fields {
		for v := 0; v < 256; v++ {
			e.Casef(func() {
				e.State(fmt.Sprint(f.k, v))
				e.Trans(2)
				for _, esc := range []string{fmt.Sprintf("%%%02x", v), fmt.Sprintf("%%%02X", v), url.QueryEscape(string([]byte{byte(v)}))} {
					link := "magnet:?" + f.k + "=a" + esc + "b&xl=1"
					want := "a" + string([]byte{byte(v)}) + "b"
					m, err := magnet.ParseMagnetURL(link)
					if err != nil || f.get(m) != want || m.Length != 1 {
						e.Failf("%q: %s = %q, %v, want %q", link, f.k, f.get(m), err, want)
					}
				}
			}, "%s byte %d", f.k, v)
		}
	}
}

func magnetLengths(e *mc.Enum) {
	vs.MapOrder = 0
	for _, c := range []struct {
		s  string
		n  int
		ok bool
	}{{"", 0, true}, {"0", 0, true}, {"1", 1, true}, {"9223372036854775807", math.MaxInt64, true}, {"9223372036854775808", 0, false}, {"x", 0, false}, {"1x", 0, false}, {"1.5", 0, false}, {"0x10", 0, false}, {"1e3", 0, false}, {"%31%30", 10, true}} {
		for _, f := range []string{"magnet:?xl=%s", "magnet:?xt=urn:btih:aa&xl=%s", "magnet:?xl=%s&dn=n&tr=t"} {
			e.Casef(func() {
				e.State(c.s + f)
				e.Trans(1)
				link := fmt.Sprintf(f, c.s)
				m, err := magnet.ParseMagnetURL(link)
				if (err == nil) != c.ok || err == nil && m.Length != c.n {
					e.Failf("%q gives %+v, %v", link, m, err)
				}
			}, f, c.s)
		}
	}
	bad := []string{"%", "magnet:?xt=a\x00", ":", "magnet\x7f:?"}
	for _, k := range []string{"xt", "dn", "xl", "tr", "ws", "x.pe", "zz"} {
		for _, v := range []string{"%", "a%", "%4", "%zz", "1%g0", "%%", "%u0041"} {
			for _, f := range []string{"magnet:?%s=%s", "magnet:?dn=n&%s=%s", "magnet:?%s=%s&tr=t", "magnet:?xl=5&%s=%s&x.pe=h:1"} {
				bad = append(bad, fmt.Sprintf(f, k, v))
			}
		}
		bad = append(bad, "magnet:?%"+k+"=1")
	}
	for _, l := range bad {
		e.Casef(func() {
			e.State(l)
			if m, err := magnet.ParseMagnetURL(l); err == nil {
				e.Failf("%q gives %+v", l, m)
			}
		}, "%q", l)
	}
}
