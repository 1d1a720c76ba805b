package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"

	"github.com/browles/drip/api/peer"
	"github.com/browles/drip/bitfield"
	"github.com/browles/drip/zzv/rt/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C10",
		Units: []mc.Unit{
			{Name: "messages", Enum: msgRoundTrip},
			{Name: "chunkings", Enum: msgChunks, Weight: 2},
			{Name: "large", Enum: msgLarge},
			{Name: "handshakes", Enum: hsRoundTrip},
			{Name: "writer-faults", Enum: msgFaults, Weight: 0.3},
		},
		Explain:     "every message type with every combination of boundary field values, against the bytes the protocol prescribes; messages up to a mebibyte in reads of many sizes, and truncated; every way of cutting short sequences of messages and handshakes into reads, every position of a write error",
		Assumptions: []string{"a message fits the decoder's size limit"},
	})
	mc.Register(&mc.Check{
		ID: "C11",
		Units: []mc.Unit{
			{Name: "prefixes", Enum: msgPrefixes},
			{Name: "truncation", Enum: msgTruncated},
			{Name: "handshakes", Enum: hsMalformed},
		},
		Explain: "every message type byte with every payload length around its fields, every boundary value of the length prefix, every truncation; every single byte change and truncation of a handshake",
	})
}

// refMsg is a message and the bytes BEP 3 prescribes for it.
type refMsg struct {
	m    *peer.Message
	typ  int // -1 keepalive
	a    []uint32
	data []byte
	name string
}

func (r *refMsg) wire() []byte {
	if r.typ < 0 {
		return []byte{0, 0, 0, 0}
	}
	var p []byte
	p = append(p, byte(r.typ))
	for _, x := range r.a {
		p = append(p, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	p = append(p, r.data...)
	l := len(p)
	return append([]byte{byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}, p...)
}

func (r *refMsg) same(m *peer.Message) error {
	if int(m.Type) != r.typ {
		return fmt.Errorf("type %d, want %d", int(m.Type), r.typ)
	}
	bad := func(what string, got, want any) error { return fmt.Errorf("%s is %v, want %v", what, got, want) }
	switch r.typ {
	case 4:
		if m.Index() != int(r.a[0]) {
			return bad("index", m.Index(), r.a[0])
		}
	case 5:
		if string(m.Bitfield()) != string(r.data) {
			return bad("bitfield", m.Bitfield(), r.data)
		}
	case 6, 8:
		if m.Index() != int(r.a[0]) || m.Begin() != int(r.a[1]) || m.Length() != int(r.a[2]) {
			return bad("request", []int{m.Index(), m.Begin(), m.Length()}, r.a)
		}
	case 7:
		if m.Index() != int(r.a[0]) || m.Begin() != int(r.a[1]) {
			return bad("piece", []int{m.Index(), m.Begin()}, r.a)
		}
		if string(m.Piece()) != string(r.data) {
			return bad("piece data of", len(m.Piece()), len(r.data))
		}
	}
	return nil
}

var fieldVals = []uint32{0, 1, 255, 256, 16384, 65535, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}

func simpleMsgs() []*refMsg {
	return []*refMsg{
		{m: peer.Keepalive(), typ: -1, name: "keepalive"},
		{m: peer.Choke(), typ: 0, name: "choke"},
		{m: peer.Unchoke(), typ: 1, name: "unchoke"},
		{m: peer.Interested(), typ: 2, name: "interested"},
		{m: peer.NotInterested(), typ: 3, name: "not interested"},
	}
}

func mHave(i uint32) *refMsg {
	return &refMsg{m: peer.Have(int(i)), typ: 4, a: []uint32{i}, name: fmt.Sprintf("have %d", i)}
}
func mBitfield(b []byte) *refMsg {
	return &refMsg{m: peer.Bitfield(bitfield.Bitfield(b)), typ: 5, data: b, name: fmt.Sprintf("bitfield %d", len(b))}
}
func mRequest(i, b, l uint32) *refMsg {
	return &refMsg{m: peer.Request(int(i), int(b), int(l)), typ: 6, a: []uint32{i, b, l}, name: fmt.Sprintf("request %d %d %d", i, b, l)}
}
func mCancel(i, b, l uint32) *refMsg {
	return &refMsg{m: peer.Cancel(int(i), int(b), int(l)), typ: 8, a: []uint32{i, b, l}, name: fmt.Sprintf("cancel %d %d %d", i, b, l)}
}
func mPiece(i, b uint32, d []byte) *refMsg {
	return &refMsg{m: peer.Piece(int(i), int(b), d), typ: 7, a: []uint32{i, b}, data: d, name: fmt.Sprintf("piece %d %d %d", i, b, len(d))}
}

func msgRoundTrip(e *mc.Enum) {
	try := func(r *refMsg) {
		e.Casef(func() {
			e.State(r.name)
			e.Trans(2)
			var buf bytes.Buffer
			if err := peer.Write(&buf, r.m); err != nil || !bytes.Equal(buf.Bytes(), r.wire()) {
				e.Failf("%s is written as %s, %v, want %s", r.name, hex(buf.Bytes()), err, hex(r.wire()))
				return
			}
			b, err := r.m.MarshalBinary()
			if err != nil || !bytes.Equal(b, r.wire()) {
				e.Failf("%s marshals to %s, %v", r.name, hex(b), err)
			}
			rd := bytes.NewReader(append(r.wire(), 0xaa, 0xbb))
			m, err := peer.ReadMessage(rd)
			if err != nil {
				e.Failf("%s does not read: %v", r.name, err)
				return
			}
			if err := r.same(m); err != nil {
				e.Failf("%s reads back with %v", r.name, err)
			}
			if rd.Len() != 2 {
				e.Failf("reading %s leaves %d bytes of 2", r.name, rd.Len())
			}
			var um peer.Message
			if err := um.UnmarshalBinary(r.wire()); err != nil {
				e.Failf("%s does not unmarshal: %v", r.name, err)
			} else if err := r.same(&um); err != nil {
				e.Failf("%s unmarshals with %v", r.name, err)
			}
		}, "%s", r.name)
	}
	for _, m := range simpleMsgs() {
		try(m)
	}
	for _, a := range fieldVals {
		try(mHave(a))
		for _, b := range fieldVals {
			for _, l := range []int{0, 1, 2, 5, 100, 16384, 16393, 65536, 1 << 20} {
				if l > 20000 && a != b {
					continue
				}
				try(mPiece(a, b, []byte(pattern(l, int(a+b)))))
			}
			for _, c := range fieldVals {
				try(mRequest(a, b, c))
				try(mCancel(a, b, c))
			}
		}
	}
	for l := 0; l <= 300; l++ {
		try(mBitfield([]byte(pattern(l, l))))
	}
	try(mBitfield([]byte(pattern(70000, 1))))
}

func hex(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x... (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func msgChunks(e *mc.Enum) {
	kinds := append(simpleMsgs(), mHave(1<<31), mBitfield([]byte{0x81, 7}), mRequest(1, 2, 3), mCancel(4, 5, 6), mPiece(7, 8, []byte("xy")), mBitfield(nil), mPiece(0, 0, nil))
	run := func(ms []*refMsg, data []byte, cuts []int, end error, with bool) {
		if e.Stopped() || !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprintf("%x cuts %v %v %v", data, cuts, end, with)), func() {
			e.State(fmt.Sprint(len(data), cuts))
			e.Trans(len(ms))
			r := &cutReader{append([]byte{}, data...), append([]int{}, cuts...), end, with}
			var read []*peer.Message
			defer func() {
				// what was read does not change with what is read next
				for i, m := range read {
					if err := ms[i].same(m); err != nil {
						e.Failf("message %d (%s) after the next: %v", i, ms[i].name, err)
					}
				}
			}()
			for i, w := range ms {
				m, err := peer.ReadMessage(r)
				if err != nil {
					e.Failf("message %d (%s): %v", i, w.name, err)
					return
				}
				read = append(read, m)
				if err := w.same(m); err != nil {
					e.Failf("message %d (%s): %v", i, w.name, err)
					return
				}
			}
			if m, err := peer.ReadMessage(r); err == nil {
				e.Failf("a message is read after the end: %v", m.Type)
			} else if !errors.Is(err, end) {
				e.Failf("the end is reported as %v, want %v", err, end)
			}
		})
	}
	for _, a := range kinds {
		for _, b := range kinds {
			data := append(append([]byte{}, a.wire()...), b.wire()...)
			n := len(data)
			for _, end := range []error{io.EOF, errRead} {
				for _, with := range []bool{false, true} {
					if n <= mc.Pick(14, 17) {
						for m := 0; m < 1<<(n-1); m++ {
							var cuts []int
							c := 1
							for b := 0; b < n-1; b++ {
								if m&(1<<b) != 0 {
									cuts = append(cuts, c)
									c = 0
								}
								c++
							}
							run([]*refMsg{a, b}, data, append(cuts, c), end, with)
						}
					}
					for i := 0; i <= n; i++ {
						for j := i; j <= n; j++ {
							run([]*refMsg{a, b}, data, []int{i, 0, j - i, 0, n - j}, end, with)
						}
					}
					ones := make([]int, n)
					for i := range ones {
						ones[i] = 1
					}
					run([]*refMsg{a, b}, data, ones, end, with)
				}
			}
		}
	}
}

// msgLarge: long messages, too, come in parts, and end where they end.
func msgLarge(e *mc.Enum) {
	for _, size := range []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 16384, 16393, 32768, 65535, 65536, 131072, 1 << 20} {
		for kind := 0; kind < 2; kind++ {
			for _, chunk := range []int{1, 7, 1000, 1024, 1460, 4096, 16384, 65536} {
				if size/chunk > 140000 {
					continue
				}
				for cut := -1; cut <= 3; cut++ { // where the stream ends instead
					e.Casef(func() {
						e.State(fmt.Sprint(size, chunk, cut))
						e.Trans(2)
						r := mBitfield([]byte(pattern(size, 3)))
						if kind == 1 {
							r = mPiece(1, 2, []byte(pattern(size, 5)))
						}
						w := r.wire()
						next := mRequest(9, 8, 7)
						data := append(append([]byte{}, w...), next.wire()...)
						if cut >= 0 {
							data = data[:[]int{len(w) - 1, len(w) - size/2, 14, 5}[cut]]
						}
						var cuts []int
						for n := 0; n < len(data); n += chunk {
							cuts = append(cuts, chunk)
						}
						rd := &cutReader{data, cuts, io.EOF, size%2 == 0}
						m, err := peer.ReadMessage(rd)
						if cut >= 0 {
							if err == nil {
								e.Failf("%s is read though the stream ends after %d bytes", r.name, len(data))
							}
							return
						}
						if err != nil {
							e.Failf("%s in reads of %d: %v", r.name, chunk, err)
							return
						}
						if err := r.same(m); err != nil {
							e.Failf("%s in reads of %d: %v", r.name, chunk, err)
						}
						if m, err = peer.ReadMessage(rd); err != nil {
							e.Failf("what follows %s in reads of %d: %v", r.name, chunk, err)
						} else if err := next.same(m); err != nil {
							e.Failf("what follows %s in reads of %d: %v", r.name, chunk, err)
						}
					}, "large %d of kind %d by %d, end %d", size, kind, chunk, cut)
				}
			}
		}
	}
}

func refHandshake(ih, id [20]byte, reserved [8]byte) []byte {
	b := append([]byte{19}, "BitTorrent protocol"...)
	b = append(b, reserved[:]...)
	b = append(b, ih[:]...)
	return append(b, id[:]...)
}

func hsRoundTrip(e *mc.Enum) {
	var ids [][20]byte
	for k := 0; k < 4; k++ {
		var a [20]byte
		copy(a[:], pattern(20, k))
		ids = append(ids, a)
	}
	ids = append(ids, [20]byte{}, [20]byte{0: 0xff, 19: 1})
	for i, ih := range ids {
		for j, id := range ids {
			for k, res := range [][8]byte{{}, {1, 2, 3, 4, 5, 6, 7, 8}, {255, 255, 255, 255, 255, 255, 255, 255}} {
				ref := refHandshake(ih, id, res)
				same := func(hs *peer.Handshake, err error, how string) {
					if err != nil || hs.InfoHash != ih || hs.PeerID != id {
						e.Failf("a handshake %s reads as %+v, %v", how, hs, err)
					}
				}
				e.Casef(func() {
					e.State(fmt.Sprint(i, j, k))
					e.Trans(1)
					var buf bytes.Buffer
					hs := &peer.Handshake{InfoHash: ih, PeerID: id}
					want := refHandshake(ih, id, [8]byte{})
					if err := peer.Write(&buf, hs); err != nil || !bytes.Equal(buf.Bytes(), want) {
						e.Failf("a handshake is written as %x, %v, want %x", buf.Bytes(), err, want)
					}
					if b, err := hs.MarshalBinary(); err != nil || !bytes.Equal(b, want) {
						e.Failf("a handshake marshals to %x, %v", b, err)
					}
					rd := bytes.NewReader(append(append([]byte{}, ref...), 9, 9, 9))
					got, err := peer.ReadHandshake(rd)
					same(got, err, "at once")
					if rd.Len() != 3 {
						e.Failf("reading a handshake leaves %d bytes of 3", rd.Len())
					}
					got = &peer.Handshake{InfoHash: id, PeerID: ih}
					same(got, got.UnmarshalBinary(ref), "into a used one")
				}, "handshake %d %d %d", i, j, k)
				if i > 1 || j > 1 {
					continue
				}
				for a := 0; a <= len(ref); a++ {
					for b := a; b <= len(ref); b++ {
						e.Casef(func() {
							e.Trans(1)
							got, err := peer.ReadHandshake(&cutReader{append([]byte{}, ref...), []int{a, 0, b - a, 0, len(ref) - b}, io.EOF, b%2 == 0})
							same(got, err, "in pieces")
						}, "handshake %d %d %d cut at %d %d", i, j, k, a, b)
					}
				}
				e.Casef(func() {
					ones := make([]int, 0, 140)
					for range ref {
						ones = append(ones, 0, 1)
					}
					got, err := peer.ReadHandshake(&cutReader{append([]byte{}, ref...), ones, io.EOF, true})
					same(got, err, "byte by byte")
				}, "handshake %d %d %d in single bytes", i, j, k)
			}
		}
	}
}

func msgFaults(e *mc.Enum) {
	ms := append(simpleMsgs(), mHave(3), mBitfield([]byte{1, 2, 3}), mRequest(1, 2, 3), mCancel(4, 5, 6), mPiece(7, 8, []byte("payload")))
	for _, r := range ms {
		for k := 0; k < len(r.wire()); k++ {
			e.Casef(func() {
				e.State(fmt.Sprint(r.name, k))
				e.Trans(1)
				w := &failWriter{left: k}
				if err := peer.Write(w, r.m); !errors.Is(err, errWriter) {
					e.Failf("writing %s to a writer that fails after %d bytes: %v", r.name, k, err)
				}
				if !bytes.HasPrefix(r.wire(), w.got) {
					e.Failf("%s: wrote %x before the error", r.name, w.got)
				}
			}, "%s, writer fails after %d", r.name, k)
		}
	}
	hs := &peer.Handshake{InfoHash: [20]byte{1}, PeerID: [20]byte{2}}
	for k := 0; k < peer.HandshakeLength; k++ {
		e.Casef(func() {
			e.State(fmt.Sprint("hs", k))
			if err := peer.Write(&failWriter{left: k}, hs); !errors.Is(err, errWriter) {
				e.Failf("writing a handshake to a writer that fails after %d bytes: %v", k, err)
			}
		}, "handshake, writer fails after %d", k)
	}
}

// ------------------------------------------------------------- C11

var fixedLen = map[int]int{0: 0, 1: 0, 2: 0, 3: 0, 4: 4, 6: 12, 8: 12}
var minLen = map[int]int{4: 4, 6: 12, 7: 8, 8: 12}

func touch(m *peer.Message) {
	switch m.Type {
	case peer.BITFIELD:
		_ = m.Bitfield()
	case peer.HAVE:
		_ = m.Index()
	case peer.REQUEST, peer.CANCEL:
		_, _, _ = m.Index(), m.Begin(), m.Length()
	case peer.PIECE:
		_, _, _ = m.Index(), m.Begin(), m.Piece()
	}
}

func msgPrefixes(e *mc.Enum) {
	// every type byte, every payload length around the fields
	for t := 0; t < 256; t++ {
		for l := 0; l <= 20; l++ {
			e.Casef(func() {
				e.State(fmt.Sprint(t, l))
				e.Trans(2)
				p := []byte(pattern(l, t))
				data := append([]byte{0, 0, 0, byte(l + 1), byte(t)}, p...)
				next := mRequest(9, 8, 7)
				r := bytes.NewReader(append(append([]byte{}, data...), next.wire()...))
				m, err := peer.ReadMessage(r)
				if l < minLen[t] {
					if err == nil {
						e.Failf("a message of type %d with %d bytes of payload is accepted", t, l)
					}
					return
				}
				if fl, ok := fixedLen[t]; ok && l > fl && err != nil {
					return // too long: open whether it is refused
				}
				if err != nil {
					if t <= 8 {
						e.Failf("a message of type %d with %d bytes of payload is refused: %v", t, l, err)
					}
					return
				}
				touch(m)
				if int(m.Type) != t {
					e.Failf("type %d is read as %d", t, int(m.Type))
				}
				m2, err := peer.ReadMessage(r)
				if err != nil {
					e.Failf("the message after one of type %d with %d bytes: %v", t, l, err)
				} else if err := next.same(m2); err != nil {
					e.Failf("the message after one of type %d with %d bytes: %v", t, l, err)
				}
			}, "type %d payload %d", t, l)
		}
	}
	// what the prefix claims is not there
	for b := 0; b <= 32; b++ {
		for d := -1; d <= 1; d++ {
			v := int64(1)<<b + int64(d)
			if v <= 0 || v >= 1<<32 {
				continue
			}
			for _, have := range []int{0, 1, 5, 9, 13} {
				if int64(have) >= v {
					continue
				}
				for t := 0; t <= 9; t++ {
					e.Casef(func() {
						e.State(fmt.Sprint("prefix", v, have))
						e.Trans(1)
						data := make([]byte, 4, 40)
						binary.BigEndian.PutUint32(data, uint32(v))
						for i := 0; i < have; i++ {
							data = append(data, byte(t*(1-min(i, 1))))
						}
						var m0, m1 runtime.MemStats
						runtime.ReadMemStats(&m0)
						m, err := peer.ReadMessage(bytes.NewReader(data))
						runtime.ReadMemStats(&m1)
						if err == nil {
							e.Failf("a message of %d bytes of which %d are there is read: %v", v, have, m)
						}
						if a := m1.TotalAlloc - m0.TotalAlloc; a > 64<<20 {
							e.Failf("a prefix that claims %d bytes makes the reader allocate %d", v, a)
						}
					}, "prefix %d, %d bytes of type %d", v, have, t)
				}
			}
		}
	}
}

func msgTruncated(e *mc.Enum) {
	ms := append(simpleMsgs(), mHave(3), mBitfield([]byte{1, 2, 3}), mRequest(1, 2, 3), mCancel(4, 5, 6), mPiece(7, 8, []byte("payload")), mPiece(1, 1, nil), mBitfield(nil))
	for _, r := range ms {
		w := r.wire()
		for k := 0; k < len(w); k++ {
			for _, end := range []error{io.EOF, errRead} {
				e.Casef(func() {
					e.State(fmt.Sprint(r.name, k))
					e.Trans(1)
					m, err := peer.ReadMessage(&cutReader{append([]byte{}, w[:k]...), nil, end, k%2 == 0})
					if err == nil {
						e.Failf("%s cut at %d is read as %v", r.name, k, m.Type)
					}
					if end == errRead && !errors.Is(err, errRead) {
						e.Failf("%s cut at %d by an error gives %v", r.name, k, err)
					}
					if k == 0 && end == io.EOF && err != io.EOF {
						e.Failf("the clean end before %s gives %v", r.name, err)
					}
				}, "%s cut at %d %v", r.name, k, end)
			}
		}
	}
}

func hsMalformed(e *mc.Enum) {
	ref := refHandshake([20]byte{1, 2, 3}, [20]byte{4, 5, 6}, [8]byte{})
	for k := 0; k < len(ref); k++ {
		for _, end := range []error{io.EOF, errRead} {
			e.Casef(func() {
				e.State(fmt.Sprint("cut", k))
				e.Trans(1)
				if hs, err := peer.ReadHandshake(&cutReader{append([]byte{}, ref[:k]...), nil, end, k%2 == 0}); err == nil {
					e.Failf("a handshake cut at %d is read as %+v", k, hs)
				}
			}, "cut at %d %v", k, end)
		}
	}
	for k := 0; k < 20; k++ {
		for v := 0; v < 256; v++ {
			if byte(v) == ref[k] {
				continue
			}
			e.Casef(func() {
				e.State(fmt.Sprint("byte", k, v))
				e.Trans(1)
				b := append([]byte{}, ref...)
				b[k] = byte(v)
				b = append(b, make([]byte, 300)...)
				if hs, err := peer.ReadHandshake(bytes.NewReader(b)); err == nil {
					e.Failf("a handshake with byte %d = %d is accepted: %+v", k, v, hs)
				}
			}, "byte %d = %d", k, v)
		}
	}
}
