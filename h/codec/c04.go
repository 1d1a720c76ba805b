package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C04",
		Units: []mc.Unit{
			{Name: "chunkings", Enum: streamChunks, Weight: 4},
			{Name: "truncation", Enum: streamCuts, Weight: 2},
			{Name: "boundaries", Enum: streamBoundaries, Weight: 2},
			{Name: "handover", Enum: streamHandover, Weight: 0.5},
			{Name: "aliasing", Enum: streamAlias, Weight: 0.5},
		},
		Explain:     "streams of values read through a decoder: every way of cutting a stream into reads (all compositions of short streams, every one or two cuts of longer ones), every truncation, every position of a read error, every offset relative to the decoder's buffer; values read by one decoder after the other from the caller's buffered reader",
		Assumptions: []string{"readers obey io.Reader"},
	})
}

var errRead = errors.New("reader is broken")

// cutReader delivers data in the given chunk sizes, then end.
type cutReader struct {
	data []byte
	cuts []int // sizes; 0 is an empty read; what remains comes at once
	end  error
	with bool // the last bytes come together with end
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := len(r.data)
	if len(r.cuts) > 0 {
		n = r.cuts[0]
		r.cuts = r.cuts[1:]
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	if n > len(p) {
		if rest := n - len(p); rest > 0 {
			r.cuts = append([]int{rest}, r.cuts...)
		}
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.end
	}
	return n, nil
}

// targets of a stream element.
var streamTargets = []func() (any, func(n *N) (any, bool)){
	func() (any, func(n *N) (any, bool)) {
		return new(any), func(n *N) (any, bool) { return n.untyped(), true }
	},
	func() (any, func(n *N) (any, bool)) {
		return new(bencode.RawMessage), func(n *N) (any, bool) { return bencode.RawMessage(n.enc()), true }
	},
	func() (any, func(n *N) (any, bool)) {
		return new(skipAll), func(n *N) (any, bool) { return skipAll{}, n.Kind == 'd' }
	},
}

type skipAll struct{}

// readStream reads the values one after the other and then expects the end.
func readStream(fail func(string, ...any), dec *bencode.Decoder, vals []*N, target int, end error) {
	for i, n := range vals {
		v, want := streamTargets[target]()
		w, ok := want(n)
		if !ok {
			v, want = streamTargets[0]()
			w, _ = want(n)
		}
		if err := dec.Decode(v); err != nil {
			fail("value %d (%q): %v", i, n.enc(), err)
			return
		}
		if got := reflect.ValueOf(v).Elem().Interface(); !reflect.DeepEqual(got, w) {
			fail("value %d is %#v, want %#v", i, got, w)
			return
		}
	}
	v, _ := streamTargets[target]()
	err := dec.Decode(v)
	if err == nil {
		fail("a value is read after the end: %#v", reflect.ValueOf(v).Elem().Interface())
	} else if !errors.Is(err, end) {
		fail("the end of the stream is reported as %v, which does not wrap %v", err, end)
	}
}

func concat(vals []*N) string {
	var sb strings.Builder
	for _, n := range vals {
		n.write(&sb)
	}
	return sb.String()
}

var streams = [][]*N{
	{nint(-12), nstr("ab"), nlist()},
	{nstr(""), nstr("i1e"), nint(0)},
	{nlist(nint(1), nstr("x")), nint(7)},
	{ndict("a", nint(1)), nstr("q")},
	{ndict("", nlist()), ndict()},
	{nlist(nlist()), nstr("zz")},
}

var longStreams = [][]*N{
	{nstr(strings.Repeat("k", 40)), ndict("key", nlist(nint(123456), nstr("spam")), "longer key", nstr(strings.Repeat("v", 35))), nint(99)},
	{ndict(strings.Repeat("a", 17), ndict(strings.Repeat("b", 20), nint(-5))), nlist(nstr("0123456789abcdef"), nstr("0123456789abcde")), nstr("end")},
}

func streamChunks(e *mc.Enum) {
	vs.MapOrder = 0
	run := func(vals []*N, data string, cuts []int, kind string) {
		for tgt := range streamTargets {
			for _, end := range []error{io.EOF, errRead} {
				for _, with := range []bool{false, true} {
					for _, size := range []int{0, 16} {
						if e.Stopped() {
							return
						}
						if !e.Mine() {
							continue
						}
						e.Run([]byte(fmt.Sprintf("%s %q cuts %v target %d end %v with %v buffer %d", kind, data, cuts, tgt, end, with, size)), func() {
							e.State(fmt.Sprint(data, cuts))
							e.Trans(len(vals))
							var r io.Reader = &cutReader{[]byte(data), append([]int{}, cuts...), end, with}
							if size > 0 {
								r = bufio.NewReaderSize(r, size)
							}
							readStream(e.Failf, bencode.NewDecoder(r), vals, tgt, end)
						})
					}
				}
			}
		}
	}
	for _, vals := range streams {
		data := concat(vals)
		n := len(data)
		limit := mc.Pick(15, 18)
		if n <= limit {
			for m := 0; m < 1<<(n-1); m++ {
				var cuts []int
				c := 1
				for b := 0; b < n-1; b++ {
					if m&(1<<b) != 0 {
						cuts = append(cuts, c)
						c = 0
					}
					c++
				}
				run(vals, data, append(cuts, c), "all")
			}
		}
	}
	for _, vals := range append(append([][]*N{}, streams...), longStreams...) {
		data := concat(vals)
		n := len(data)
		for i := 0; i <= n; i++ {
			run(vals, data, []int{i, 0, n - i}, "one")
			for j := i + 1; j <= n && (n < mc.Pick(100, 400)); j++ {
				run(vals, data, []int{i, j - i, 0, 0, n - j}, "two")
			}
		}
		ones := make([]int, n)
		for i := range ones {
			ones[i] = 1
		}
		run(vals, data, ones, "single bytes")
		var gaps []int
		for i := 0; i < n; i++ {
			gaps = append(gaps, 0, 1)
		}
		run(vals, data, gaps, "single bytes with empty reads")
	}
}

// streamCuts: a stream that ends early gives the values before and an error.
func streamCuts(e *mc.Enum) {
	vs.MapOrder = 0
	for _, vals := range append(append([][]*N{}, streams...), longStreams...) {
		data := concat(vals)
		for k := 0; k < len(data); k++ {
			for _, end := range []error{io.EOF, errRead, io.ErrUnexpectedEOF} {
				for tgt := range streamTargets {
					for _, with := range []bool{false, true} {
						if e.Stopped() || !e.Mine() {
							continue
						}
						e.Run([]byte(fmt.Sprintf("%q cut at %d, %v, target %d, %v", data, k, end, tgt, with)), func() {
							e.State(data[:k])
							e.Trans(1)
							dec := bencode.NewDecoder(&cutReader{[]byte(data[:k]), nil, end, with})
							p := 0
							for i, n := range vals {
								l := len(n.enc())
								v, want := streamTargets[tgt]()
								w, ok := want(n)
								if !ok {
									v, want = streamTargets[0]()
									w, _ = want(n)
								}
								err := dec.Decode(v)
								if p+l <= k {
									if err != nil || !reflect.DeepEqual(reflect.ValueOf(v).Elem().Interface(), w) {
										e.Failf("value %d is there and gives %v", i, err)
									}
								} else {
									if err == nil {
										e.Failf("value %d is cut and decodes to %#v", i, reflect.ValueOf(v).Elem().Interface())
									} else if end == errRead && !errors.Is(err, errRead) {
										e.Failf("value %d is cut by a read error and gives %v", i, err)
									}
									return
								}
								p += l
							}
						})
					}
				}
			}
		}
	}
}

// streamBoundaries: every offset and string length around the buffer sizes.
func streamBoundaries(e *mc.Enum) {
	vs.MapOrder = 0
	lens := []int{}
	for l := 0; l <= mc.Pick(140, 400); l++ {
		lens = append(lens, l)
	}
	for _, c := range []int{4096, 8192, 16384} {
		for d := -8; d <= 8; d++ {
			lens = append(lens, c+d)
		}
	}
	for _, a := range lens {
		for _, b := range []int{0, 1, 15, 16, 17, 31, 32, 33, 4095, 4096, 4097, 9000} {
			if e.Stopped() || !e.Mine() {
				continue
			}
			e.Run([]byte(fmt.Sprintf("lengths %d %d", a, b)), func() {
				e.State(fmt.Sprint(a, b))
				e.Trans(3)
				x, y := pattern(a, 1), pattern(b, 2)
				n := ndict("k"+x, nlist(nstr(x), nstr(y), nint(int64(a))), "l", nstr(y), "m"+y, nint(-7))
				doc := n.enc()
				var v any
				if err := bencode.Unmarshal([]byte(doc), &v); err != nil || !reflect.DeepEqual(v, n.untyped()) {
					e.Failf("lengths %d, %d: %v, or another value", a, b, err)
				}
				var raw bencode.RawMessage
				if err := bencode.Unmarshal([]byte(doc), &raw); err != nil || string(raw) != doc {
					e.Failf("lengths %d, %d: raw differs, %v", a, b, err)
				}
				var sk struct{ L string }
				if err := bencode.Unmarshal([]byte(doc), &sk); err != nil || sk.L != y {
					e.Failf("lengths %d, %d: a field after a skipped value differs, %v", a, b, err)
				}
				var by struct{ L []byte }
				if err := bencode.Unmarshal([]byte(doc), &by); err != nil || string(by.L) != y {
					e.Failf("lengths %d, %d: a field of bytes after a skipped value differs, %v", a, b, err)
				}
				if out, err := bencode.Marshal(v); err != nil || string(out) != doc {
					e.Failf("lengths %d, %d: encoding differs, %v", a, b, err)
				}
			})
		}
	}
}

func pattern(n, seed int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i*7 + i/251 + seed*31) % 256)
	}
	return string(b)
}

// streamAlias: what was decoded does not change with the input or with what is decoded next.
func streamAlias(e *mc.Enum) {
	vs.MapOrder = 0
	type all struct {
		B []byte
		R bencode.RawMessage
		S string
		A any
		L [][]byte
		M map[string][]byte
	}
	for _, size := range []int{1, 5, 15, 16, 17, 40, 300, 5000} {
		for _, bufSize := range []int{0, 16} {
			e.Casef(func() {
				e.State(fmt.Sprint(size, bufSize))
				var stream bytes.Buffer
				mk := func(seed int) *N {
					s := nstr(pattern(size, seed))
					return ndict("b", s, "r", nlist(s), "s", s, "a", nlist(s), "l", nlist(s, s), "m", ndict("k", s))
				}
				for i := 0; i < 4; i++ {
					stream.WriteString(mk(i).enc())
				}
				data := stream.Bytes()
				var r io.Reader = bytes.NewReader(data)
				if bufSize > 0 {
					r = bufio.NewReaderSize(r, bufSize)
				}
				dec := bencode.NewDecoder(r)
				vals := make([]all, 4)
				for i := range vals {
					e.Trans(1)
					if err := dec.Decode(&vals[i]); err != nil {
						e.Failf("value %d: %v", i, err)
						return
					}
				}
				for i := range data {
					data[i] = '#'
				}
				for i, v := range vals {
					s := pattern(size, i)
					if string(v.B) != s || string(v.R) != nlist(nstr(s)).enc() || v.S != s || !reflect.DeepEqual(v.A, []any{s}) || len(v.L) != 2 || string(v.L[0]) != s || string(v.L[1]) != s || string(v.M["k"]) != s {
						e.Failf("value %d of %d bytes has changed after it was decoded", i, size)
					}
					// one part does not share memory with another
					v.B[0]++
					v.L[0][0]++
					v.M["k"][0]++
					if string(v.R) != nlist(nstr(s)).enc() || v.S != s || string(v.L[1]) != s {
						e.Failf("parts of value %d share memory", i)
					}
				}
				// Unmarshal as well
				doc := []byte(mk(9).enc())
				var v all
				if err := bencode.Unmarshal(doc, &v); err != nil {
					e.Failf("%v", err)
					return
				}
				for i := range doc {
					doc[i] = '#'
				}
				s := pattern(size, 9)
				if string(v.B) != s || string(v.R) != nlist(nstr(s)).enc() || string(v.L[0]) != s || string(v.M["k"]) != s {
					e.Failf("a value of %d bytes has changed with its input", size)
				}
			}, "size %d buffer %d", size, bufSize)
		}
	}
	// an encoder writes values one after the other
	for i, vals := range streams {
		e.Casef(func() {
			e.State(fmt.Sprint("enc", i))
			var buf bytes.Buffer
			enc := bencode.NewEncoder(&buf)
			for _, n := range vals {
				e.Trans(1)
				if err := enc.Encode(n.untyped()); err != nil {
					e.Failf("Encode: %v", err)
				}
			}
			if buf.String() != concat(vals) {
				e.Failf("the encoder wrote %q, want %q", buf.String(), concat(vals))
			}
		}, "encoder stream %d", i)
	}
}

// streamHandover: a decoder takes exactly its value from the caller's buffered
// reader, whatever the size of its buffer; the rest is there for others.
func streamHandover(e *mc.Enum) {
	vs.MapOrder = 0
	for _, vals := range append(append([][]*N{}, streams...), longStreams...) {
		data := concat(vals)
		for _, size := range []int{0, 16, 17, 31, 32, 33, 100, 4095, 4096, 4097, 9000} {
			for tgt := range streamTargets {
				for cut := 0; cut <= len(data); cut++ {
					e.Casef(func() {
						e.State(fmt.Sprint(data, size))
						r := bufio.NewReaderSize(&cutReader{[]byte(data + "tail"), []int{cut}, io.EOF, false}, size)
						left := data + "tail"
						for i, n := range vals {
							e.Trans(1)
							v, want := streamTargets[tgt]()
							w, ok := want(n)
							if !ok {
								v, want = streamTargets[0]()
								w, _ = want(n)
							}
							if err := bencode.NewDecoder(r).Decode(v); err != nil {
								e.Failf("value %d, read by a decoder of its own: %v", i, err)
								return
							}
							if got := reflect.ValueOf(v).Elem().Interface(); !reflect.DeepEqual(got, w) {
								e.Failf("value %d, read by a decoder of its own, is %#v", i, got)
							}
							left = left[len(n.enc()):]
							if b, err := r.Peek(1); err != nil || b[0] != left[0] {
								e.Failf("after value %d the reader goes on with %q, %v, want %q", i, b, err, left[0])
								return
							}
						}
						if rest, err := io.ReadAll(r); string(rest) != "tail" || err != nil {
							e.Failf("the rest of the stream is %q, %v", rest, err)
						}
					}, "%q buffer %d target %d cut %d", data, size, tgt, cut)
				}
			}
		}
	}
}
