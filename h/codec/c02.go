package main

import (
	"bufio"
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C02", QuickSecs: 40,
		Units: []mc.Unit{
			{Name: "all-strings", Enum: grammarAll, Weight: 4},
			{Name: "viable", Enum: grammarViable, Weight: 4},
			{Name: "mutants", Enum: grammarMutants, Weight: 2},
			{Name: "sizes", Enum: grammarSizes, Weight: 1},
			{Name: "width", Enum: grammarWidth, Weight: 1},
		},
		Explain:     "every string over the alphabet of the grammar up to a length, every one-symbol continuation of every viable prefix up to a larger length, every one-byte mutation and truncation of a set of documents; ten thousand values side by side in one document, into many targets; the verdict, the value and the number of bytes consumed are compared with a reference pushdown parser",
		Assumptions: []string{"string lengths with leading zeros and integers beyond 64 bits in positions that are only skipped are left open"},
	})
}

type decRig struct {
	r  bytes.Reader
	br *bufio.Reader
}

func newRig() *decRig {
	d := &decRig{}
	d.br = bufio.NewReaderSize(&d.r, 16)
	return d
}

// decode decodes one value of s and tells how many bytes that consumed.
func (d *decRig) decode(s []byte, v any) (int, error) {
	d.r.Reset(s)
	d.br.Reset(&d.r)
	err := bencode.NewDecoder(d.br).Decode(v)
	return len(s) - d.r.Len() - d.br.Buffered(), err
}

// grammarCase judges one input.
func grammarCase(e *mc.Enum, d *decRig, s []byte) verdict {
	str := string(s)
	n, used, vd, vague := parse(str)
	if vague {
		return vd
	}
	var v any
	got, err := d.decode(s, &v)
	var raw bencode.RawMessage
	rgot, rerr := d.decode(s, &raw)
	if vd != good {
		if err == nil {
			e.Failf("%q decodes to %#v, it is no bencoded value", s, v)
		}
		if rerr == nil {
			e.Failf("%q is accepted as raw %q, it is no bencoded value", s, raw)
		}
		return vd
	}
	e.Trans(1)
	if n.hugeInt() {
		if err == nil {
			e.Failf("%q decodes to %#v although an integer does not fit", s, v)
		}
		return vd
	}
	if err != nil {
		e.Failf("%q does not decode: %v", s, err)
	} else if got != used {
		e.Failf("decoding %q consumes %d bytes, its value has %d", s, got, used)
	} else if !reflect.DeepEqual(v, n.untyped()) {
		e.Failf("%q decodes to %#v, want %#v", s, v, n.untyped())
	}
	if rerr != nil {
		e.Failf("%q is not accepted as raw: %v", s, rerr)
	} else if rgot != used || string(raw) != str[:used] {
		e.Failf("%q gives raw %q consuming %d bytes, its value has %d", s, raw, rgot, used)
	}
	return vd
}

const alphabet = "dlie:-+012a"

func grammarAll(e *mc.Enum) {
	vs.MapOrder = 0
	d := newRig()
	max := mc.Pick(6, 7)
	buf := make([]byte, 0, max)
	states := 0
	for l := 0; l <= max; l++ {
		// only the leaves of this depth are cases
		var walk func()
		walk = func() {
			if e.Stopped() {
				return
			}
			if len(buf) == l {
				if e.Mine() {
					e.Run(buf, func() { grammarCase(e, d, buf) })
					states++
				}
				return
			}
			for i := 0; i < len(alphabet); i++ {
				buf = append(buf, alphabet[i])
				walk()
				buf = buf[:len(buf)-1]
			}
		}
		walk()
	}
	e.Count("strings", states)
}

// grammarViable walks the tree of viable prefixes: each is tried with every
// next symbol, and those that stay viable are extended.
func grammarViable(e *mc.Enum) {
	vs.MapOrder = 0
	d := newRig()
	const alpha = "dlie:-+0123a"
	max := mc.Pick(11, 13)
	buf := make([]byte, 0, max)
	var rec func()
	rec = func() {
		if e.Stopped() {
			return
		}
		mine := e.Mine()
		_, used, vd, vague := parse(string(buf))
		if vague {
			return
		}
		if mine {
			e.Run(buf, func() { grammarCase(e, d, buf) })
			if vd == good {
				e.State(string(buf))
			}
		}
		if vd == bad || (vd == good && len(buf) > used) || len(buf) == max {
			return
		}
		for i := 0; i < len(alpha); i++ {
			if alpha[i] == '3' && !(len(buf) == 0) {
				continue
			}
			buf = append(buf, alpha[i])
			rec()
			buf = buf[:len(buf)-1]
		}
	}
	rec()
}

var documents = []string{
	"d8:announce3:url4:infod6:lengthi12e4:name1:n12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee",
	"d1:ad1:bli1ei-1ei0eee1:cd0:1:xee",
	"l4:spaml1:a1:be3:abcd1:ki9223372036854775807eei-9223372036854775808ee",
	"20:01234567890123456789",
	"d0:0:1:a0:2:aa0:1:b0:e",
	"lllllleeeeee",
	"li18446744073709551615ee",
}

func grammarMutants(e *mc.Enum) {
	vs.MapOrder = 0
	d := newRig()
	subst := []byte("dlie:-+0159az \x00\xff")
	try := func(b []byte) {
		if e.Stopped() || !e.Mine() {
			return
		}
		e.Run(b, func() { grammarCase(e, d, b) })
	}
	for _, doc := range documents {
		for i := 0; i <= len(doc); i++ {
			try([]byte(doc[:i]))
			for _, c := range subst {
				try([]byte(doc[:i] + string(c) + doc[i:]))
				if i < len(doc) {
					try([]byte(doc[:i] + string(c) + doc[i+1:]))
				}
			}
			if i < len(doc) {
				try([]byte(doc[:i] + doc[i+1:]))
			}
			for j := i + 1; mc.Thorough && j <= len(doc); j++ {
				try([]byte(doc[:i] + doc[j:]))
			}
		}
	}
	// every pair of adjacent keys
	ks := []string{"", "a", "a\x00", "aa", "ab", "b", "B", "\xff", "0", "10"}
	for _, a := range ks {
		for _, b := range ks {
			for _, c := range ks {
				s := fmt.Sprintf("d%d:%si1e%d:%si2e%d:%si3ee", len(a), a, len(b), b, len(c), c)
				try([]byte(s))
				// as keys of a map, a struct and a skipped value
				if e.Stopped() || !e.Mine() {
					continue
				}
				e.Run([]byte("typed "+s), func() {
					_, _, vd, _ := parse(s)
					var m map[string]int
					var st struct{ A int }
					var sk struct {
						Z int
					}
					for name, err := range map[string]error{
						"a map":                     bencode.Unmarshal([]byte(s), &m),
						"a struct":                  bencode.Unmarshal([]byte(s), &st),
						"a value of an unknown key": bencode.Unmarshal([]byte("d1:a"+s+"e"), &sk),
					} {
						if (err == nil) != (vd == good) {
							e.Failf("%q into %s: err = %v, the keys are in order: %v", s, name, err, vd == good)
						}
					}
				})
			}
		}
	}
}

type depthStruct struct {
	A int
	D *depthStruct
}

// Types that hold themselves, also beside elements that are taken raw.
type (
	depthList []depthList
	depthMap  map[string]depthMap
	depthRaw  struct {
		A bencode.RawMessage
		D *depthRaw
	}
	depthRaws []struct {
		A bencode.RawMessage
		D depthRaws
	}
	depthAny struct {
		A any
		D []*depthAny
	}
)

// grammarSizes: lengths that are not there and nesting without end.
// grammarWidth: only nesting is bounded, not the number of values.
func grammarWidth(e *mc.Enum) {
	vs.MapOrder = 0
	const many = 10100 // above the decoder's bound on depth
	targets := []func() any{
		func() any { return new(any) },
		func() any { return new(bencode.RawMessage) },
		func() any { return new([]any) },
		func() any { return new([]bencode.RawMessage) },
		func() any { return new([]*bencode.RawMessage) },
		func() any { return new([2]any) },
		func() any { return new([1]bencode.RawMessage) },
		func() any { return new(map[string]any) },
		func() any { return new(map[string]bencode.RawMessage) },
		func() any { return new(map[string]*bencode.RawMessage) },
		func() any { return new(struct{ Zz []any }) },
		func() any { return new(struct{ Zz bencode.RawMessage }) },
		func() any { return new(struct{ A int }) },
	}
	for _, el := range []string{"i1e", "1:a", "le", "de", "li1ee", "d1:ai1ee", "ll1:bee", "d1:ad1:bleee"} {
		for form := 0; form < 4; form++ {
			for ti, t := range targets {
				e.Casef(func() {
					e.State(fmt.Sprint(el, form))
					e.Trans(many)
					var b strings.Builder
					l := strings.Repeat(el, many)
					switch form {
					case 0:
						b.WriteString("l" + l + "e")
					case 1:
						b.WriteString("d")
						for i := 0; i < many; i++ {
							fmt.Fprintf(&b, "5:%05d%s", i, el)
						}
						b.WriteString("e")
					case 2:
						b.WriteString("d2:zzl" + l + "ee")
					case 3:
						b.WriteString("ll" + l + "el" + l + "ee")
					}
					v := t()
					if k := reflect.TypeOf(v).Elem().Kind(); (k == reflect.Map || k == reflect.Struct) != (form == 1 || form == 2) {
						if _, raw := v.(*bencode.RawMessage); !raw && k != reflect.Interface {
							return
						}
					}
					if err := bencode.Unmarshal([]byte(b.String()), v); err != nil {
						e.Failf("%d times %q, form %d, into %T: %v", many, el, form, v, err)
					}
				}, "many %q, form %d, into target %d", el, form, ti)
			}
		}
	}
}

func grammarSizes(e *mc.Enum) {
	vs.MapOrder = 0
	targets := []func() any{
		func() any { return new(any) },
		func() any { return new(bencode.RawMessage) },
		func() any { return new(string) },
		func() any { return new([]byte) },
		func() any { return new(map[string]any) },
		func() any { return new(struct{ A int }) },
		func() any { return new([]string) },
		func() any { return new([1]string) },
		func() any { return new(map[string]string) },
		func() any { return new(struct{ A []byte }) },
		func() any { return new(struct{ B bencode.RawMessage }) },
	}
	lens := []string{"-1", "-0", "-9223372036854775808", "+1", "+0", "1000000000", "99999999999", "9223372036854775807", "9223372036854775808", "18446744073709551616", "-", "+", "", "0x1", "1_0", " 1", "1 ", "1e3"}
	forms := []string{"%s:", "%s:a", "l%s:ae", "d%s:ai1ee", "d1:a%s:ae", "d1:al%s:aee", "d1:b%s:ae", "d1:bd%s:ai1eee", "l1:a%s:ae"}
	for _, l := range lens {
		for _, f := range forms {
			for ti, t := range targets {
				if e.Stopped() {
					return
				}
				s := fmt.Sprintf(f, l)
				e.Casef(func() {
					e.State(s)
					e.Trans(1)
					v := t()
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					err := bencode.Unmarshal([]byte(s), v)
					runtime.ReadMemStats(&m1)
					if err == nil {
						e.Failf("%q decodes into %T without an error", s, v)
					}
					if a := m1.TotalAlloc - m0.TotalAlloc; a > 1<<22 {
						e.Failf("decoding %q (%d bytes) into %T allocates %d bytes", s, len(s), v, a)
					}
				}, "%q into target %d", s, ti)
			}
		}
	}
	// integers with signs and zeros
	for _, i := range []string{"+1", "+0", "-0", "-", "+", "", "00", "01", "-01", "--1", "+-1", "1-", "0x1", "1_0", " 1", "1 ", "1.0", "1e", "9223372036854775808", "-9223372036854775809", "99999999999999999999"} {
		for _, f := range []string{"i%se", "li%see", "d1:ai%see", "d1:bi%see", "d1:bli%seee"} {
			for ti, t := range []func() any{
				func() any { return new(any) },
				func() any { return new(bencode.RawMessage) },
				func() any { return new(int64) },
				func() any { return new(uint8) },
				func() any { return new([]int64) },
				func() any { return new([0]int64) },
				func() any { return new(map[string]int64) },
				func() any { return new(struct{ A int64 }) },
				func() any { return new(struct{ A uint16 }) },
			} {
				if e.Stopped() {
					return
				}
				s := fmt.Sprintf(f, i)
				huge := len(i) > 18
				e.Casef(func() {
					e.State(s)
					e.Trans(1)
					v := t()
					err := bencode.Unmarshal([]byte(s), v)
					if err == nil {
						if huge {
							switch v.(type) {
							case *bencode.RawMessage, *[0]int64, *struct{ A int64 }, *struct{ A uint16 }:
								return // may be skipped
							}
						}
						if i == "1e" {
							if _, n, vd, _ := parse(s); vd == good && n < len(s) {
								return // the value ends early
							}
						}
						e.Failf("%q decodes into %T without an error: %v", s, v, reflect.ValueOf(v).Elem())
					}
				}, "%q into target %d", s, ti)
			}
		}
	}
	// nesting
	for _, depth := range []int{1, 10, 100, 1000, 9990, 20000, 100000, 3000000} {
		for fi, f := range []struct{ open, mid, close string }{
			{"l", "", "e"}, {"d1:a", "i1e", "e"}, {"ld1:k", "le", "ee"}, {"d1:d", "de", "e"},
			{"d1:ale1:d", "de", "e"}, {"ld1:ad1:x0:e1:d", "le", "ee"}, {"d1:d", "i1e", "1:e0:e"},
		} {
			for ti, t := range []func() any{
				func() any { return new(any) },
				func() any { return new(bencode.RawMessage) },
				func() any { return new(struct{ Z int }) },
				func() any { return new([]any) },
				func() any { return new([0]int) },
				func() any { return new(depthStruct) },
				func() any { return new(depthList) },
				func() any { return new(depthMap) },
				func() any { return new(depthRaw) },
				func() any { return new(depthRaws) },
				func() any { return new(depthAny) },
			} {
				for _, closed := range []bool{true, false} {
					if e.Stopped() {
						return
					}
					e.Casef(func() {
						e.State(fmt.Sprint("depth", depth, fi, ti, closed))
						e.Trans(1)
						s := strings.Repeat(f.open, depth)
						if closed {
							s += f.mid + strings.Repeat(f.close, depth)
						}
						v := t()
						err := bencode.Unmarshal([]byte(s), v)
						if !closed && err == nil {
							e.Failf("an unterminated document of depth %d decodes into %T", depth, v)
						}
						if closed && depth <= 100 && ti < 2 && err != nil {
							e.Failf("a document of depth %d does not decode into %T: %v", depth, v, err)
						}
					}, "depth %d form %d target %d closed %v", depth, fi, ti, closed)
				}
			}
		}
	}
}
