package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

var atoms = []*N{nint(0), nint(-1), nint(10), nstr(""), nstr("a"), nstr("e1:\x00\xff")}
var moreAtoms = append(append([]*N{}, atoms...), nint(1), nint(math.MaxInt64), nint(math.MinInt64), nstr("ab"), nstr(strings.Repeat("x", 33)), nstr("\xc3\x28"))
var keys = []string{"", "a", "a b", "b", "ba"}

func init() {
	mc.Register(&mc.Check{
		ID: "C01", QuickSecs: 40,
		Units: []mc.Unit{
			{Name: "untyped", Enum: untypedRoundTrip, Weight: 3},
			{Name: "typed", Enum: typedRoundTrip, Weight: 2},
			{Name: "struct", Enum: structRoundTrip, Weight: 2},
			{Name: "depth", Enum: depthRoundTrip, Weight: 0.5},
			{Name: "width", Enum: widthRoundTrip, Weight: 1},
			{Name: "nil", Enum: nilValues, Weight: 0.5},
			{Name: "cycles", Enum: cycles, Weight: 0.3},
			{Name: "which-field", Enum: whichField, Weight: 1},
			{Name: "same name", Enum: namesakes, Weight: 0.3},
			{Name: "writer-faults", Enum: writerFaults, Weight: 0.5},
		},
		Explain:     "every value tree of a bounded number of nodes, every combination of field values of a table of struct types, every order of map iteration, types of the same name; compared with an independent encoder of the grammar, then decoded again",
		Assumptions: []string{"values are trees over the atoms and keys listed in h/codec/c01.go", "map iteration order is explored as which key comes first"},
	})
}

// roundTrip checks one value against its reference.
func roundTrip(fail func(string, ...any), v any, want *N, zero func() any, eq any) {
	ref := want.enc()
	b, err := bencode.Marshal(v)
	if err != nil {
		fail("Marshal fails: %v, want %q", err, ref)
		return
	}
	if string(b) != ref {
		fail("Marshal gives %q, want %q", b, ref)
		return
	}
	var buf bytes.Buffer
	if err := bencode.NewEncoder(&buf).Encode(v); err != nil || buf.String() != ref {
		fail("Encoder gives %q, %v, want %q", buf.String(), err, ref)
		return
	}
	dst := zero()
	if err := bencode.Unmarshal(b, dst); err != nil {
		fail("Unmarshal of what Marshal gave fails: %v (%q)", err, ref)
		return
	}
	got := reflect.ValueOf(dst).Elem().Interface()
	if !reflect.DeepEqual(got, eq) {
		fail("round trip of %q gives %#v, want %#v", ref, got, eq)
	}
}

func wide(n *N) bool {
	if n.Kind == 'd' && len(n.Keys) > 1 {
		return true
	}
	for _, x := range n.List {
		if wide(x) {
			return true
		}
	}
	return false
}

func untypedRoundTrip(e *mc.Enum) {
	vs.MapOrder = 5
	do := func(n *N) {
		if e.Stopped() || !e.Mine() {
			return
		}
		ref := n.enc()
		e.Run([]byte(ref), func() {
			e.State(ref)
			e.Trans(len(n.List) + 1)
			body := func(fail func(string, ...any)) {
				v := n.untyped()
				roundTrip(fail, v, n, func() any { var x any; return &x }, v)
				// the raw form passes through both ways
				var raw bencode.RawMessage
				if err := bencode.Unmarshal([]byte(ref), &raw); err != nil || string(raw) != ref {
					fail("RawMessage of %q is %q, %v", ref, raw, err)
				}
				for _, r := range []any{raw, &raw} {
					if b, err := bencode.Marshal(r); err != nil || string(b) != ref {
						fail("Marshal of a %T of %q gives %q, %v", r, ref, b, err)
					}
				}
			}
			if wide(n) {
				e.Walk(1, func() { body(vs.Failf) })
			} else {
				body(e.Failf)
			}
		})
	}
	for _, a := range moreAtoms {
		do(a)
	}
	trees(mc.Pick(4, 5), atoms, keys[:4], do)
	// wider dictionaries
	genDict(5, 0, []*N{nint(7)}, keys, &N{Kind: 'd'}, func(d *N, used int) { do(d) })
}

// ------------------------------------------------------------- typed values

type namedStr string
type namedInt int16

// valMarsh encodes itself with a value receiver, ptrMarsh with a pointer receiver.
type valMarsh struct{ X int }

func (m valMarsh) MarshalBencoding() ([]byte, error) { return bencode.Marshal(fmt.Sprintf("v%d", m.X)) }
func (m *valMarsh) UnmarshalBencoding(b []byte) error {
	var s string
	if err := bencode.Unmarshal(b, &s); err != nil {
		return err
	}
	_, err := fmt.Sscanf(s, "v%d", &m.X)
	return err
}

type ptrMarsh struct{ X int }

func (m *ptrMarsh) MarshalBencoding() ([]byte, error) {
	return bencode.Marshal(fmt.Sprintf("p%d", m.X))
}
func (m *ptrMarsh) UnmarshalBencoding(b []byte) error {
	var s string
	if err := bencode.Unmarshal(b, &s); err != nil {
		return err
	}
	_, err := fmt.Sscanf(s, "p%d", &m.X)
	return err
}

type badMarsh struct{}

func (badMarsh) MarshalBencoding() ([]byte, error) { return nil, errors.New("no") }
func (*badMarsh) UnmarshalBencoding([]byte) error  { return errors.New("no") }

type leaf struct {
	V int `bencode:"v"`
}

type node struct {
	Name string  `bencode:"n"`
	Kids []*node `bencode:"k"`
	Map  map[string]*node
}

func ptr[T any](v T) *T { return &v }

type typedCase struct {
	name string
	v    any
	n    *N
}

func sint[T ~int | ~int8 | ~int16 | ~int32 | ~int64](vs ...T) (cs []typedCase) {
	for _, v := range vs {
		cs = append(cs, typedCase{fmt.Sprintf("%T %d", v, v), v, nint(int64(v))})
	}
	return
}

func uint_[T ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](vs ...T) (cs []typedCase) {
	for _, v := range vs {
		cs = append(cs, typedCase{fmt.Sprintf("%T %d", v, v), v, nuint(uint64(v))})
	}
	return
}

// scalars are the leaves typed cases are composed of.
func scalars() (cs []typedCase) {
	cs = append(cs, sint[int](0, 1, -1, 9, 10, math.MaxInt64, math.MinInt64)...)
	cs = append(cs, sint[int8](0, 127, -128, -1)...)
	cs = append(cs, sint[int16](0, math.MaxInt16, math.MinInt16)...)
	cs = append(cs, sint[int32](0, math.MaxInt32, math.MinInt32)...)
	cs = append(cs, sint[int64](0, 100, math.MaxInt64, math.MinInt64)...)
	cs = append(cs, sint[namedInt](0, 5, -5)...)
	cs = append(cs, uint_[uint](0, 1, math.MaxUint64, 1<<63)...)
	cs = append(cs, uint_[uint8](0, 255)...)
	cs = append(cs, uint_[uint16](0, math.MaxUint16)...)
	cs = append(cs, uint_[uint32](0, math.MaxUint32)...)
	cs = append(cs, uint_[uint64](0, math.MaxUint64, math.MaxInt64)...)
	for _, s := range []string{"", "a", "spam", "0", "-1", "i1e", "\x00", "\xff\xfe", "é", strings.Repeat("y", 9), strings.Repeat("y", 10), strings.Repeat("z", 31), strings.Repeat("z", 32), strings.Repeat("z", 100), strings.Repeat("w", 5000), strings.Repeat("w", 70000)} {
		cs = append(cs, typedCase{fmt.Sprintf("string %d", len(s)), s, nstr(s)})
		cs = append(cs, typedCase{fmt.Sprintf("[]byte %d", len(s)), []byte(s), nstr(s)})
		cs = append(cs, typedCase{fmt.Sprintf("namedStr %d", len(s)), namedStr(s), nstr(s)})
	}
	cs = append(cs,
		typedCase{"leaf", leaf{3}, ndict("v", nint(3))},
		typedCase{"valMarsh", valMarsh{4}, nstr("v4")},
		typedCase{"raw", bencode.RawMessage("li1ee"), nlist(nint(1))},
		typedCase{"[]int{}", []int{}, nlist()},
		typedCase{"[]int", []int{3, 1, 2}, nlist(nint(3), nint(1), nint(2))},
		typedCase{"[][]byte", [][]byte{{1}, {}}, nlist(nstr("\x01"), nstr(""))},
		typedCase{"[][]int", [][]int{{}, {1}}, nlist(nlist(), nlist(nint(1)))},
		typedCase{"[0]int", [0]int{}, nlist()},
		typedCase{"[2]string", [2]string{"", "b"}, nlist(nstr(""), nstr("b"))},
		typedCase{"[3]byte", [3]byte{1, 0, 255}, nlist(nint(1), nint(0), nint(255))},
		typedCase{"map empty", map[string]int{}, ndict()},
		typedCase{"map", map[string]int{"b": 1, "a": 2, "": 3}, ndict("", nint(3), "a", nint(2), "b", nint(1))},
		typedCase{"map namedStr", map[namedStr][]string{"k": {"x"}, "K": {}}, ndict("K", nlist(), "k", nlist(nstr("x")))},
		typedCase{"map prefix keys", map[string]int{"a": 1, "aa": 2, "ab": 3, "b": 4, "a\x00": 5, "\xff": 6}, ndict("a", nint(1), "a\x00", nint(5), "aa", nint(2), "ab", nint(3), "b", nint(4), "\xff", nint(6))},
		typedCase{"map of map", map[string]map[string]string{"x": {"z": "1", "y": "2"}, "w": {}}, ndict("w", ndict(), "x", ndict("y", nstr("2"), "z", nstr("1")))},
		typedCase{"node", node{Name: "r", Kids: []*node{{Name: "c", Kids: []*node{}, Map: map[string]*node{"q": {Name: "d"}}}, {}}},
			ndict("n", nstr("r"), "k", nlist(ndict("n", nstr("c"), "k", nlist(), "map", ndict("q", ndict("n", nstr("d")))), ndict("n", nstr(""))))},
	)
	return
}

// typedRoundTrip puts every scalar case at the top level and inside every container.
func typedRoundTrip(e *mc.Enum) {
	vs.MapOrder = 6
	one := func(name string, v any, n *N, t reflect.Type) {
		if e.Stopped() || !e.Mine() {
			return
		}
		e.Run([]byte(name), func() {
			e.State(name)
			e.Trans(1)
			// once before the schedules: a cached type description is no part of them
			roundTrip(e.Failf, v, n, func() any { return reflect.New(t).Interface() }, v)
			e.Walk(1, func() {
				roundTrip(vs.Failf, v, n, func() any { return reflect.New(t).Interface() }, v)
				// by pointer, and by pointer to pointer
				p := reflect.New(t)
				p.Elem().Set(reflect.ValueOf(v))
				if b, err := bencode.Marshal(p.Interface()); err != nil || string(b) != n.enc() {
					vs.Failf("Marshal of a pointer gives %q, %v, want %q", b, err, n.enc())
				}
				pp := reflect.New(p.Type())
				pp.Elem().Set(p)
				if b, err := bencode.Marshal(pp.Interface()); err != nil || string(b) != n.enc() {
					vs.Failf("Marshal of a pointer to a pointer gives %q, %v, want %q", b, err, n.enc())
				}
				q := reflect.New(p.Type())
				if err := bencode.Unmarshal([]byte(n.enc()), q.Interface()); err != nil {
					vs.Failf("Unmarshal into a pointer to a nil pointer: %v", err)
				} else if !reflect.DeepEqual(q.Elem().Elem().Interface(), v) {
					vs.Failf("Unmarshal into a pointer to a nil pointer gives %#v, want %#v", q.Elem().Elem().Interface(), v)
				}
			})
		})
	}
	cs := scalars()
	cs = append(cs, typedCase{"ptrMarsh", ptrMarsh{5}, nil})
	for _, c := range cs {
		t := reflect.TypeOf(c.v)
		v := reflect.ValueOf(c.v)
		pv := reflect.New(t)
		pv.Elem().Set(v)
		if c.n == nil {
			// pointer receiver: encoded by it wherever it is addressable
			n := nstr("p5")
			one("*ptrMarsh", pv.Interface(), n, pv.Type())
			sl := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
			sl.Index(0).Set(v)
			sl.Index(1).Set(v)
			one("[]ptrMarsh", sl.Interface(), nlist(n, n), sl.Type())
			c.n = n
		} else {
			one(c.name, c.v, c.n, t)
			if t.Kind() != reflect.Uint8 {
				sl := reflect.MakeSlice(reflect.SliceOf(t), 2, 2)
				sl.Index(0).Set(v)
				sl.Index(1).Set(v)
				one("[]"+c.name, sl.Interface(), nlist(c.n, c.n), sl.Type())
				arr := reflect.New(reflect.ArrayOf(2, t)).Elem()
				arr.Index(0).Set(v)
				arr.Index(1).Set(v)
				one("[2]"+c.name, arr.Interface(), nlist(c.n, c.n), arr.Type())
			}
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), t))
			m.SetMapIndex(reflect.ValueOf("z"), v)
			m.SetMapIndex(reflect.ValueOf("k"), v)
			one("map "+c.name, m.Interface(), ndict("k", c.n, "z", c.n), m.Type())
		}
		psl := reflect.MakeSlice(reflect.SliceOf(pv.Type()), 1, 1)
		psl.Index(0).Set(pv)
		one("[]*"+c.name, psl.Interface(), nlist(c.n), psl.Type())
		pm := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), pv.Type()))
		pm.SetMapIndex(reflect.ValueOf("p"), pv)
		one("map *"+c.name, pm.Interface(), ndict("p", c.n), pm.Type())
		for _, f := range []struct {
			t reflect.Type
			v reflect.Value
		}{{t, v}, {pv.Type(), pv}} {
			for _, tag := range []string{``, `bencode:"tag name"`, `bencode:"UPPER"`, `bencode:",omitempty"`, `bencode:"o,omitempty"`} {
				if c.name == "ptrMarsh" && f.t.Kind() != reflect.Pointer {
					continue
				}
				st := reflect.StructOf([]reflect.StructField{
					{Name: "Zed", Type: reflect.TypeFor[int]()},
					{Name: "Field", Type: f.t, Tag: reflect.StructTag(tag)},
				})
				sv := reflect.New(st).Elem()
				sv.Field(0).SetInt(1)
				sv.Field(1).Set(f.v)
				key := map[string]string{``: "field", `bencode:"tag name"`: "tag name", `bencode:"UPPER"`: "upper", `bencode:",omitempty"`: "field", `bencode:"o,omitempty"`: "o"}[tag]
				n := ndict("zed", nint(1), key, c.n)
				if strings.Contains(tag, "omitempty") && f.t.Kind() != reflect.Pointer && emptyValue(f.v) {
					n = ndict("zed", nint(1))
					// an omitted value comes back as the zero value
					if f.v.Kind() == reflect.Slice || f.v.Kind() == reflect.Map {
						continue
					}
				}
				one("struct{"+tag+"}"+f.t.String()+" "+c.name, sv.Interface(), n, st)
			}
		}
	}
}

func emptyValue(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.String, reflect.Array:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

// ------------------------------------------------------------- struct fields

type Emb struct {
	E1 int    `bencode:"e1"`
	A  string // hidden by the outer A
	S  int
}

type EmbP struct {
	P1 string
	S  int // conflicts with Emb.S at the same depth: neither counts
}

type lower struct {
	L1 int
}

type Big struct {
	A int
	B string            `bencode:"bee"`
	C []byte            `bencode:"a c,omitempty"`
	D *int              `bencode:"0"`
	E []string          `bencode:"~"`
	F map[string]uint64 `bencode:",omitempty"`
	G [2]uint8
	H string `bencode:"-"`
	I any
	J *leaf `bencode:"x,omitempty"`
	k int
	Emb
	*EmbP
	lower
	Tagged leaf `bencode:"Tagged Leaf"`
}

func structRoundTrip(e *mc.Enum) {
	vs.MapOrder = 0
	type opt struct {
		set, want func(*Big)
		n         map[string]*N
	}
	same := func(f func(*Big), kv ...any) opt {
		m := map[string]*N{}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(*N)
		}
		return opt{f, f, m}
	}
	diff := func(f, w func(*Big), kv ...any) opt {
		o := same(f, kv...)
		o.want = w
		return o
	}
	none := func(*Big) {}
	fields := [][]opt{
		{same(none, "a", nint(0)), same(func(b *Big) { b.A = -7 }, "a", nint(-7))},
		{same(none, "bee", nstr("")), same(func(b *Big) { b.B = "x:y" }, "bee", nstr("x:y"))},
		{same(none), diff(func(b *Big) { b.C = []byte{} }, none), same(func(b *Big) { b.C = []byte{0} }, "a c", nstr("\x00"))},
		{same(none), same(func(b *Big) { b.D = ptr(0) }, "0", nint(0))},
		{same(none), same(func(b *Big) { b.E = []string{} }, "~", nlist()), same(func(b *Big) { b.E = []string{"", "q"} }, "~", nlist(nstr(""), nstr("q")))},
		{same(none), diff(func(b *Big) { b.F = map[string]uint64{} }, none), same(func(b *Big) { b.F = map[string]uint64{"m": math.MaxUint64, "l": 0} }, "f", ndict("l", nint(0), "m", nuint(math.MaxUint64)))},
		{same(none, "g", nlist(nint(0), nint(0))), same(func(b *Big) { b.G = [2]uint8{255, 1} }, "g", nlist(nint(255), nint(1)))},
		{same(none), diff(func(b *Big) { b.H = "hidden" }, none), diff(func(b *Big) { b.k = 9 }, none)},
		{same(none), same(func(b *Big) { b.I = 5 }, "i", nint(5)), same(func(b *Big) { b.I = []any{"s", map[string]any{"t": 1}} }, "i", nlist(nstr("s"), ndict("t", nint(1))))},
		{same(none), same(func(b *Big) { b.J = &leaf{} }, "x", ndict("v", nint(0)))},
		{same(none, "e1", nint(0)), same(func(b *Big) { b.E1 = 3 }, "e1", nint(3)), diff(func(b *Big) { b.E1 = 3; b.Emb.A = "lost"; b.Emb.S = 1 }, func(b *Big) { b.E1 = 3 }, "e1", nint(3))},
		{same(none), same(func(b *Big) { b.EmbP = &EmbP{P1: "pp"} }, "p1", nstr("pp")), diff(func(b *Big) { b.EmbP = &EmbP{P1: "", S: 4} }, func(b *Big) { b.EmbP = &EmbP{} }, "p1", nstr(""))},
		{same(none, "l1", nint(0)), same(func(b *Big) { b.L1 = 1 << 40 }, "l1", nint(1<<40))},
		{same(none, "tagged leaf", ndict("v", nint(0))), same(func(b *Big) { b.Tagged.V = 1 }, "tagged leaf", ndict("v", nint(1)))},
	}
	var rec func(i int, idx []int)
	rec = func(i int, idx []int) {
		if e.Stopped() {
			return
		}
		if i < len(fields) {
			for k := range fields[i] {
				rec(i+1, append(idx, k))
			}
			return
		}
		if !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprint(idx)), func() {
			var v, w Big
			var kv []any
			for f, k := range idx {
				o := fields[f][k]
				o.set(&v)
				o.want(&w)
				for key, n := range o.n {
					kv = append(kv, key, n)
				}
			}
			n := ndict(kv...)
			e.State(n.enc())
			e.Trans(len(n.Keys))
			roundTrip(e.Failf, v, n, func() any { return new(Big) }, w)
			if b, err := bencode.Marshal(&v); err != nil || string(b) != n.enc() {
				e.Failf("Marshal of a pointer gives %q, %v, want %q", b, err, n.enc())
			}
			// a key that names a field without an encoding is skipped like an unknown one
			var d Big
			if err := bencode.Unmarshal([]byte(ndict("s", nint(8), "h", nstr("h"), "k", nint(1)).enc()), &d); err != nil || d.Emb.S != 0 || d.EmbP != nil || d.H != "" || d.k != 0 {
				e.Failf("keys of conflicting, ignored or unexported fields are not skipped: %+v, %v", d, err)
			}
		})
	}
	rec(0, nil)
}

// ------------------------------------------------------------- types of the same name

func namesake1(a int) (any, *N, func() any) {
	type Same struct {
		A int
		B string
		C []string `bencode:"see"`
	}
	return Same{a, "b1", []string{"c"}}, ndict("a", nint(int64(a)), "b", nstr("b1"), "see", nlist(nstr("c"))), func() any { return new(Same) }
}

func namesake2(a int) (any, *N, func() any) {
	type Same struct {
		B string `bencode:"a"`
		A int    `bencode:"-"`
		D int    `bencode:"b,omitempty"`
		C string `bencode:"see,omitempty"`
	}
	return Same{B: "b2", D: a}, ndict("a", nstr("b2"), "b", nint(int64(a))), func() any { return new(Same) }
}

func namesake3(a int) (any, *N, func() any) {
	type Same struct{ X, Y, Z int }
	return Same{a, a + 1, a + 2}, ndict("x", nint(int64(a)), "y", nint(int64(a+1)), "z", nint(int64(a+2))), func() any { return new(Same) }
}

// namesakes: what is known of a type does not serve for another of its name.
func namesakes(e *mc.Enum) {
	vs.MapOrder = 0
	fs := []func(int) (any, *N, func() any){namesake1, namesake2, namesake3}
	for n := 0; n < 3*3*3*8; n++ {
		e.Casef(func() {
			e.State(fmt.Sprint(n))
			for k, m := 0, n; k < 3; k++ {
				v, want, dst := fs[m%3](k + 3)
				enc := n/27>>k&1 == 0
				m /= 3
				e.Trans(1)
				if enc {
					if b, err := bencode.Marshal(v); err != nil || string(b) != want.enc() {
						e.Failf("%T %+v encodes to %q, %v, want %q", v, v, b, err, want.enc())
					}
					continue
				}
				p := dst()
				if err := bencode.Unmarshal([]byte(want.enc()), p); err != nil || !reflect.DeepEqual(reflect.ValueOf(p).Elem().Interface(), v) {
					e.Failf("%q decodes to %+v, %v, want %+v", want.enc(), p, err, v)
				}
			}
			for _, f := range fs {
				v, want, _ := f(n + 1)
				if b, err := bencode.Marshal([]any{v, &v}); err != nil || string(b) != nlist(want, want).enc() {
					e.Failf("%T %+v encodes to %q, %v", v, v, b, err)
				}
			}
		}, "%d", n)
	}
}

// ------------------------------------------------------------- nesting

func nest(kind, depth int) (any, *N) {
	var v any = 1
	n := nint(1)
	for i := 0; i < depth; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			v = []any{v}
			n = nlist(n)
		} else {
			v = map[string]any{"k": v}
			n = ndict("k", n)
		}
	}
	return v, n
}

func depthRoundTrip(e *mc.Enum) {
	for kind := 0; kind < 3; kind++ {
		for _, d := range []int{1, 2, 10, 100, 500, 900, 999, 1000} {
			e.Casef(func() {
				e.State(fmt.Sprint(kind, d))
				e.Trans(d)
				v, n := nest(kind, d)
				roundTrip(e.Failf, v, n, func() any { var x any; return &x }, v)
			}, "kind %d depth %d", kind, d)
		}
	}
	// an encoder can be used again, also after many values and after errors
	for _, d := range []int{1, 3} {
		e.Casef(func() {
			var buf bytes.Buffer
			enc := bencode.NewEncoder(&buf)
			v, n := nest(2, d)
			for i := 0; i < 3000; i++ {
				e.Trans(1)
				buf.Reset()
				if i%2 == 1 {
					if err := enc.Encode([]any{map[string]any{"x": 1.5}}); err == nil {
						e.Failf("a float is encoded")
					}
					continue
				}
				if err := enc.Encode(v); err != nil || buf.String() != n.enc() {
					e.Failf("value %d of one encoder: %q, %v", i, buf.String(), err)
					return
				}
			}
		}, "one encoder, depth %d", d)
	}
}

// ------------------------------------------------------------- nil and unsupported values

type cyc struct{ Next *cyc }

func nilValues(e *mc.Enum) {
	vs.MapOrder = 3
	var nilI any
	var nilP *int
	var nilS []int
	var nilM map[string]int
	nils := []any{nilI, nilP, nilS, nilM, (*leaf)(nil), (**int)(nil), &nilP, &nilS, &nilM, (*valMarsh)(nil), (*ptrMarsh)(nil), (*bencode.RawMessage)(nil), bencode.RawMessage(nil), []any(nil)}
	bads := []any{1.5, true, make(chan int), func() {}, complex(1, 1), map[int]int{1: 1}, struct{ F float64 }{1}, badMarsh{}}
	wraps := []func(any) any{
		func(v any) any { return []any{v} },
		func(v any) any { return []any{1, v, "x"} },
		func(v any) any { return map[string]any{"k": v} },
		func(v any) any { return map[string]any{"a": 1, "k": v, "z": 2} },
		func(v any) any { return struct{ A, K any }{1, v} },
		func(v any) any { return struct{ K *any }{&v} },
		func(v any) any { return &v },
		func(v any) any { return map[string]any{"x": []any{map[string]any{"k": v}}} },
	}
	// Nil values have no encoding. Whatever is done about them, nothing panics
	// and what is emitted without an error is well formed.
	for i, v := range nils {
		e.Casef(func() {
			e.State(fmt.Sprint("nil", i))
			b, err := bencode.Marshal(v)
			if err == nil && len(b) > 0 {
				if _, n, vd, _ := parse(string(b)); vd != good || n != len(b) {
					e.Failf("Marshal(%T nil) = %q", v, b)
				}
			}
		}, "nil %d %T", i, v)
		for j, w := range wraps {
			e.Casef(func() {
				e.State(fmt.Sprint("nil", i, j))
				e.Trans(1)
				x := w(v)
				b, err := bencode.Marshal(x)
				if err != nil {
					return
				}
				if j == 6 && len(b) == 0 {
					return
				}
				if _, n, vd, _ := parse(string(b)); vd != good || n != len(b) {
					e.Failf("Marshal of a value with a nil %T inside (wrap %d) gives %q, which is not bencoded data", v, j, b)
				}
			}, "nil %d %T in wrap %d", i, v, j)
		}
	}
	for i, v := range bads {
		e.Casef(func() {
			e.State(fmt.Sprint("bad", i))
			if b, err := bencode.Marshal(v); err == nil {
				e.Failf("Marshal(%T) = %q without an error", v, b)
			}
			for j, w := range wraps {
				e.Trans(1)
				if b, err := bencode.Marshal(w(v)); err == nil {
					e.Failf("Marshal of a value with a %T inside (wrap %d) = %q without an error", v, j, b)
				}
			}
		}, "unsupported %d %T", i, v)
	}
}

// cycles: a value that leads back to itself, by pointers alone or through any
// of the containers, is an error, wherever it stands; a long chain of pointers
// is no cycle.
func cycles(e *mc.Enum) {
	vs.MapOrder = 0
	type selfPtr *selfPtr
	mk := map[string]func() any{
		"struct":            func() any { c := &cyc{}; c.Next = c; return c },
		"struct of 2":       func() any { c := &cyc{Next: &cyc{}}; c.Next.Next = c; return c },
		"list":              func() any { l := []any{nil}; l[0] = l; return l },
		"list after others": func() any { l := []any{1, "a", nil}; l[2] = l; return l },
		"map":               func() any { m := map[string]any{}; m["m"] = m; return m },
		"map and list":      func() any { m := map[string]any{}; m["m"] = []any{m}; return m },
		"pointer":           func() any { var x any; x = &x; return x },
		"pointers":          func() any { var x, y any; x = &y; y = &x; return x },
		"typed pointer":     func() any { var p selfPtr; p = selfPtr(&p); return p },
		"pointer to list":   func() any { l := []any{nil}; l[0] = &l; return &l },
		"pointer to map":    func() any { m := map[string]any{}; m["q"] = &m; return &m },
	}
	wraps := map[string]func(any) any{
		"itself":       func(v any) any { return v },
		"list":         func(v any) any { return []any{v} },
		"list, second": func(v any) any { return []any{1, v} },
		"map":          func(v any) any { return map[string]any{"k": v} },
		"field":        func(v any) any { return struct{ K any }{v} },
		"omitempty": func(v any) any {
			return struct {
				K any `bencode:",omitempty"`
			}{v}
		},
		"pointer":   func(v any) any { return &v },
		"field ptr": func(v any) any { return struct{ K *any }{&v} },
		"typed map": func(v any) any { return map[string]*any{"k": &v} },
		"array":     func(v any) any { return [1]any{v} },
	}
	for name, f := range mk {
		for wn, w := range wraps {
			e.Casef(func() {
				e.State(name + wn)
				e.Trans(2)
				var buf bytes.Buffer
				enc := bencode.NewEncoder(&buf)
				if err := enc.Encode(w(f())); err == nil {
					e.Failf("encoding a cycle (%s in %s) ends without an error", name, wn)
				}
				// the encoder lives on
				buf.Reset()
				if err := enc.Encode([]any{1, &name}); err != nil || buf.String() != fmt.Sprintf("li1e%d:%se", len(name), name) {
					e.Failf("after the error of a cycle (%s in %s) the encoder gives %q, %v", name, wn, buf.String(), err)
				}
			}, "cycle %s in %s", name, wn)
		}
	}
	for _, n := range []int{1, 2, 3, 10, 99, 100, 400} {
		for wn, w := range wraps {
			e.Casef(func() {
				e.State(fmt.Sprint(n, wn))
				e.Trans(n)
				chain := func() any {
					var v any = 5
					for range n {
						next := v
						v = &next
					}
					return v
				}
				want := map[string]string{"itself": "i5e", "pointer": "i5e", "list": "li5ee", "array": "li5ee", "list, second": "li1ei5ee"}[wn]
				if want == "" {
					want = "d1:ki5ee"
				}
				if b, err := bencode.Marshal(w(chain())); err != nil || string(b) != want {
					e.Failf("a chain of %d pointers in %s gives %q, %v, want %q", n, wn, b, err, want)
				}
				long := make([]any, 50)
				for i := range long {
					long[i] = chain()
				}
				if b, err := bencode.Marshal(long); err != nil || string(b) != "l"+strings.Repeat("i5e", len(long))+"e" {
					e.Failf("a list of chains of %d pointers gives %q, %v", n, b, err)
				}
			}, "chain of %d in %s", n, wn)
		}
	}
}

// whichField: of several fields with one key, the one at the least depth
// stands for it; among those of that depth, the one with a tag; where that
// leaves more than one, none. The order in which the fields are written is of
// no consequence.
func whichField(e *mc.Enum) {
	vs.MapOrder = 0
	type cand struct {
		depth  int
		tagged bool
		val    int64
	}
	intT := reflect.TypeFor[int64]()
	// options of one struct: no field of the key, one without a tag, one whose
	// tag is the name, one of another name, and the same one level deeper
	field := func(o int) (reflect.StructField, bool) {
		switch o {
		case 1:
			return reflect.StructField{Name: "S", Type: intT}, true
		case 2:
			return reflect.StructField{Name: "S", Type: intT, Tag: `bencode:"s"`}, true
		case 3:
			return reflect.StructField{Name: "T", Type: intT, Tag: `bencode:"s"`}, true
		case 4:
			return reflect.StructField{Name: "S", Type: intT, Tag: `bencode:"S,omitempty"`}, true
		}
		return reflect.StructField{}, false
	}
	const opts, deep = 5, 3 // 0..4, then 5..7 for 1..3 one level deeper
	for direct := 0; direct < opts; direct++ {
		for a := 0; a < opts+deep; a++ {
			for b := 0; b < opts+deep; b++ {
				for c := 0; c < mc.Pick(opts, opts+deep); c++ {
					for pt := 0; pt < 2; pt++ {
						if e.Stopped() {
							return
						}
						e.Casef(func() {
							name := fmt.Sprint(direct, a, b, c, pt)
							var cands []cand
							next := int64(0)
							type setter struct {
								index []int
								val   int64
							}
							var sets []setter
							add := func(depth int, tagged bool, index ...int) {
								next++
								cands = append(cands, cand{depth, tagged, next})
								sets = append(sets, setter{index, next})
							}
							var fs []reflect.StructField
							var ptrs []int
							for i, o := range []int{a, b, c} {
								var in []reflect.StructField
								in = append(in, reflect.StructField{Name: fmt.Sprintf("U%d", i), Type: intT})
								if o < opts {
									if f, ok := field(o); ok {
										in = append(in, f)
										add(1, o > 1, i, 1)
									}
								} else {
									f, _ := field(o - opts + 1)
									st := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("V%d", i), Type: intT}, f})
									in = append(in, reflect.StructField{Name: fmt.Sprintf("D%d", i), Type: st, Anonymous: true})
									add(2, o-opts+1 > 1, i, 1, 1)
								}
								t := reflect.StructOf(in)
								if pt == 1 && i < 2 {
									t = reflect.PointerTo(t)
									ptrs = append(ptrs, i)
								}
								fs = append(fs, reflect.StructField{Name: fmt.Sprintf("E%d", i), Type: t, Anonymous: true})
							}
							if f, ok := field(direct); ok {
								fs = append(fs, f)
								add(0, direct > 1, 3)
							}
							// the rule
							best, tags, bare := 9, 0, 0
							var pick *cand
							for i := range cands {
								best = min(best, cands[i].depth)
							}
							for i := range cands {
								if cands[i].depth != best {
									continue
								}
								if cands[i].tagged {
									tags++
								} else {
									bare++
								}
							}
							for i := range cands {
								if cands[i].depth == best && (tags == 1 && cands[i].tagged || tags == 0 && bare == 1) {
									pick = &cands[i]
								}
							}
							e.State(name)
							e.Trans(len(cands))
							T := reflect.StructOf(fs)
							fill := func(v reflect.Value, all bool) {
								for _, i := range ptrs {
									v.Field(i).Set(reflect.New(T.Field(i).Type.Elem()))
								}
								for _, s := range sets {
									if all || pick != nil && pick.val == s.val {
										v.FieldByIndex(s.index).SetInt(s.val)
									}
								}
							}
							v := reflect.New(T)
							fill(v.Elem(), true)
							n := &N{Kind: 'd'}
							if pick != nil {
								n.Keys, n.List = append(n.Keys, "s"), append(n.List, nint(pick.val))
							}
							for i, o := range []int{a, b, c} {
								n.Keys, n.List = append(n.Keys, fmt.Sprintf("u%d", i)), append(n.List, nint(0))
								_ = o
							}
							for i, o := range []int{a, b, c} {
								if o >= opts {
									n.Keys, n.List = append(n.Keys, fmt.Sprintf("v%d", i)), append(n.List, nint(0))
								}
							}
							bs, err := bencode.Marshal(v.Interface())
							if err != nil || string(bs) != n.enc() {
								e.Failf("Marshal of %v gives %q, %v, want %q", T, bs, err, n.enc())
							}
							// decoding sets that field and no other
							in := *n
							if pick == nil {
								in.Keys = append([]string{"s"}, n.Keys...)
								in.List = append([]*N{nint(77)}, n.List...)
							}
							got, want := reflect.New(T), reflect.New(T)
							fill(want.Elem(), false)
							if err := bencode.Unmarshal([]byte(in.enc()), got.Interface()); err != nil || !reflect.DeepEqual(got.Interface(), want.Interface()) {
								e.Failf("Unmarshal of %q into %v gives %+v, %v, want %+v", in.enc(), T, got.Elem().Interface(), err, want.Elem().Interface())
							}
						}, "fields %d, %d %d %d, pointers %d", direct, a, b, c, pt)
					}
				}
			}
		}
	}
}

// ------------------------------------------------------------- writer faults

type failWriter struct {
	left int
	got  []byte
}

var errWriter = errors.New("writer is full")

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.left -= len(p)
		w.got = append(w.got, p...)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.got = append(w.got, p[:n]...)
	return n, errWriter
}

func writerFaults(e *mc.Enum) {
	vs.MapOrder = 0
	trees(mc.Pick(3, 4), []*N{nint(-10), nstr("spam"), nstr("")}, []string{"a", "bb"}, func(n *N) {
		ref := n.enc()
		for k := 0; k < len(ref); k++ {
			if e.Stopped() {
				return
			}
			e.Casef(func() {
				e.State(ref)
				e.Trans(1)
				w := &failWriter{left: k}
				err := bencode.NewEncoder(w).Encode(n.untyped())
				if err == nil {
					e.Failf("Encode of %q succeeds although the writer fails after %d bytes", ref, k)
				}
				if !strings.HasPrefix(ref, string(w.got)) {
					e.Failf("Encode of %q has written %q to a writer that fails after %d bytes", ref, w.got, k)
				}
			}, "%q, writer fails after %d", ref, k)
		}
	})
}

// widthRoundTrip: any number of values may stand side by side, in one value
// and in the life of one encoder.
func widthRoundTrip(e *mc.Enum) {
	vs.MapOrder = 0
	const many = 1100 // above the encoder's bound on depth
	for _, c := range scalars() {
		if len(c.n.enc()) > 200 {
			continue
		}
		e.Casef(func() {
			e.State(c.name)
			l := make([]any, many)
			ln := nlist()
			m := make(map[string]any)
			mn := &N{Kind: 'd'}
			for i := range l {
				l[i] = c.v
				ln.List = append(ln.List, c.n)
				k := fmt.Sprintf("%04d", i)
				m[k] = c.v
				mn.Keys, mn.List = append(mn.Keys, k), append(mn.List, c.n)
			}
			e.Trans(3 * many)
			if b, err := bencode.Marshal(l); err != nil || string(b) != ln.enc() {
				e.Failf("a list of %d: %d bytes, %v", many, len(b), err)
			}
			if b, err := bencode.Marshal(m); err != nil || string(b) != mn.enc() {
				e.Failf("a map of %d: %d bytes, %v", many, len(b), err)
			}
			if c.n.hugeInt() {
				return // beyond 64 bits where it is skipped: open
			}
			var back []bencode.RawMessage
			if err := bencode.Unmarshal([]byte(ln.enc()), &back); err != nil || len(back) != many {
				e.Failf("decoding a list of %d gives %d, %v", many, len(back), err)
			}
			var any1 any
			if err := bencode.Unmarshal([]byte(mn.enc()), &any1); err != nil {
				e.Failf("decoding a map of %d: %v", many, err)
			}
			var buf bytes.Buffer
			enc := bencode.NewEncoder(&buf)
			for i := range l {
				buf.Reset()
				if err := enc.Encode(c.v); err != nil || buf.String() != c.n.enc() {
					e.Failf("value %d of one encoder: %q, %v", i, buf.String(), err)
					return
				}
			}
			var wide strings.Builder
			for i := 0; i < 12000; i++ {
				wide.WriteString(c.n.enc())
			}
			d := bencode.NewDecoder(strings.NewReader(wide.String()))
			for i := 0; i < 12000; i++ {
				var r bencode.RawMessage
				if err := d.Decode(&r); err != nil {
					e.Failf("value %d of one decoder: %v", i, err)
					return
				}
			}
		}, "width %s", c.name)
	}
}
