package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C03",
		Units: []mc.Unit{
			{Name: "fresh", Enum: func(e *mc.Enum) { typedDecode(e, false) }, Weight: 4},
			{Name: "stale", Enum: func(e *mc.Enum) { typedDecode(e, true) }, Weight: 2},
			{Name: "emptied", Enum: emptiedSlices, Weight: 1},
			{Name: "siblings", Enum: siblings, Weight: 2},
			{Name: "integers", Enum: intFit, Weight: 1},
			{Name: "fields", Enum: fieldMatch, Weight: 1},
			{Name: "embedding", Enum: embedMatch, Weight: 1},
			{Name: "targets", Enum: badTargets, Weight: 0.3},
		},
		Explain:     "every document of a bounded number of nodes into every destination type of a table (leaf types, their containers, containers of containers), fresh, already holding a value, and slices that were emptied for reuse, and every pair of fitting elements in containers of containers; structs embedded in each other four deep, by value and by pointer, with fields and tags that clash; compared with a reference decoder that either gives the value or says the document does not fit",
		Assumptions: []string{"after an error the destination may hold anything", "what remains of old elements of a list or array that are containers themselves is left open"},
	})
}

var (
	tValMarsh = reflect.TypeFor[valMarsh]()
	tRaw      = reflect.TypeFor[bencode.RawMessage]()
	tBad      = reflect.TypeFor[badMarsh]()
)

// refDecode decodes n into v as specified; false: it does not fit.
func refDecode(n *N, v reflect.Value) bool {
	switch v.Type() {
	case tRaw:
		v.SetBytes([]byte(n.enc()))
		return true
	case tValMarsh:
		if n.Kind != 's' || !strings.HasPrefix(n.Str, "v") {
			return false
		}
		i, err := strconv.Atoi(n.Str[1:])
		v.Field(0).SetInt(int64(i))
		return err == nil
	case tBad:
		return false
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.Kind != 'i' || !n.fitsInt(t.Bits()) {
			return false
		}
		i, _ := strconv.ParseInt(n.Int, 10, 64)
		v.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.Kind != 'i' || !n.fitsUint(t.Bits()) {
			return false
		}
		i, _ := strconv.ParseUint(n.Int, 10, 64)
		v.SetUint(i)
	case reflect.String:
		if n.Kind != 's' {
			return false
		}
		v.SetString(n.Str)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if n.Kind != 's' {
				return false
			}
			v.SetBytes([]byte(n.Str))
			return true
		}
		if n.Kind != 'l' {
			return false
		}
		old := v.Len()
		s := reflect.MakeSlice(t, len(n.List), len(n.List))
		for i, x := range n.List {
			if i < old {
				s.Index(i).Set(v.Index(i))
			}
			if !refDecode(x, s.Index(i)) {
				return false
			}
		}
		v.Set(s)
	case reflect.Array:
		if n.Kind != 'l' {
			return false
		}
		for i, x := range n.List {
			if i < v.Len() && !refDecode(x, v.Index(i)) {
				return false
			}
		}
		for i := len(n.List); i < v.Len(); i++ {
			v.Index(i).SetZero()
		}
	case reflect.Map:
		if n.Kind != 'd' || t.Key().Kind() != reflect.String {
			return false
		}
		if v.IsNil() {
			v.Set(reflect.MakeMap(t))
		}
		for i, x := range n.List {
			el := reflect.New(t.Elem()).Elem()
			if !refDecode(x, el) {
				return false
			}
			v.SetMapIndex(reflect.ValueOf(n.Keys[i]).Convert(t.Key()), el)
		}
	case reflect.Struct:
		if n.Kind != 'd' {
			return false
		}
		for i, x := range n.List {
			for f := 0; f < t.NumField(); f++ {
				key, _, _ := strings.Cut(t.Field(f).Tag.Get("bencode"), ",")
				if key == "" {
					key = t.Field(f).Name
				}
				if strings.ToLower(key) == n.Keys[i] {
					if !refDecode(x, v.Field(f)) {
						return false
					}
				}
			}
		}
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Pointer && !v.Elem().IsNil() {
			return refDecode(n, v.Elem())
		}
		if v.NumMethod() > 0 || n.hugeInt() {
			return false
		}
		v.Set(reflect.ValueOf(n.untyped()))
	case reflect.Pointer:
		if v.IsNil() {
			v.Set(reflect.New(t.Elem()))
		}
		return refDecode(n, v.Elem())
	default:
		return false
	}
	return true
}

// typeTable lists destination types: leaves, containers of them, and again.
func typeTable(deep bool) []reflect.Type {
	leaves := []reflect.Type{
		reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[uint8](), reflect.TypeFor[uint64](), reflect.TypeFor[int64](),
		reflect.TypeFor[string](), reflect.TypeFor[namedStr](), reflect.TypeFor[[]byte](), reflect.TypeFor[any](),
		tRaw, reflect.TypeFor[leaf](), tValMarsh, tBad, reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[fmt.Stringer](), reflect.TypeFor[chan int](),
	}
	wrap := func(t reflect.Type) (ts []reflect.Type) {
		tag := func(name string, t reflect.Type, tag string) reflect.StructField {
			return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
		}
		ts = append(ts,
			reflect.SliceOf(t), reflect.ArrayOf(0, t), reflect.ArrayOf(2, t),
			reflect.MapOf(reflect.TypeFor[string](), t), reflect.MapOf(reflect.TypeFor[namedStr](), t), reflect.MapOf(reflect.TypeFor[int](), t),
			reflect.PointerTo(t),
			reflect.StructOf([]reflect.StructField{tag("A", t, ""), tag("B", reflect.TypeFor[int](), "")}),
			reflect.StructOf([]reflect.StructField{tag("A", reflect.TypeFor[int](), `bencode:"q"`), tag("Q", t, `bencode:"A"`)}),
		)
		return
	}
	var ts []reflect.Type
	ts = append(ts, leaves...)
	for _, l := range leaves {
		ts = append(ts, wrap(l)...)
	}
	if deep {
		for _, l := range []reflect.Type{reflect.TypeFor[int8](), reflect.TypeFor[string](), reflect.TypeFor[any](), tRaw, tValMarsh} {
			for _, w := range wrap(l) {
				ts = append(ts, wrap(w)...)
			}
		}
	}
	return ts
}

// emptied makes dirty leave slices with content beyond their length only, as
// `s = s[:0]` does.
var emptied bool

// dirty fills a value with content that is not the document's.
func dirty(v reflect.Value, depth int) {
	t := v.Type()
	switch t {
	case tRaw:
		v.SetBytes([]byte("i77e"))
		return
	case tValMarsh:
		v.Field(0).SetInt(77)
		return
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(77)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(77)
	case reflect.String:
		v.SetString("dirty")
	case reflect.Slice:
		s := reflect.MakeSlice(t, 3, 5)
		if emptied {
			s = s.Slice(0, 5)
			for i := range 5 {
				dirty(s.Index(i), depth+1)
			}
			v.Set(s.Slice(0, 0))
			return
		}
		switch t.Elem().Kind() {
		case reflect.Struct, reflect.Array, reflect.Map, reflect.Slice, reflect.Pointer:
			if t.Elem().Kind() != reflect.Slice || t.Elem().Elem().Kind() != reflect.Uint8 {
				return // open
			}
		}
		for i := 0; i < 3; i++ {
			dirty(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		switch t.Elem().Kind() {
		case reflect.Struct, reflect.Array, reflect.Map, reflect.Slice, reflect.Pointer:
			if t.Elem().Kind() != reflect.Slice || t.Elem().Elem().Kind() != reflect.Uint8 {
				return // open
			}
		}
		for i := range v.Len() {
			dirty(v.Index(i), depth+1)
		}
	case reflect.Map:
		if t.Key().Kind() == reflect.String {
			m := reflect.MakeMap(t)
			for _, k := range []string{"a", "dirty"} {
				el := reflect.New(t.Elem()).Elem()
				dirty(el, depth+1)
				m.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), el)
			}
			v.Set(m)
		}
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		dirty(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dirty(v.Field(i), depth+1)
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v.Set(reflect.ValueOf(map[string]any{"a": "dirty", "dirty": 1}))
		}
	}
}

func typedDecode(e *mc.Enum, stale bool) {
	vs.MapOrder = 0
	types := typeTable(true)
	at := []*N{nint(0), nint(-1), nint(200), nint(70000), nuint(math.MaxUint64), nstr(""), nstr("a"), nstr("v7")}
	ks := []string{"", "a", "b", "q"}
	do := func(n *N) {
		for _, t := range types {
			decodeCase(e, n, t, stale)
		}
	}
	trees(mc.Pick(3, 4), at, ks, do)
	// longer lists into shorter and longer destinations
	for l := 0; l <= 9; l++ {
		n := nlist()
		m := nlist()
		for i := 0; i < l; i++ {
			n.List = append(n.List, nint(int64(i)))
			m.List = append(m.List, nstr(strings.Repeat("s", i)))
		}
		do(n)
		do(m)
		do(ndict("a", n, "b", nint(3), "z", m))
	}
}

// decodeCase decodes a document into a type, beside the reference.
func decodeCase(e *mc.Enum, n *N, t reflect.Type, stale bool) {
	if e.Stopped() || !e.Mine() {
		return
	}
	doc := n.enc()
	e.Run([]byte(fmt.Sprintf("%s into %s stale=%v", doc, t, stale)), func() {
		e.State(doc)
		e.Trans(1)
		want, got := reflect.New(t), reflect.New(t)
		if stale {
			dirty(want.Elem(), 0)
			dirty(got.Elem(), 0)
		}
		ok := refDecode(n, want.Elem())
		err := bencode.Unmarshal([]byte(doc), got.Interface())
		if (err == nil) != ok {
			if n.hugeInt() && ok {
				return // skipped integers beyond 64 bits are open
			}
			e.Failf("%q into %s: err = %v, it fits: %v", doc, t, err, ok)
			return
		}
		if ok && !reflect.DeepEqual(got.Interface(), want.Interface()) {
			e.Failf("%q into %s gives %#v, want %#v", doc, t, got.Elem().Interface(), want.Elem().Interface())
		}
	})
}

// docsFor gives documents that fit a type, of different lengths and with
// different keys missing.
func docsFor(t reflect.Type) []*N {
	switch t {
	case tRaw:
		return []*N{nint(5), nlist(nint(1), nstr("r"))}
	case tValMarsh:
		return []*N{nstr("v1"), nstr("v22")}
	case tBad:
		return []*N{nint(1)}
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return []*N{nint(1), nint(2)}
	case reflect.String:
		return []*N{nstr("s"), nstr("tt"), nstr("")}
	case reflect.Pointer:
		return docsFor(t.Elem())
	case reflect.Interface:
		return []*N{nint(3), nstr("i"), nlist(nint(4)), ndict("a", nint(5)), ndict("b", nlist())}
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 {
			return []*N{nstr("bytes"), nstr("")}
		}
		d := docsFor(t.Elem())
		if len(d) == 0 {
			return nil
		}
		return []*N{nlist(), nlist(d[0]), nlist(d[len(d)-1], d[0]), nlist(d[0], d[0], d[len(d)-1])}
	case reflect.Map:
		d := docsFor(t.Elem())
		if len(d) == 0 {
			return nil
		}
		return []*N{ndict(), ndict("a", d[0]), ndict("b", d[len(d)-1]), ndict("a", d[len(d)-1], "c", d[0])}
	case reflect.Struct:
		out := []*N{ndict()}
		var all []any
		for f := 0; f < t.NumField(); f++ {
			key, _, _ := strings.Cut(t.Field(f).Tag.Get("bencode"), ",")
			if key == "" {
				key = t.Field(f).Name
			}
			for i, d := range docsFor(t.Field(f).Type) {
				out = append(out, ndict(strings.ToLower(key), d))
				if i == 0 {
					all = append(all, strings.ToLower(key), d)
				}
			}
		}
		return append(out, ndict(all...))
	}
	return nil
}

// siblings: what one element holds must not reach the next one.
func siblings(e *mc.Enum) {
	vs.MapOrder = 0
	for _, t := range typeTable(true) {
		ds := docsFor(t)
		for _, x := range ds {
			for _, y := range ds {
				for _, stale := range []bool{false, true} {
					m := reflect.MapOf(reflect.TypeFor[string](), t)
					s := reflect.SliceOf(t)
					decodeCase(e, ndict("a", x, "b", y), m, stale)
					decodeCase(e, ndict("a", x, "b", y, "dirty", x), m, stale)
					decodeCase(e, nlist(x, y), s, false)
					decodeCase(e, nlist(x, y, x), s, false)
					decodeCase(e, nlist(x, y), reflect.ArrayOf(2, t), false)
					decodeCase(e, nlist(x, y), reflect.ArrayOf(1, t), false)
					decodeCase(e, ndict("a", x, "b", y), reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: t}}), stale)
					decodeCase(e, nlist(x, y), reflect.TypeFor[any](), stale)
					if mc.Thorough {
						decodeCase(e, ndict("a", nlist(x, y), "b", nlist(y)), reflect.MapOf(reflect.TypeFor[string](), s), stale)
						decodeCase(e, nlist(ndict("a", x), ndict("b", y), ndict("a", y)), reflect.SliceOf(m), false)
						decodeCase(e, ndict("a", ndict("a", x), "b", ndict("b", y)), reflect.MapOf(reflect.TypeFor[string](), m), stale)
					}
				}
			}
		}
	}
}

// emptiedSlices: what lies behind the end of a slice is no value to keep.
func emptiedSlices(e *mc.Enum) {
	vs.MapOrder = 0
	emptied = true
	defer func() { emptied = false }()
	for _, t := range typeTable(true) {
		s := reflect.SliceOf(t)
		ds := docsFor(t)
		for _, x := range ds {
			for _, y := range ds {
				decodeCase(e, nlist(x), s, true)
				decodeCase(e, nlist(x, y), s, true)
				decodeCase(e, nlist(x, y, x, y, x, y, x), s, true)
				decodeCase(e, ndict("a", nlist(x, y)), reflect.StructOf([]reflect.StructField{{Name: "A", Type: s}}), true)
				decodeCase(e, nlist(nlist(x), nlist(x, y)), reflect.SliceOf(s), true)
			}
		}
	}
}

// intFit: every boundary value into every integer type.
func intFit(e *mc.Enum) {
	vs.MapOrder = 0
	var vals []*N
	for b := 0; b < 64; b++ {
		for d := int64(-2); d <= 2; d++ {
			vals = append(vals, nint(int64(1)<<b+d), nint(-(int64(1)<<b)+d), nuint(uint64(1)<<b+uint64(d)))
		}
	}
	vals = append(vals, nuint(math.MaxUint64), nint(math.MinInt64), nint(math.MaxInt64))
	for _, n := range vals {
		for _, t := range []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](), reflect.TypeFor[namedInt](),
			reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64]()} {
			if e.Stopped() || !e.Mine() {
				continue
			}
			e.Run([]byte(n.Int+" into "+t.String()), func() {
				e.State(n.Int)
				e.Trans(1)
				got, want := reflect.New(t), reflect.New(t)
				ok := refDecode(n, want.Elem())
				err := bencode.Unmarshal([]byte(n.enc()), got.Interface())
				if (err == nil) != ok || ok && got.Elem().Interface() != want.Elem().Interface() {
					e.Failf("i%se into %s: %v, %v; want %v, it fits: %v", n.Int, t, got.Elem(), err, want.Elem(), ok)
				}
			})
		}
	}
}

// fieldMatch: which key reaches which field.
func fieldMatch(e *mc.Enum) {
	vs.MapOrder = 0
	type inner struct {
		X, Y int
	}
	type Clean struct {
		X     int
		Named string `bencode:"renamed"`
		Up    int    `bencode:"UPPER"`
		Omit  int    `bencode:"o,omitempty"`
		Dash  int    `bencode:"-"`
		priv  int
		inner
		In   inner
		Tagd inner `bencode:"t g"`
	}
	keys := []struct {
		k   string
		n   *N
		set func(*Clean)
	}{
		{"", nint(1), func(*Clean) {}},
		{"-", nint(2), func(*Clean) {}},
		{"Named", nint(3), func(*Clean) {}},
		{"UPPER", nint(4), func(*Clean) {}},
		{"X", nint(5), func(*Clean) {}},
		{"dash", nint(6), func(*Clean) {}},
		{"in", ndict("x", nint(7), "y", nint(8), "zz", nlist()), func(c *Clean) { c.In = inner{7, 8} }},
		{"inner", ndict("x", nint(9)), func(*Clean) {}},
		{"named", nstr("n"), func(*Clean) {}},
		{"o", nint(10), func(c *Clean) { c.Omit = 10 }},
		{"omit", nint(11), func(*Clean) {}},
		{"priv", nint(12), func(*Clean) {}},
		{"renamed", nstr("r"), func(c *Clean) { c.Named = "r" }},
		{"t g", ndict("y", nint(13)), func(c *Clean) { c.Tagd.Y = 13 }},
		{"tagd", ndict("y", nint(14)), func(*Clean) {}},
		{"up", nint(15), func(*Clean) {}},
		{"upper", nint(16), func(c *Clean) { c.Up = 16 }},
		{"x", nint(17), func(c *Clean) { c.X = 17 }},
		{"y", nint(18), func(c *Clean) { c.inner.Y = 18 }},
		{"z", nlist(ndict("x", nint(1)), nstr("e")), func(*Clean) {}},
	}
	// every subset of at most four keys
	var rec func(from int, idx []int)
	rec = func(from int, idx []int) {
		if e.Stopped() {
			return
		}
		if e.Mine() {
			var kv []any
			var want Clean
			for _, i := range idx {
				kv = append(kv, keys[i].k, keys[i].n)
				keys[i].set(&want)
			}
			doc := ndict(kv...).enc()
			e.Run([]byte(doc), func() {
				e.State(doc)
				e.Trans(len(idx))
				var got Clean
				if err := bencode.Unmarshal([]byte(doc), &got); err != nil || got != want {
					e.Failf("%q gives %+v, %v, want %+v", doc, got, err, want)
				}
			})
		}
		if len(idx) == mc.Pick(4, 5) {
			return
		}
		for i := from; i < len(keys); i++ {
			rec(i+1, append(idx[:len(idx):len(idx)], i))
		}
	}
	rec(0, nil)
}

// Fields of embedded structs, up to four deep, some behind pointers.
type (
	Emb4 struct {
		Deepest, Shadow int
		Both            string
	}
	Emb3 struct {
		Emb4
		Deep int
	}
	Emb2 struct {
		*Emb3
		Mid    int
		Shadow string
	}
	Emb1 struct {
		Emb2
		Low int
	}
	ClashA struct {
		Clash int
		Solo  int `bencode:"alone"`
		Tie   int `bencode:"tied"`
	}
	ClashB struct {
		Clash int
		Tied  int
		Alone string `bencode:"b"`
	}
	Embs struct {
		Emb1
		*ClashA
		ClashB
		Top int
		Mid string // above Emb2's
	}
)

// embedMatch: which key reaches which field of an embedded struct.
func embedMatch(e *mc.Enum) {
	vs.MapOrder = 0
	e4 := func(c *Embs) *Emb4 {
		if c.Emb3 == nil {
			c.Emb3 = &Emb3{}
		}
		return &c.Emb4
	}
	ca := func(c *Embs) *ClashA {
		if c.ClashA == nil {
			c.ClashA = &ClashA{}
		}
		return c.ClashA
	}
	keys := []struct {
		k   string
		n   *N
		set func(*Embs)
	}{
		{"alone", nint(1), func(c *Embs) { ca(c).Solo = 1 }},
		{"b", nstr("b"), func(c *Embs) { c.ClashB.Alone = "b" }},
		{"both", nstr("x"), func(c *Embs) { e4(c).Both = "x" }},
		{"clash", nint(2), func(*Embs) {}}, // nobody's
		{"clasha", ndict("solo", nint(3)), func(*Embs) {}},
		{"deep", nint(4), func(c *Embs) { e4(c); c.Emb3.Deep = 4 }},
		{"deepest", nint(5), func(c *Embs) { e4(c).Deepest = 5 }},
		{"emb1", ndict("low", nint(6)), func(*Embs) {}},
		{"low", nint(7), func(c *Embs) { c.Low = 7 }},
		{"mid", nstr("m"), func(c *Embs) { c.Mid = "m" }},
		{"shadow", nstr("s"), func(c *Embs) { c.Emb2.Shadow = "s" }},
		{"solo", nint(8), func(*Embs) {}},
		{"tied", nint(9), func(c *Embs) { ca(c).Tie = 9 }}, // the tag is stronger
		{"top", nint(10), func(c *Embs) { c.Top = 10 }},
	}
	var rec func(from int, idx []int)
	rec = func(from int, idx []int) {
		if e.Stopped() {
			return
		}
		if e.Mine() {
			var kv []any
			var want Embs
			for _, i := range idx {
				kv = append(kv, keys[i].k, keys[i].n)
				keys[i].set(&want)
			}
			doc := ndict(kv...).enc()
			e.Run([]byte(doc), func() {
				e.State(doc)
				e.Trans(len(idx))
				var got Embs
				if err := bencode.Unmarshal([]byte(doc), &got); err != nil || !reflect.DeepEqual(got, want) {
					e.Failf("%q gives %+v (%+v, %+v), %v, want %+v (%+v, %+v)", doc, got, got.Emb3, got.ClashA, err, want, want.Emb3, want.ClashA)
				}
			})
		}
		if len(idx) == mc.Pick(5, len(keys)) {
			return
		}
		for i := from; i < len(keys); i++ {
			rec(i+1, append(idx[:len(idx):len(idx)], i))
		}
	}
	rec(0, nil)
}

// badTargets: destinations nothing can be decoded into are errors.
func badTargets(e *mc.Enum) {
	vs.MapOrder = 0
	var nilIP *int
	var nilAny any
	var i int
	for di, doc := range []string{"i1e", "1:a", "le", "de", "li1ee", "d1:ai1ee"} {
		for ti, t := range []any{nil, i, nilIP, nilAny, "s", []int{1}, map[string]int{}, struct{ A int }{}, (*leaf)(nil), func() {}, make(chan int), 1.5, new(func()), new(chan int), new(float64), new(bool), new(complex128), new(map[int]string), new(error)} {
			e.Casef(func() {
				e.State(fmt.Sprint(di, ti))
				e.Trans(1)
				if err := bencode.Unmarshal([]byte(doc), t); err == nil {
					e.Failf("%q decodes into %T without an error", doc, t)
				}
			}, "%q into target %d %T", doc, ti, t)
		}
	}
	// what an any holds is replaced, unless it points somewhere
	for _, n := range []*N{nint(1), nstr("a"), nlist(), ndict(), nlist(nint(1)), ndict("a", nint(1))} {
		for k, held := range []func() any{
			func() any { return nil },
			func() any { return (*int)(nil) },
			func() any { return (*string)(nil) },
			func() any { return (**int)(nil) },
			func() any { return (*any)(nil) },
			func() any { return (*leaf)(nil) },
			func() any { return (*bencode.RawMessage)(nil) },
			func() any { return 7 },
			func() any { return "x" },
			func() any { return []any{1, 2} },
			func() any { return map[string]any{"q": 1} },
			func() any { return struct{ A int }{3} },
			func() any { return new(any) },
			func() any { return new(bencode.RawMessage) },
		} {
			for form := 0; form < 3; form++ {
				e.Casef(func() {
					e.State(fmt.Sprint(n.enc(), k, form))
					e.Trans(1)
					want := n.untyped()
					var got any
					var err error
					switch h := held(); form {
					case 0:
						got = h
						err = bencode.Unmarshal([]byte(n.enc()), &got)
					case 1:
						s := []any{h, h}
						err = bencode.Unmarshal([]byte(nlist(n, n).enc()), &s)
						if err == nil {
							got = s[1]
						}
					case 2:
						s := struct{ A any }{h}
						err = bencode.Unmarshal([]byte(ndict("a", n).enc()), &s)
						got = s.A
					}
					if p, ok := got.(*any); ok && p != nil {
						got = *p
					}
					if p, ok := got.(*bencode.RawMessage); ok && p != nil {
						got, want = string(*p), n.enc()
					}
					if err != nil || !reflect.DeepEqual(got, want) {
						e.Failf("%q into an any that holds %T, form %d: %#v, %v, want %#v", n.enc(), held(), form, got, err, want)
					}
				}, "%q into any, held %d, form %d", n.enc(), k, form)
			}
		}
	}
}
