package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// N is a node of the reference model of bencoded data: an int64/uint64 or big
// integer, a string, a list or a dictionary.
type N struct {
	Kind byte // 'i', 's', 'l', 'd'
	Int  string
	Str  string
	List []*N
	Keys []string
}

func nint(i int64) *N   { return &N{Kind: 'i', Int: strconv.FormatInt(i, 10)} }
func nuint(i uint64) *N { return &N{Kind: 'i', Int: strconv.FormatUint(i, 10)} }
func nstr(s string) *N  { return &N{Kind: 's', Str: s} }
func nlist(l ...*N) *N  { return &N{Kind: 'l', List: l} }
func ndict(kv ...any) *N {
	n := &N{Kind: 'd'}
	type e struct {
		k string
		v *N
	}
	var es []e
	for i := 0; i < len(kv); i += 2 {
		es = append(es, e{kv[i].(string), kv[i+1].(*N)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	for _, x := range es {
		n.Keys = append(n.Keys, x.k)
		n.List = append(n.List, x.v)
	}
	return n
}

// enc is the canonical encoding.
func (n *N) enc() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *N) write(sb *strings.Builder) {
	switch n.Kind {
	case 'i':
		sb.WriteString("i" + n.Int + "e")
	case 's':
		sb.WriteString(strconv.Itoa(len(n.Str)) + ":" + n.Str)
	case 'l':
		sb.WriteByte('l')
		for _, x := range n.List {
			x.write(sb)
		}
		sb.WriteByte('e')
	case 'd':
		sb.WriteByte('d')
		for i, x := range n.List {
			sb.WriteString(strconv.Itoa(len(n.Keys[i])) + ":" + n.Keys[i])
			x.write(sb)
		}
		sb.WriteByte('e')
	}
}

func (n *N) fits(lo, hi *big.Int) bool {
	b, _ := new(big.Int).SetString(n.Int, 10)
	return b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
}

func (n *N) fitsInt(bits int) bool {
	b, _ := new(big.Int).SetString(n.Int, 10)
	if !b.IsInt64() {
		return false
	}
	i := b.Int64()
	return i >= math.MinInt64>>(64-bits) && i <= math.MaxInt64>>(64-bits)
}

func (n *N) fitsUint(bits int) bool {
	b, _ := new(big.Int).SetString(n.Int, 10)
	return b.IsUint64() && b.Uint64() <= math.MaxUint64>>(64-bits)
}

// hugeInt tells whether some integer does not fit 64 bits signed.
func (n *N) hugeInt() bool {
	if n.Kind == 'i' {
		return !n.fitsInt(64)
	}
	for _, x := range n.List {
		if x.hugeInt() {
			return true
		}
	}
	return false
}

// parse is the reference parser: one value at the start of s. ok: a value of
// n bytes. vague: the grammar leaves it open (string lengths with leading zeros).
type parser struct {
	s     string
	p     int
	vague bool
}

type verdict int

const (
	bad   verdict = iota // no extension is valid either
	short                // a proper prefix of valid data
	good
)

func parse(s string) (*N, int, verdict, bool) {
	p := &parser{s: s}
	n, v := p.value()
	return n, p.p, v, p.vague
}

func (p *parser) peek() (byte, bool) {
	if p.p < len(p.s) {
		return p.s[p.p], true
	}
	return 0, false
}

func (p *parser) value() (*N, verdict) {
	c, ok := p.peek()
	if !ok {
		return nil, short
	}
	switch {
	case c == 'i':
		p.p++
		return p.int()
	case c >= '0' && c <= '9':
		s, v := p.str()
		if v != good {
			return nil, v
		}
		return nstr(s), good
	case c == 'l':
		p.p++
		n := &N{Kind: 'l'}
		for {
			c, ok := p.peek()
			if !ok {
				return nil, short
			}
			if c == 'e' {
				p.p++
				return n, good
			}
			x, v := p.value()
			if v != good {
				return nil, v
			}
			n.List = append(n.List, x)
		}
	case c == 'd':
		p.p++
		n := &N{Kind: 'd'}
		for {
			c, ok := p.peek()
			if !ok {
				return nil, short
			}
			if c == 'e' {
				p.p++
				return n, good
			}
			if c < '0' || c > '9' {
				return nil, bad
			}
			k, v := p.str()
			if v != good {
				return nil, v
			}
			if len(n.Keys) > 0 && n.Keys[len(n.Keys)-1] >= k {
				return nil, bad
			}
			x, v := p.value()
			if v != good {
				return nil, v
			}
			n.Keys = append(n.Keys, k)
			n.List = append(n.List, x)
		}
	}
	return nil, bad
}

func (p *parser) int() (*N, verdict) {
	q := p.p
	if q < len(p.s) && p.s[q] == '-' {
		q++
	}
	d := q
	for q < len(p.s) && p.s[q] >= '0' && p.s[q] <= '9' {
		q++
	}
	digits := p.s[d:q]
	if len(digits) > 1 && digits[0] == '0' {
		return nil, bad
	}
	if len(digits) == 1 && digits == "0" && d > p.p {
		return nil, bad
	}
	if q == len(p.s) {
		return nil, short
	}
	if p.s[q] != 'e' || digits == "" {
		return nil, bad
	}
	n := &N{Kind: 'i', Int: p.s[p.p:q]}
	p.p = q + 1
	return n, good
}

func (p *parser) str() (string, verdict) {
	q := p.p
	for q < len(p.s) && p.s[q] >= '0' && p.s[q] <= '9' {
		q++
	}
	if q-p.p > 1 && p.s[p.p] == '0' {
		p.vague = true
	}
	if q == len(p.s) {
		return "", short
	}
	if p.s[q] != ':' {
		return "", bad
	}
	l, err := strconv.Atoi(p.s[p.p:q])
	if err != nil {
		return "", bad
	}
	if q+1+l > len(p.s) || l > len(p.s) {
		return "", short
	}
	p.p = q + 1 + l
	return p.s[q+1 : q+1+l], good
}

// untyped is what decoding into an empty interface gives.
func (n *N) untyped() any {
	switch n.Kind {
	case 'i':
		i, _ := strconv.ParseInt(n.Int, 10, 64)
		return int(i)
	case 's':
		return n.Str
	case 'l':
		l := []any{}
		for _, x := range n.List {
			l = append(l, x.untyped())
		}
		return l
	case 'd':
		m := map[string]any{}
		for i, x := range n.List {
			m[n.Keys[i]] = x.untyped()
		}
		return m
	}
	panic("kind")
}

func (n *N) String() string { return fmt.Sprintf("%q", n.enc()) }

// trees calls f with every tree of at most size nodes over the atoms and keys.
func trees(size int, atoms []*N, keys []string, f func(*N)) {
	gen(size, atoms, keys, func(n *N, used int) { f(n) })
}

func gen(size int, atoms []*N, keys []string, f func(n *N, used int)) {
	if size < 1 {
		return
	}
	for _, a := range atoms {
		f(a, 1)
	}
	genList(size-1, atoms, keys, nil, func(l []*N, used int) {
		f(&N{Kind: 'l', List: append([]*N{}, l...)}, used+1)
	})
	genDict(size-1, 0, atoms, keys, &N{Kind: 'd'}, func(d *N, used int) {
		f(&N{Kind: 'd', List: append([]*N{}, d.List...), Keys: append([]string{}, d.Keys...)}, used+1)
	})
}

func genList(size int, atoms []*N, keys []string, l []*N, f func(l []*N, used int)) {
	f(l, 0)
	gen(size, atoms, keys, func(n *N, used int) {
		genList(size-used, atoms, keys, append(l[:len(l):len(l)], n), func(l []*N, u int) { f(l, u+used) })
	})
}

func genDict(size, from int, atoms []*N, keys []string, d *N, f func(d *N, used int)) {
	f(d, 0)
	for k := from; k < len(keys); k++ {
		gen(size, atoms, keys, func(n *N, used int) {
			e := &N{Kind: 'd', List: append(d.List[:len(d.List):len(d.List)], n), Keys: append(d.Keys[:len(d.Keys):len(d.Keys)], keys[k])}
			genDict(size-used, k+1, atoms, keys, e, func(d *N, u int) { f(d, u+used) })
		})
	}
}
