package main

import (
	"fmt"
	"reflect"

	"github.com/browles/drip/bitfield"
	"github.com/browles/drip/zzv/rt/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C09",
		Units: []mc.Unit{
			{Name: "values", Enum: bitfieldValues},
			{Name: "difference", Enum: bitfieldDifference, Weight: 2},
			{Name: "histories", Enum: bitfieldHistories},
		},
		Explain: "every bitfield of up to two bytes, every pair of bitfields of up to one byte and of chosen two and three byte ones, every sequence of additions up to a depth; compared with a set of integers and with the bit order of the wire format",
	})
}

func members(b []byte) (res []int) {
	for i := 0; i < 8*len(b); i++ {
		if b[i/8]>>(7-i%8)&1 == 1 {
			res = append(res, i)
		}
	}
	return
}

func bitfieldValues(e *mc.Enum) {
	try := func(b []byte) {
		if e.Stopped() || !e.Mine() {
			return
		}
		e.Run(b, func() {
			e.State(string(b))
			e.Trans(1)
			bf := bitfield.Bitfield(append([]byte{}, b...))
			m := members(b)
			if got := bf.Items(); len(got) != len(m) || len(m) > 0 && !reflect.DeepEqual(got, m) {
				e.Failf("Items of %x = %v, want %v", b, got, m)
			}
			in := map[int]bool{}
			for _, i := range m {
				in[i] = true
			}
			for i := -20; i < 8*len(b)+20; i++ {
				if bf.Has(i) != in[i] {
					e.Failf("Has(%d) of %x = %v", i, b, bf.Has(i))
				}
			}
			for i := 0; i < 8*len(b); i++ {
				c := bitfield.Bitfield(append([]byte{}, b...))
				c.Add(i)
				for j := 0; j < 8*len(b); j++ {
					if c.Has(j) != (in[j] || i == j) {
						e.Failf("after Add(%d) to %x: Has(%d) = %v", i, b, j, c.Has(j))
					}
				}
				if len(c) != len(b) {
					e.Failf("Add changes the length")
				}
			}
			if string(bf) != string(b) {
				e.Failf("a read changes %x to %x", b, []byte(bf))
			}
		})
	}
	try(nil)
	for a := 0; a < 256; a++ {
		try([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			try([]byte{byte(a), byte(b)})
		}
	}
	for i := 0; i < 24*24; i++ {
		b := make([]byte, 3)
		b[i/24/8] |= 1 << (i / 24 % 8)
		b[i%24/8] |= 1 << (i % 8)
		try(b)
	}
}

func bitfieldDifference(e *mc.Enum) {
	try := func(a, b []byte) {
		if e.Stopped() || !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprintf("%x minus %x", a, b)), func() {
			e.State(fmt.Sprintf("%x %x", a, b))
			e.Trans(1)
			x, y := bitfield.Bitfield(append([]byte{}, a...)), bitfield.Bitfield(append([]byte{}, b...))
			d := x.Difference(y)
			if len(d) != len(a) {
				e.Failf("%x minus %x has %d bytes", a, b, len(d))
				return
			}
			for i := range a {
				w := a[i]
				if i < len(b) {
					w &^= b[i]
				}
				if d[i] != w {
					e.Failf("%x minus %x = %x", a, b, []byte(d))
					return
				}
			}
			if string(x) != string(a) || string(y) != string(b) {
				e.Failf("Difference changes its operands")
			}
			for i := range d {
				d[i] ^= 0xff
			}
			if string(x) != string(a) || string(y) != string(b) {
				e.Failf("the difference shares memory with an operand")
			}
		})
	}
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			try([]byte{byte(a)}, []byte{byte(b)})
		}
	}
	var some [][]byte
	some = append(some, nil)
	vals := []byte{0, 1, 0x80, 0x81, 0x55, 0xaa, 0xff, 0x7f, 0xfe}
	for _, a := range vals {
		some = append(some, []byte{a})
		for _, b := range vals {
			some = append(some, []byte{a, b})
			for _, c := range []byte{0, 0x18, 0xff} {
				some = append(some, []byte{a, b, c})
			}
		}
	}
	for _, a := range some {
		for _, b := range some {
			try(a, b)
		}
	}
}

func bitfieldHistories(e *mc.Enum) {
	for n := 0; n <= mc.Pick(200, 500); n++ {
		e.Casef(func() {
			e.State(fmt.Sprint(n))
			b := bitfield.New(n)
			if len(b) != (n+7)/8 || len(b.Items()) != 0 {
				e.Failf("New(%d) = %x", n, []byte(b))
			}
			for i := 0; i < n; i++ {
				e.Trans(1)
				if b.Has(i) {
					e.Failf("New(%d) has %d before it is added", n, i)
				}
				b.Add(i)
				b.Add(i)
				if got := b.Items(); len(got) != i+1 || got[i] != i {
					e.Failf("after adding 0..%d: %v", i, got)
				}
			}
		}, "New(%d)", n)
	}
	// every sequence of additions to a bitfield of 11
	depth := mc.Pick(6, 7)
	var rec func(seq []int)
	rec = func(seq []int) {
		if e.Stopped() {
			return
		}
		if e.Mine() {
			e.Run([]byte(fmt.Sprint(seq)), func() {
				b := bitfield.New(11)
				in := [11]bool{}
				for _, i := range seq {
					e.Trans(1)
					b.Add(i)
					in[i] = true
				}
				e.State(string(b))
				for i, w := range in {
					if b.Has(i) != w {
						e.Failf("after %v: Has(%d) = %v", seq, i, b.Has(i))
					}
				}
				for i := 11; i < 16; i++ {
					if b.Has(i) {
						e.Failf("after %v: Has(%d)", seq, i)
					}
				}
			})
		}
		if len(seq) == depth {
			return
		}
		for i := 0; i < 11; i++ {
			rec(append(seq[:len(seq):len(seq)], i))
		}
	}
	rec(nil)
}
