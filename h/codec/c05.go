package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sync/atomic"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C05",
		Units: []mc.Unit{
			{Name: "encode-encode", Body: func() { concCodec(0, 0) }, Bound: 3, BoundT: 5},
			{Name: "encode-decode", Body: func() { concCodec(0, 1) }, Bound: 3, BoundT: 5},
			{Name: "decode-decode", Body: func() { concCodec(1, 1) }, Bound: 3, BoundT: 5},
			{Name: "three", Body: func() { concCodec(0, 1, 0) }, Bound: 2, BoundT: 3},
			{Name: "other-types", Body: func() { concCodec(0, 2, 3) }, Bound: 2, BoundT: 3},
			{Name: "metainfo", Body: concMetainfo, Bound: 3, BoundT: 5},
			{Name: "race", Body: func() { concCodec(0, 1, 2, 3) }, Bound: 1, BoundT: 2, Race: true},
			{Name: "race-metainfo", Body: concMetainfo, Bound: 1, BoundT: 2, Race: true},
		},
		Explain:     "two to four threads that encode and decode struct types nobody has used before, in every interleaving of their synchronisation operations within the preemption bound; each must get what it gets alone, and the race detector watches the same bodies",
		Assumptions: []string{"threads interleave at synchronisation operations; unsynchronised accesses are left to the race detector"},
	})
}

var freshSeq atomic.Int64

// freshTypes makes two struct types that are new to the process, one inside the other.
func freshTypes() (outer, inner reflect.Type) {
	n := freshSeq.Add(1)
	tag := func(s string) reflect.StructTag { return reflect.StructTag(fmt.Sprintf(`bencode:"%s" u:"%d"`, s, n)) }
	inner = reflect.StructOf([]reflect.StructField{
		{Name: "P", Type: reflect.TypeFor[int](), Tag: tag("p2")},
		{Name: "Q", Type: reflect.TypeFor[string](), Tag: tag("a1,omitempty")},
	})
	outer = reflect.StructOf([]reflect.StructField{
		{Name: "Z", Type: reflect.TypeFor[int](), Tag: tag("b")},
		{Name: "Y", Type: reflect.TypeFor[string](), Tag: tag("c,omitempty")},
		{Name: "X", Type: inner, Tag: tag("a")},
		{Name: "W", Type: reflect.SliceOf(inner), Tag: tag("d")},
		{Name: "V", Type: reflect.TypeFor[int](), Tag: tag("-")},
	})
	return
}

func fillFresh(t, in reflect.Type, k int) reflect.Value {
	mk := func(p int, q string) reflect.Value {
		v := reflect.New(in).Elem()
		v.Field(0).SetInt(int64(p))
		v.Field(1).SetString(q)
		return v
	}
	v := reflect.New(t).Elem()
	v.Field(0).SetInt(int64(k))
	v.Field(1).SetString(fmt.Sprint("s", k))
	v.Field(2).Set(mk(k+1, ""))
	v.Field(3).Set(reflect.Append(v.Field(3), mk(k+2, "q"), mk(k+3, "")))
	return v
}

func freshDoc(k int) string {
	return ndict("b", nint(int64(k)), "c", nstr(fmt.Sprint("s", k)), "a", ndict("p2", nint(int64(k+1))),
		"d", nlist(ndict("a1", nstr("q"), "p2", nint(int64(k+2))), ndict("p2", nint(int64(k+3))))).enc()
}

func concCodec(ops ...int) {
	vs.MapOrder = 0
	outer, inner := freshTypes()
	var ts []*vs.Thread
	for i, op := range ops {
		ts = append(ts, vs.GoNamed("t", func() {
			k := i * 10
			switch op {
			case 0:
				for range 2 {
					b, err := bencode.Marshal(fillFresh(outer, inner, k).Interface())
					if err != nil || string(b) != freshDoc(k) {
						vs.Failf("thread %d: Marshal gives %q, %v, want %q", i, b, err, freshDoc(k))
					}
				}
			case 1:
				for range 2 {
					v := reflect.New(outer)
					err := bencode.Unmarshal([]byte(freshDoc(k)), v.Interface())
					if err != nil || !reflect.DeepEqual(v.Elem().Interface(), fillFresh(outer, inner, k).Interface()) {
						vs.Failf("thread %d: Unmarshal gives %+v, %v", i, v.Elem().Interface(), err)
					}
				}
			case 2: // the inner type alone
				v := reflect.New(inner)
				if err := bencode.Unmarshal([]byte("d2:a11:x2:p2i5ee"), v.Interface()); err != nil || v.Elem().Field(0).Int() != 5 || v.Elem().Field(1).String() != "x" {
					vs.Failf("thread %d: inner decodes to %+v, %v", i, v.Elem().Interface(), err)
				}
			case 3:
				v := reflect.New(inner).Elem()
				v.Field(0).SetInt(9)
				if b, err := bencode.Marshal(v.Interface()); err != nil || string(b) != "d2:p2i9ee" {
					vs.Failf("thread %d: inner encodes to %q, %v", i, b, err)
				}
			}
		}))
	}
	vs.Join(ts...)
}

func init() {
	// the field cache outlives executions: fill it before the first
	mi := &metainfo.Metainfo{}
	bencode.Unmarshal(concDoc, mi)
	bencode.Marshal(mi)
}

var concDoc = []byte("d8:announce3:url4:infod6:lengthi12e4:name1:n12:piece lengthi4e6:pieces20:aaaaaaaaaaaaaaaaaaaaee")

func concMetainfo() {
	vs.MapOrder = 0
	doc := concDoc
	var ts []*vs.Thread
	shared := &metainfo.Metainfo{}
	if err := bencode.Unmarshal(doc, shared); err != nil {
		vs.Failf("%v", err)
	}
	for i := range 3 {
		ts = append(ts, vs.GoNamed("t", func() {
			mi := &metainfo.Metainfo{}
			if err := bencode.Unmarshal(doc, mi); err != nil || !reflect.DeepEqual(mi, shared) {
				vs.Failf("thread %d decodes to %+v, %v", i, mi, err)
			}
			b, err := bencode.Marshal(shared)
			if err != nil || !bytes.Equal(b, doc) {
				vs.Failf("thread %d encodes to %q, %v", i, b, err)
			}
		}))
	}
	vs.Join(ts...)
}
