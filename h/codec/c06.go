package main

import (
	"bufio"
	"crypto/sha1"
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/bencode"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C06",
		Units: []mc.Unit{
			{Name: "documents", Enum: infoHashDocs, Weight: 3},
			{Name: "offsets", Enum: infoHashOffsets, Weight: 2},
			{Name: "own", Enum: infoHashOwn, Weight: 1},
			{Name: "unusual", Enum: infoHashUnusual, Weight: 1},
		},
		Explain: "every combination of known and unknown keys inside and around the info dictionary, at every offset of the input buffer and under every single cut of the stream; the hash is compared with SHA-1 of the bytes between the delimiters as a reference parser finds them",
	})
	mc.Register(&mc.Check{
		ID: "C07",
		Units: []mc.Unit{
			{Name: "small", Enum: geometrySmall},
			{Name: "large", Enum: geometryLarge},
		},
		Explain:     "every total length, piece length and split into files up to a bound, and every combination of boundary values for large ones; compared with arithmetic on whole numbers",
		Assumptions: []string{"metainfo is consistent: the number of pieces is the total divided by the piece length, rounded up"},
	})
	mc.Register(&mc.Check{
		ID: "C08",
		Units: []mc.Unit{
			{Name: "values", Enum: metainfoValues, Weight: 3},
			{Name: "pieces", Enum: metainfoPieces, Weight: 1},
			{Name: "malformed", Enum: metainfoMalformed, Weight: 1},
			{Name: "over another", Enum: metainfoOver, Weight: 1},
		},
		Explain: "every combination of field values of single and multi file metainfo from a table, encoded, compared with the reference encoder's document and decoded again; every piece string length; every field with a value of every wrong kind; info dictionaries decoded over each other",
	})
}

// ------------------------------------------------------------- C06

func rawInfo(e *mc.Enum, doc string) string {
	n, _, vd, _ := parse(doc)
	if vd != good {
		panic("bad document in harness")
	}
	_ = n
	// the raw bytes of the value of "info": by its position
	p := &parser{s: doc, p: 1}
	for {
		c, _ := p.peek()
		if c == 'e' {
			panic("no info")
		}
		k, _ := p.str()
		from := p.p
		p.value()
		if k == "info" {
			return doc[from:p.p]
		}
	}
}

func checkHash(e *mc.Enum, doc string, r func() *bencode.Decoder) {
	want := sha1.Sum([]byte(rawInfo(e, doc)))
	var mi metainfo.Metainfo
	var err error
	if r == nil {
		err = bencode.Unmarshal([]byte(doc), &mi)
	} else {
		err = r().Decode(&mi)
	}
	if err != nil {
		e.Failf("%q does not decode: %v", doc, err)
	} else if mi.Info == nil {
		e.Failf("%q has no info", doc)
	} else if mi.Info.SHA1 != want {
		e.Failf("info hash %x, SHA-1 of the info dictionary is %x", mi.Info.SHA1, want)
	}
}

func infoHashDocs(e *mc.Enum) {
	vs.MapOrder = 0
	opts := func(k string, vs ...*N) []any { return []any{k, vs} }
	inside := [][]any{
		opts("", nil, nint(1)),
		opts("files", nil, nlist(ndict("length", nint(4), "path", nlist(nstr("a"))), ndict("attr", nstr("p"), "length", nint(0), "path", nlist(nstr("b"), nstr("c"))))),
		opts("length", nil, nint(0), nint(12)),
		opts("md5sum", nil, nstr(strings.Repeat("0", 32))),
		opts("name", nil, nstr(""), nstr("n\xff\x00")),
		opts("name.utf-8", nil, nstr("x")),
		opts("piece length", nint(4)),
		opts("pieces", nil, nstr(""), nstr(pattern(20, 3)), nstr(pattern(60, 4))),
		opts("private", nil, nint(0), nint(1)),
		opts("source", nil, ndict("info", ndict("length", nint(1)), "x", nlist())),
		opts("zz", nil, nstr("4:infode")),
	}
	outside := [][]any{
		opts("", nil, nstr("info")),
		opts("announce", nil, nstr("http://t")),
		opts("hash", nil, ndict("info", nint(1))),
		opts("info2", nil, ndict("length", nint(3))),
		opts("z", nil, nint(5)),
	}
	var walk func(os [][]any, i int, kv []any, f func([]any))
	walk = func(os [][]any, i int, kv []any, f func([]any)) {
		if e.Stopped() {
			return
		}
		if i == len(os) {
			f(kv)
			return
		}
		for _, v := range os[i][1].([]*N) {
			if v == nil {
				walk(os, i+1, kv, f)
			} else {
				walk(os, i+1, append(kv[:len(kv):len(kv)], os[i][0], v), f)
			}
		}
	}
	ri := 0
	walk(inside, 0, nil, func(in []any) {
		info := ndict(in...)
		ri++
		step := 0
		walk(outside, 0, nil, func(out []any) {
			step++
			if !mc.Thorough && (step+ri)%4 != 0 {
				return
			}
			doc := ndict(append(out[:len(out):len(out)], "info", info)...).enc()
			if !e.Mine() {
				return
			}
			e.Run([]byte(doc), func() {
				e.State(info.enc())
				e.Trans(1)
				checkHash(e, doc, nil)
				var i metainfo.Info
				if err := bencode.Unmarshal([]byte(info.enc()), &i); err != nil || i.SHA1 != sha1.Sum([]byte(info.enc())) {
					e.Failf("Info alone: %x, %v", i.SHA1, err)
				}
			})
		})
	})
}

func infoHashOffsets(e *mc.Enum) {
	vs.MapOrder = 0
	for pad := 0; pad <= mc.Pick(70, 140); pad++ {
		for _, name := range []int{0, 1, 5, 9, 10, 30, 31, 32, 33, 64, 99, 100, 4090, 5000} {
			for _, pieces := range []int{0, 1, 2, 3, 220, 3300} {
				if e.Stopped() || !e.Mine() {
					continue
				}
				if name+pieces > 4000 && pad%8 != 0 && !mc.Thorough {
					continue
				}
				e.Run([]byte(fmt.Sprintf("pad %d name %d pieces %d", pad, name, pieces)), func() {
					e.State(fmt.Sprint(pad, name, pieces))
					e.Trans(2)
					info := ndict("length", nint(12), "name", nstr(pattern(name, 1)), "piece length", nint(16384), "pieces", nstr(pattern(20*pieces, 2)), "x", nlist(nint(-1), ndict("q", nstr("e"))))
					doc := ndict("announce", nstr(pattern(pad, 5)), "info", info, "url-list", nlist(nstr("u"))).enc()
					checkHash(e, doc, nil)
					for _, size := range []int{16, 64, 4096} {
						checkHash(e, doc, func() *bencode.Decoder {
							return bencode.NewDecoder(bufio.NewReaderSize(strings.NewReader(doc), size))
						})
					}
					if name < 40 && pieces < 3 && pad%7 == 0 {
						for c := 0; c <= len(doc); c++ {
							checkHash(e, doc, func() *bencode.Decoder {
								return bencode.NewDecoder(&cutReader{[]byte(doc), []int{c}, errRead, true})
							})
						}
					}
				})
			}
		}
	}
}

// infoHashOwn: the hash does not depend on the destination's history, and two
// infos decoded one after the other keep their own.
func infoHashOwn(e *mc.Enum) {
	vs.MapOrder = 0
	var docs []string
	for i := 0; i < 6; i++ {
		docs = append(docs, ndict("announce", nstr("u"), "info", ndict("length", nint(int64(i+1)), "name", nstr(pattern(i*9, i)), "piece length", nint(1), "pieces", nstr(pattern(20*(i+1), i)))).enc())
	}
	for i := range docs {
		for j := range docs {
			e.Casef(func() {
				e.State(fmt.Sprint(i, j))
				e.Trans(2)
				var a, b metainfo.Metainfo
				if err := bencode.Unmarshal([]byte(docs[i]), &a); err != nil {
					e.Failf("%v", err)
				}
				if err := bencode.Unmarshal([]byte(docs[j]), &b); err != nil {
					e.Failf("%v", err)
				}
				ha, hb := sha1.Sum([]byte(rawInfo(e, docs[i]))), sha1.Sum([]byte(rawInfo(e, docs[j])))
				if a.Info.SHA1 != ha || b.Info.SHA1 != hb {
					e.Failf("hashes %x, %x, want %x, %x", a.Info.SHA1, b.Info.SHA1, ha, hb)
				}
				// decode again over the first
				if err := bencode.Unmarshal([]byte(docs[j]), &a); err != nil || a.Info.SHA1 != hb || !reflect.DeepEqual(a, b) {
					e.Failf("decoding over another metainfo gives %+v, %v", a.Info, err)
				}
				// encoding gives the document back, and the hash is not part of it
				out, err := bencode.Marshal(&b)
				if err != nil || string(out) != docs[j] {
					e.Failf("encoding gives %q, %v, want %q", out, err, docs[j])
				}
				// a stream of both
				dec := bencode.NewDecoder(strings.NewReader(docs[i] + docs[j]))
				var c, d metainfo.Metainfo
				if err := dec.Decode(&c); err != nil || c.Info.SHA1 != ha {
					e.Failf("stream: %v", err)
				}
				if err := dec.Decode(&d); err != nil || d.Info.SHA1 != hb || c.Info.SHA1 != ha {
					e.Failf("stream: %v", err)
				}
			}, "%d then %d", i, j)
		}
	}
}

// infoHashUnusual: documents that are not written the usual way may be refused,
// but if they are not, the hash is that of what is there.
func infoHashUnusual(e *mc.Enum) {
	vs.MapOrder = 0
	info := ndict("files", nlist(ndict("length", nint(4), "path", nlist(nstr("a"), nstr("")))), "name", nstr("n"), "piece length", nint(4), "pieces", nstr(pattern(20, 3)), "private", nint(0), "zz", nlist(ndict("k", nstr("v"), "l", nint(-3)), nstr("012345678901")))
	doc := ndict("announce", nstr("http://t"), "info", info, "q", nstr("5"))
	// Where strings and integers begin.
	s := doc.enc()
	var at []int
	var walk func(n *N, p int) int
	walk = func(n *N, p int) int {
		switch n.Kind {
		case 's':
			at = append(at, p)
		case 'i':
			at = append(at, p+1)
		default:
			q := p + 1
			for i, x := range n.List {
				if n.Kind == 'd' {
					at = append(at, q)
					q += len(nstr(n.Keys[i]).enc())
				}
				q = walk(x, q)
			}
		}
		return p + len(n.enc())
	}
	walk(doc, 0)
	for i, a := range at {
		for j := i; j < len(at); j++ {
			for _, x := range []string{"0", "00", "-", "+", " ", "-0", "0000000000000000000000", "0x", "_"} {
				if e.Stopped() {
					return
				}
				t := s[:a] + x + s[a:at[j]] + x + s[at[j]:]
				if i == j {
					t = s[:a] + x + s[a:]
				}
				e.Casef(func() {
					e.Trans(2)
					e.State(fmt.Sprint(i, j))
					for _, size := range []int{0, 16} {
						var mi metainfo.Metainfo
						var err error
						if size == 0 {
							err = bencode.Unmarshal([]byte(t), &mi)
						} else {
							err = bencode.NewDecoder(bufio.NewReaderSize(strings.NewReader(t), size)).Decode(&mi)
						}
						if err != nil || mi.Info == nil {
							continue
						}
						// What is there ends where the rest begins.
						k := strings.Index(t, "4:info") + len("4:info")
						end := strings.LastIndex(t, "1:q")
						for end > 0 && t[end-1] != 'e' {
							end--
						}
						if want := sha1.Sum([]byte(t[k:end])); mi.Info.SHA1 != want {
							e.Failf("%q decodes with hash %x, that of %q is %x", t, mi.Info.SHA1, t[k:end], want)
						}
					}
				}, "%q", t)
			}
		}
	}
}

// ------------------------------------------------------------- C07

func geometry(e *mc.Enum, info *metainfo.Info, total int64, pl int64) {
	if got := info.GetLength(); got != total {
		e.Failf("GetLength() = %d, want %d", got, total)
		return
	}
	n := len(info.Pieces)
	var sum int64
	for i := 0; i < n; i++ {
		l := int64(info.GetPieceLength(i))
		want := pl
		if i == n-1 {
			want = total - pl*int64(n-1)
		}
		if l != want {
			e.Failf("GetPieceLength(%d) = %d, want %d", i, l, want)
			return
		}
		sum += l
		e.Trans(1)
	}
	if n > 0 && sum != total {
		e.Failf("pieces add up to %d, want %d", sum, total)
	}
}

func geometrySmall(e *mc.Enum) {
	max := mc.Pick(24, 30)
	for total := 1; total <= max; total++ {
		for pl := 1; pl <= max+1; pl++ {
			n := (total + pl - 1) / pl
			e.Casef(func() {
				e.State(fmt.Sprint(total, pl))
				geometry(e, &metainfo.Info{PieceLength: pl, Pieces: make(metainfo.Pieces, n), Length: int64(total), Name: "n"}, int64(total), int64(pl))
			}, "single total %d piece length %d", total, pl)
			// every split into at most four files, empty ones too
			var rec func(left, files int, fs []*metainfo.File)
			rec = func(left, files int, fs []*metainfo.File) {
				if e.Stopped() {
					return
				}
				if files == 1 {
					fs = append(fs[:len(fs):len(fs)], &metainfo.File{Length: int64(left), Path: []string{"l"}})
					e.Casef(func() {
						geometry(e, &metainfo.Info{PieceLength: pl, Pieces: make(metainfo.Pieces, n), Files: fs, Name: "n"}, int64(total), int64(pl))
					}, "multi total %d piece length %d files %d", total, pl, len(fs))
					return
				}
				for l := 0; l <= left; l++ {
					rec(left-l, files-1, append(fs[:len(fs):len(fs)], &metainfo.File{Length: int64(l), Path: []string{fmt.Sprint(files)}}))
				}
			}
			for f := 1; f <= mc.Pick(4, 5); f++ {
				rec(total, f, nil)
			}
		}
	}
}

func geometryLarge(e *mc.Enum) {
	for _, pl := range []int64{1, 16383, 16384, 1 << 18, 1 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 32} {
		for _, k := range []int64{1, 2, 3, 1000, 65535, 65536, 70000} {
			for _, d := range []int64{-1, 0, 1} {
				if pl == 1 && d != 0 {
					continue
				}
				for _, split := range []int{0, 1, 2, 3} {
					if e.Stopped() {
						return
					}
					total := pl*k + d
					n := (total + pl - 1) / pl
					if total <= 0 {
						continue
					}
					e.Casef(func() {
						e.State(fmt.Sprint(pl, k, d, split))
						info := &metainfo.Info{PieceLength: int(pl), Pieces: make(metainfo.Pieces, n), Name: "n"}
						if split == 0 {
							info.Length = total
						} else {
							left := total
							for i := 1; i < split; i++ {
								l := left / 2
								info.Files = append(info.Files, &metainfo.File{Length: l, Path: []string{fmt.Sprint(i)}})
								left -= l
							}
							info.Files = append(info.Files, &metainfo.File{Length: left, Path: []string{"l"}})
						}
						geometry(e, info, total, pl)
					}, "pl %d k %d d %d split %d", pl, k, d, split)
				}
			}
		}
	}
}

// ------------------------------------------------------------- C08

func metainfoValues(e *mc.Enum) {
	vs.MapOrder = 0
	type opt struct {
		set func(*metainfo.Metainfo)
		top bool
		key string
		n   *N
	}
	none := opt{set: func(*metainfo.Metainfo) {}}
	t := func(key string, n *N, set func(*metainfo.Metainfo)) opt { return opt{set, true, key, n} }
	i := func(key string, n *N, set func(*metainfo.Metainfo)) opt { return opt{set, false, key, n} }
	files := func(n *N, fs ...*metainfo.File) opt {
		return i("files", n, func(m *metainfo.Metainfo) { m.Info.Files = fs })
	}
	var h1, h2 [20]byte
	copy(h1[:], pattern(20, 1))
	copy(h2[:], pattern(20, 2))
	fields := [][]opt{
		{t("announce", nstr(""), func(*metainfo.Metainfo) {}), t("announce", nstr("http://x/a?b"), func(m *metainfo.Metainfo) { m.Announce = "http://x/a?b" })},
		{none, t("announce-list", nlist(nlist(nstr("a"), nstr("b")), nlist(nstr("c"))), func(m *metainfo.Metainfo) { m.AnnounceList = [][]string{{"a", "b"}, {"c"}} }),
			t("announce-list", nlist(nlist()), func(m *metainfo.Metainfo) { m.AnnounceList = [][]string{{}} })},
		{none, t("creation date", nint(0), func(m *metainfo.Metainfo) { m.CreationDate = &metainfo.Time{Time: time.Unix(0, 0)} }),
			t("creation date", nint(1<<33), func(m *metainfo.Metainfo) { m.CreationDate = &metainfo.Time{Time: time.Unix(1<<33, 0)} }),
			t("creation date", nint(-5), func(m *metainfo.Metainfo) { m.CreationDate = &metainfo.Time{Time: time.Unix(-5, 0)} }),
			t("creation date", nint(1e16), func(m *metainfo.Metainfo) { m.CreationDate = &metainfo.Time{Time: time.Unix(1e16, 0)} })},
		{none, t("comment", nstr("c\xff"), func(m *metainfo.Metainfo) { m.Comment = "c\xff" })},
		{none, t("created by", nstr("drip"), func(m *metainfo.Metainfo) { m.CreatedBy = "drip" })},
		{none, t("encoding", nstr("UTF-8"), func(m *metainfo.Metainfo) { m.Encoding = "UTF-8" })},
		{i("piece length", nint(0), func(*metainfo.Metainfo) {}), i("piece length", nint(1<<20), func(m *metainfo.Metainfo) { m.Info.PieceLength = 1 << 20 })},
		{i("pieces", nstr(string(h1[:])), func(m *metainfo.Metainfo) { m.Info.Pieces = metainfo.Pieces{h1} }),
			i("pieces", nstr(string(h2[:])+string(h1[:])+string(h2[:])), func(m *metainfo.Metainfo) { m.Info.Pieces = metainfo.Pieces{h2, h1, h2} }),
			// pieces of the same content have the same hash
			i("pieces", nstr(string(h1[:])+string(h1[:])+string(h2[:])+string(h2[:])), func(m *metainfo.Metainfo) { m.Info.Pieces = metainfo.Pieces{h1, h1, h2, h2} })},
		{none, i("private", nint(1), func(m *metainfo.Metainfo) { m.Info.Private = 1 })},
		{i("name", nstr(""), func(*metainfo.Metainfo) {}), i("name", nstr("näme\x00"), func(m *metainfo.Metainfo) { m.Info.Name = "näme\x00" })},
		{none, i("length", nint(math.MaxInt64), func(m *metainfo.Metainfo) { m.Info.Length = math.MaxInt64 }),
			files(nlist(ndict("length", nint(0), "path", nlist(nstr("a")))), &metainfo.File{Path: []string{"a"}}),
			files(nlist(ndict("length", nint(7), "md5sum", nstr("00"), "path", nlist(nstr("d"), nstr("e"), nstr("f"))), ndict("length", nint(1<<40), "path", nlist())),
				&metainfo.File{Length: 7, MD5Sum: "00", Path: []string{"d", "e", "f"}}, &metainfo.File{Length: 1 << 40, Path: []string{}})},
		{none, i("md5sum", nstr("ff"), func(m *metainfo.Metainfo) { m.Info.MD5Sum = "ff" })},
	}
	var rec func(f int, idx []int)
	rec = func(f int, idx []int) {
		if e.Stopped() {
			return
		}
		if f < len(fields) {
			for k := range fields[f] {
				rec(f+1, append(idx, k))
			}
			return
		}
		if !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprint(idx)), func() {
			mi := &metainfo.Metainfo{Info: &metainfo.Info{}}
			var top, in []any
			for f, k := range idx {
				o := fields[f][k]
				o.set(mi)
				if o.n == nil {
					continue
				}
				if o.top {
					top = append(top, o.key, o.n)
				} else {
					in = append(in, o.key, o.n)
				}
			}
			info := ndict(in...)
			doc := ndict(append(top, "info", info)...).enc()
			e.State(doc)
			e.Trans(1)
			out, err := bencode.Marshal(mi)
			if err != nil || string(out) != doc {
				e.Failf("encodes to %q, %v, want %q", out, err, doc)
				return
			}
			got := &metainfo.Metainfo{}
			if err := bencode.Unmarshal([]byte(doc), got); err != nil {
				e.Failf("%q does not decode: %v", doc, err)
				return
			}
			mi.Info.SHA1 = sha1.Sum([]byte(info.enc()))
			if !reflect.DeepEqual(got, mi) {
				e.Failf("%q decodes to %+v / %+v, want %+v / %+v", doc, got, got.Info, mi, mi.Info)
			}
			// the hash is not part of the encoding
			if out, err := bencode.Marshal(got); err != nil || string(out) != doc {
				e.Failf("encodes again to %q, %v, want %q", out, err, doc)
			}
		})
	}
	rec(0, nil)
}

// metainfoOver: nothing of an earlier info dictionary is left in a later one.
func metainfoOver(e *mc.Enum) {
	vs.MapOrder = 0
	var docs []string
	for m := 0; m < 32; m++ {
		in := []any{"name", nstr(fmt.Sprint("n", m)), "piece length", nint(int64(m + 1)), "pieces", nstr(pattern(20*(m%4), m))}
		if m&1 != 0 {
			in = append(in, "length", nint(int64(m+7)))
		}
		if m&2 != 0 {
			in = append(in, "md5sum", nstr(fmt.Sprint("sum", m)))
		}
		if m&4 != 0 {
			in = append(in, "private", nint(1))
		}
		switch m >> 3 {
		case 1:
			in = append(in, "files", nlist(ndict("length", nint(3), "path", nlist(nstr("a")))))
		case 2:
			in = append(in, "files", nlist(ndict("length", nint(4), "md5sum", nstr("x"), "path", nlist(nstr("b"), nstr("c"))), ndict("length", nint(5), "path", nlist(nstr("d")))))
		case 3:
			in = append(in, "files", nlist())
		}
		docs = append(docs, ndict("announce", nstr("u"), "info", ndict(in...)).enc())
	}
	for i := range docs {
		for j := range docs {
			e.Casef(func() {
				e.State(fmt.Sprint(i, j))
				e.Trans(1)
				var a, b metainfo.Metainfo
				if err := bencode.Unmarshal([]byte(docs[i]), &a); err != nil {
					e.Failf("%q: %v", docs[i], err)
				}
				old := *a.Info
				if err := bencode.Unmarshal([]byte(docs[j]), &b); err != nil {
					e.Failf("%q: %v", docs[j], err)
				}
				if err := bencode.Unmarshal([]byte(docs[j]), &a); err != nil || !reflect.DeepEqual(a.Info, b.Info) {
					e.Failf("%q over %q gives %+v, %v, want %+v", docs[j], docs[i], a.Info, err, b.Info)
				}
				var c metainfo.Metainfo
				if err := bencode.Unmarshal([]byte(docs[i]), &c); err != nil || !reflect.DeepEqual(*c.Info, old) {
					e.Failf("the pieces or files of %q changed with a later decoding", docs[i])
				}
			}, "%d over %d", j, i)
		}
	}
}

func metainfoPieces(e *mc.Enum) {
	vs.MapOrder = 0
	for n := 0; n <= mc.Pick(300, 700); n++ {
		e.Casef(func() {
			e.State(fmt.Sprint(n))
			e.Trans(1)
			s := pattern(n, 7)
			var p metainfo.Pieces
			err := bencode.Unmarshal([]byte(nstr(s).enc()), &p)
			var i metainfo.Info
			ierr := bencode.Unmarshal([]byte(ndict("name", nstr("n"), "piece length", nint(1), "pieces", nstr(s)).enc()), &i)
			if (err == nil) != (n%20 == 0) || (ierr == nil) != (n%20 == 0) {
				e.Failf("a pieces string of %d bytes: %v, %v", n, err, ierr)
				return
			}
			if err != nil {
				return
			}
			if len(p) != n/20 || len(i.Pieces) != n/20 {
				e.Failf("%d bytes give %d, %d hashes", n, len(p), len(i.Pieces))
				return
			}
			for k := range p {
				if string(p[k][:]) != s[20*k:20*k+20] || i.Pieces[k] != p[k] {
					e.Failf("hash %d of %d bytes differs", k, n)
				}
			}
			if n > 0 {
				if b, err := bencode.Marshal(&p); err != nil || string(b) != nstr(s).enc() {
					e.Failf("%d hashes encode to %q, %v", len(p), b, err)
				}
			}
		}, "pieces of %d bytes", n)
	}
}

func metainfoMalformed(e *mc.Enum) {
	vs.MapOrder = 0
	wrong := []*N{nint(5), nstr("x"), nlist(), nlist(nint(1)), nlist(nstr("a")), nlist(nlist(nint(1))), nlist(nlist(nstr("a"))), ndict(), ndict("a", nint(1)), nlist(ndict("length", nint(1), "path", nstr("p"))), nlist(ndict("length", nstr("1"))), nint(-1), nuint(math.MaxUint64), nstr(pattern(40, 1))}
	ok := map[string]func(n *N) bool{
		"announce":      func(n *N) bool { return n.Kind == 's' },
		"comment":       func(n *N) bool { return n.Kind == 's' },
		"created by":    func(n *N) bool { return n.Kind == 's' },
		"encoding":      func(n *N) bool { return n.Kind == 's' },
		"creation date": func(n *N) bool { return n.Kind == 'i' && n.fitsInt(64) },
		"info":          func(n *N) bool { return n.Kind == 'd' },
		"announce-list": func(n *N) bool {
			return n.Kind == 'l' && all(n, func(t *N) bool { return t.Kind == 'l' && all(t, func(s *N) bool { return s.Kind == 's' }) })
		},
		"i/length": func(n *N) bool { return n.Kind == 'i' && n.fitsInt(64) },
		"i/files": func(n *N) bool {
			return n.Kind == 'l' && all(n, func(d *N) bool {
				if d.Kind != 'd' {
					return false
				}
				for i, k := range d.Keys {
					if k == "length" && d.List[i].Kind != 'i' || k == "path" && d.List[i].Kind != 'l' {
						return false
					}
				}
				return true
			})
		},
		"i/md5sum":       func(n *N) bool { return n.Kind == 's' },
		"i/name":         func(n *N) bool { return n.Kind == 's' },
		"i/piece length": func(n *N) bool { return n.Kind == 'i' && n.fitsInt(64) },
		"i/pieces":       func(n *N) bool { return n.Kind == 's' && len(n.Str)%20 == 0 },
		"i/private":      func(n *N) bool { return n.Kind == 'i' && n.fitsInt(64) },
	}
	for _, k := range []string{"announce", "comment", "created by", "encoding", "creation date", "info", "announce-list", "i/length", "i/files", "i/md5sum", "i/name", "i/piece length", "i/pieces", "i/private"} {
		for wi, w := range wrong {
			e.Casef(func() {
				e.State(fmt.Sprint(k, wi))
				e.Trans(1)
				top := []any{"announce", nstr("u")}
				in := []any{"name", nstr("n"), "piece length", nint(1), "pieces", nstr(pattern(20, 1))}
				put := func(kv []any, k string, n *N) []any {
					for i := 0; i < len(kv); i += 2 {
						if kv[i] == k {
							kv[i+1] = n
							return kv
						}
					}
					return append(kv, k, n)
				}
				var doc string
				if strings.HasPrefix(k, "i/") {
					doc = ndict(append(top, "info", ndict(put(in, k[2:], w)...))...).enc()
				} else {
					doc = ndict(put(append(top, "info", ndict(in...)), k, w)...).enc()
				}
				var mi metainfo.Metainfo
				err := bencode.Unmarshal([]byte(doc), &mi)
				if (err == nil) != ok[k](w) {
					e.Failf("%q: err = %v", doc, err)
				}
			}, "%s = %s", k, w.enc())
		}
	}
}

func all(n *N, f func(*N) bool) bool {
	for _, x := range n.List {
		if !f(x) {
			return false
		}
	}
	return true
}
