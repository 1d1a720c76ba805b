package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C21",
		Units: []mc.Unit{
			{Name: "one file", Enum: pathSingle},
			{Name: "paths", Enum: pathMulti, Weight: 2},
			{Name: "sizes", Enum: sizesEnum},
		},
		Explain:     "every name and every path of up to three components out of 43 (dots, separators, empty, NUL, long, escapes of several kinds, names of the client's own files), alone and in pairs of files; every combination of boundary values of piece length, piece count, length and file lengths; the paths of every operation that changes the file system are recorded",
		Assumptions: []string{"backslashes are ordinary bytes of a name or refused, as the code sees fit; no symbolic links in the target directory"},
	})
}

var comps = []string{"a", "b", "..", ".", "", "...", "..a", "a..", ".h", "a/b", "/a", "a/", "../a", "a/..", "../../etc", "/", "a\x00b", "\x00", "temp", "0.piece", "a*b", "C:", "a\\b", "..\\a", " ", "a ", " a", "a.", "é", "e\u0301", "\xff\xfe", "%2e%2e", "..%2fx", "%2F", "%61", "+", "$HOME", "~", "-a", "\uff0e\uff0e", "a\n", "000000000000000000000000000000000000000a"}

// okName: 1 an ordinary name, 0 open, -1 no name at all
func okName(s string) int {
	switch {
	case s == "" || s == "." || s == ".." || strings.ContainsAny(s, "/\x00"):
		return -1
	case strings.Contains(s, "\\") || len(s) > 255:
		return 0
	}
	return 1
}

// verdictOf tells what a storage must make of the names of a metainfo.
func verdictOf(info *metainfo.Info) int {
	v := okName(info.Name)
	seen := map[string]bool{}
	for _, f := range info.Files {
		if len(f.Path) == 0 {
			return -1
		}
		for _, c := range f.Path {
			v = min(v, okName(c))
		}
		p := strings.Join(f.Path, "/")
		for q := range seen {
			if q == p || strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
				return -1
			}
		}
		seen[p] = true
	}
	return v
}

func pathSingle(e *mc.Enum) {
	names := append([]string{}, comps...)
	for _, n := range []int{200, 240, 244, 245, 246, 250, 254, 255, 256, 300} {
		names = append(names, strings.Repeat("x", n))
	}
	for b := 0; b < 256; b++ {
		names = append(names, string([]byte{'a', byte(b), 'b'}), string([]byte{byte(b)}))
	}
	for _, n := range names {
		for _, multi := range []bool{false, true} {
			if e.Stopped() {
				return
			}
			e.Casef(func() {
				l := mk(2, 3)
				if multi {
					l = mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2})
				}
				l.info.Name = n
				seq(e, func() { pathCase(e, l) })
			}, "name %q multi %v", n, multi)
		}
	}
}

func pathMulti(e *mc.Enum) {
	try := func(name string, paths ...[]string) {
		if !e.Mine() {
			return
		}
		e.Run([]byte(fmt.Sprintf("%q %q", name, paths)), func() {
			l := mk(2, 1+len(paths))
			l.info.Length = 0
			l.info.Name = name
			for i, p := range paths {
				n := int64(1)
				if i == 0 {
					n = 2
				}
				l.info.Files = append(l.info.Files, &metainfo.File{Path: p, Length: n})
			}
			seq(e, func() { pathCase(e, l) })
		})
	}
	var ps [][]string
	ps = append(ps, nil)
	for _, a := range comps {
		ps = append(ps, []string{a})
	}
	for _, a := range comps {
		for _, b := range comps {
			ps = append(ps, []string{a, b})
		}
	}
	for _, name := range []string{"out", "..", ".", "", "/x", "a\\b"} {
		for _, p := range ps {
			try(name, p)
		}
	}
	for _, a := range comps {
		for _, b := range comps {
			for _, c := range comps {
				if e.Stopped() {
					return
				}
				try("out", []string{a, b, c})
			}
		}
	}
	// pairs: the same place twice, a file where the other needs a directory
	few := []string{"a", "b", "..", ".", "", "A"}
	var qs [][]string
	for _, a := range few {
		qs = append(qs, []string{a})
		for _, b := range few {
			qs = append(qs, []string{a, b})
			for _, c := range few {
				qs = append(qs, []string{a, b, c})
			}
		}
	}
	for _, p := range qs {
		for _, q := range qs {
			if e.Stopped() {
				return
			}
			try("out", p, q)
		}
	}
	for _, p := range qs[:14] {
		for _, q := range qs[:14] {
			for _, r := range qs[:14] {
				try("out", p, q, r)
			}
		}
	}
}

// pathCase loads and fills a storage, and looks where it has been.
func pathCase(e *mc.Enum, l *layout) {
	f := fresh()
	f.Put("/data/secret", []byte("x"))
	f.Put("/etc/passwd", []byte("x"))
	f.Put("/data/t2/other", []byte("x"))
	before := fmt.Sprint(f.Tree())
	f.Trail = true
	v := verdictOf(l.info)
	e.State(fmt.Sprint(v, len(l.info.Files)))
	s, err := open(l)
	switch {
	case v < 0 && err == nil:
		vs.Failf("a storage with this metainfo loads")
	case v > 0 && err != nil:
		vs.Failf("a storage with ordinary names does not load: %v", err)
	}
	ok := err == nil
	for _, b := range l.blocks() {
		e.Trans(1)
		err := s.PutBlock(b.p, b.off, l.good(b))
		if ok && err != nil && v > 0 {
			vs.Failf("put: %v", err)
		}
		if v < 0 && err == nil {
			vs.Failf("a put succeeds on a storage that did not load")
		}
		ok = ok && err == nil
	}
	for _, p := range f.Touch {
		if !strings.HasPrefix(p, tdir+"/") && !strings.HasPrefix(p, wdir+"/") {
			vs.Failf("%s is changed, outside of the directories", p)
		}
		if strings.HasPrefix(p, tdir+"/") && p != tdir+"/"+l.info.Name && !strings.HasPrefix(p, tdir+"/"+l.info.Name+"/") {
			vs.Failf("%s is changed, which is not the torrent's", p)
		}
	}
	if v < 0 {
		if after := fmt.Sprint(f.Tree()); after != before {
			vs.Failf("refused metainfo changes the file system: %s", after)
		}
		for i := 0; i < l.pieces(); i++ {
			if _, err := s.GetBlock(i, 0, 1); err == nil {
				vs.Failf("a get succeeds on refused metainfo")
			}
		}
		return
	}
	if ok {
		complete(l, s, f, "in the end")
	}
}

// sizesEnum: metainfo whose sizes agree, and all others.
func sizesEnum(e *mc.Enum) {
	pls := []int{math.MinInt, -1, 0, 1, 2, 3, math.MaxInt}
	lens := []int64{math.MinInt64, -1, 0, 1, 2, 3, 4, 5, math.MaxInt64 - 1, math.MaxInt64}
	var fl [][]int64
	fl = append(fl, nil)
	for _, a := range lens {
		fl = append(fl, []int64{a})
		for _, b := range lens {
			fl = append(fl, []int64{a, b})
			for _, c := range []int64{-1, 0, 1, math.MaxInt64} {
				fl = append(fl, []int64{a, b, c})
			}
		}
	}
	for _, pl := range pls {
		for n := 0; n <= 6; n++ {
			for _, files := range fl {
				ls := []int64{0, 3}
				if files == nil {
					ls = lens
				}
				for _, ln := range ls {
					if e.Stopped() {
						return
					}
					if !e.Mine() {
						continue
					}
					e.Run([]byte(fmt.Sprintf("piece length %d, %d pieces, length %d, files %v", pl, n, ln, files)), func() {
						seq(e, func() { sizeCase(e, pl, n, ln, files) })
					})
				}
			}
		}
	}
}

func sizeCase(e *mc.Enum, pl, n int, ln int64, files []int64) {
	info := &metainfo.Info{Name: "out", PieceLength: pl, Pieces: make([][20]byte, n), Length: ln}
	total, over := ln, ln < 0
	if files != nil {
		total, over = 0, false
		for i, x := range files {
			info.Files = append(info.Files, &metainfo.File{Path: []string{string(rune('a' + i))}, Length: x})
			if x < 0 || x > math.MaxInt64-total {
				over = true
			} else {
				total += x
			}
		}
	}
	agree := !over && total > 0 && pl > 0 && int64(n) == (total-1)/int64(pl)+1
	empty := !over && total == 0 && n == 0
	if files != nil && ln != 0 {
		empty = true // a length next to files: open
	}
	f := fresh()
	f.Trail = true
	e.State(fmt.Sprint(agree, n, len(files)))
	e.Trans(1)
	s := storage.New(tdir, wdir, info)
	err := s.Load()
	if agree && err != nil && !empty {
		vs.Failf("sizes that agree do not load: %v", err)
	}
	if !agree && err == nil && !empty {
		vs.Failf("sizes that contradict each other load")
	}
	for i := -1; i <= n; i++ {
		for _, b := range []int{0, 1, 2, block} {
			for _, k := range []int{0, 1, 2, 3} {
				if !agree && !empty {
					e.Trans(2)
					if err := s.PutBlock(i, b, make([]byte, k)); err == nil || isChecksum(err) {
						vs.Failf("put on sizes that contradict each other: %v", err)
					}
					if _, err := s.GetBlock(i, b, k); err == nil {
						vs.Failf("get on sizes that contradict each other succeeds")
					}
				} else if agree && i >= 0 && i < n {
					// nothing may panic; the hashes are all zero
					if err := s.PutBlock(i, b, make([]byte, k)); err == nil && b+k > block {
						vs.Failf("put of %d bytes at %d is accepted", k, b)
					}
					s.GetBlock(i, b, k)
				}
			}
		}
	}
	_ = vos.Cur
}
