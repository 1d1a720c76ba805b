package main

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

const (
	tdir  = "/data/t"
	wdir  = "/data/w"
	block = storage.BLOCK_LENGTH
)

// layout is a torrent: its metainfo and its content.
type layout struct {
	name  string
	info  *metainfo.Info
	data  []byte
	piece int // piece length
}

type fileSpec struct {
	path string
	n    int
}

// mk builds the layout of a torrent; no files means single file mode.
func mk(piece, total int, files ...fileSpec) *layout {
	l := &layout{piece: piece, data: make([]byte, total)}
	for i := range l.data {
		l.data[i] = byte(i*7 + i>>8*13 + i>>14*31 + 1)
	}
	info := &metainfo.Info{Name: "out", PieceLength: piece, SHA1: [20]byte{1, 2, 3, 0xab}}
	l.name = fmt.Sprintf("piece=%d total=%d", piece, total)
	if len(files) == 0 {
		info.Length = int64(total)
	} else {
		sum := 0
		for _, f := range files {
			info.Files = append(info.Files, &metainfo.File{Path: strings.Split(f.path, "/"), Length: int64(f.n)})
			sum += f.n
			l.name += fmt.Sprintf(" %s:%d", f.path, f.n)
		}
		if sum != total {
			panic("layout: sizes")
		}
	}
	l.info = info
	l.rehash()
	return l
}

// rehash makes the piece hashes those of the content.
func (l *layout) rehash() {
	l.info.Pieces = nil
	for i := 0; i < len(l.data); i += l.piece {
		l.info.Pieces = append(l.info.Pieces, sha1.Sum(l.data[i:min(i+l.piece, len(l.data))]))
	}
}

func (l *layout) pieces() int { return len(l.info.Pieces) }

// bytes is the content of piece i.
func (l *layout) bytes(i int) []byte {
	return l.data[i*l.piece : min((i+1)*l.piece, len(l.data))]
}

type blk struct{ p, off, n int }

// blocks lists all blocks, piece by piece.
func (l *layout) blocks() (out []blk) {
	for i := 0; i < l.pieces(); i++ {
		out = append(out, l.blocksOf(i)...)
	}
	return
}

func (l *layout) blocksOf(i int) (out []blk) {
	n := len(l.bytes(i))
	for o := 0; o < n; o += block {
		out = append(out, blk{i, o, min(block, n-o)})
	}
	return
}

// good returns a block's data (a copy: the storage may keep it), bad a wrong one.
func (l *layout) good(b blk) []byte {
	return append([]byte(nil), l.bytes(b.p)[b.off:b.off+b.n]...)
}

func (l *layout) bad(b blk) []byte {
	d := l.good(b)
	d[len(d)-1] ^= 0x40
	return d
}

// target is what the finished torrent must be on disk.
func (l *layout) target() map[string]string {
	m := map[string]string{}
	if len(l.info.Files) == 0 {
		m[tdir+"/"+l.info.Name] = string(l.data)
		return m
	}
	o := 0
	for _, f := range l.info.Files {
		m[tdir+"/"+l.info.Name+"/"+strings.Join(f.Path, "/")] = string(l.data[o : o+int(f.Length)])
		o += int(f.Length)
	}
	return m
}

func fresh() *vos.FS {
	f := vos.Reset()
	f.Mkdir(tdir)
	f.Mkdir(wdir)
	f.Quiet = true
	return f
}

func open(l *layout) (*storage.Storage, error) {
	s := storage.New(tdir, wdir, l.info)
	return s, s.Load()
}

// targetDiff compares what lies under the target directory with the finished torrent.
func targetDiff(f *vos.FS, l *layout) string {
	want := l.target()
	names, data := f.Files()
	for i, n := range names {
		if !strings.HasPrefix(n, tdir+"/") {
			continue
		}
		w, ok := want[n]
		if !ok {
			return "has a file " + n + " that is not part of it"
		}
		if w != string(data[i]) {
			return fmt.Sprintf("has %d bytes in %s that differ from the %d of the torrent%s", len(data[i]), n, len(w), firstDiff(string(data[i]), w))
		}
		delete(want, n)
	}
	if len(want) > 0 {
		var miss []string
		for n := range want {
			miss = append(miss, n)
		}
		sort.Strings(miss)
		return "lacks " + strings.Join(miss, ", ")
	}
	return ""
}

func firstDiff(a, b string) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf(" (first at %d)", i)
		}
	}
	return ""
}

// targetEmpty tells whether nothing lies under the target directory.
func targetEmpty(f *vos.FS) bool {
	for _, n := range f.Tree() {
		if strings.HasPrefix(n, tdir+"/") && n != tdir+"/" {
			return false
		}
	}
	return true
}

// served tells which pieces GetBlock serves, and complains about any byte that is not the torrent's.
// Every piece is asked for whole, in its blocks, and around block boundaries.
func served(l *layout, s *storage.Storage, fail func(string, ...any)) []bool {
	out := make([]bool, l.pieces())
	for i := range out {
		w := l.bytes(i)
		n, ok := 0, 0
		for _, r := range ranges(len(w)) {
			n++
			got, err := s.GetBlock(i, r[0], r[1])
			if err != nil {
				continue
			}
			ok++
			if string(got) != string(w[r[0]:r[0]+r[1]]) {
				fail("piece %d %d+%d is served with %d bytes that are not the torrent's", i, r[0], r[1], len(got))
			}
		}
		out[i] = ok > 0
		if ok != 0 && ok != n {
			fail("of piece %d only %d of %d ranges are served", i, ok, n)
		}
	}
	return out
}

// ranges are the ranges of a piece worth asking for: all of them if it is small.
func ranges(n int) (out [][2]int) {
	var cuts []int
	if n <= 6 {
		for i := 0; i <= n; i++ {
			cuts = append(cuts, i)
		}
	} else {
		for _, c := range []int{0, 1, block - 1, block, n - 1, n} {
			if c <= n && (len(cuts) == 0 || c > cuts[len(cuts)-1]) {
				cuts = append(cuts, c)
			}
		}
	}
	for i, a := range cuts {
		for _, b := range cuts[i+1:] {
			out = append(out, [2]int{a, b - a})
		}
	}
	return
}

func has(s *storage.Storage, i int) bool { return s.Torrent.Bitfield.Has(i) }

func isChecksum(err error) bool {
	var c *storage.ChecksumError
	return errors.As(err, &c)
}

// seq runs a body as one sequential execution, under the scheduler so that a
// deadlock is seen.
func seq(e *mc.Enum, body func()) { e.Sched(vs.Config{NoPoints: true}, body) }

// perms calls f with every permutation of 0..n-1 if n <= max, else with a few orders.
func perms(n, max int, f func([]int)) {
	if n > max {
		a, b, c, d := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
		for i := 0; i < n; i++ {
			a[i], b[i], c[i], d[i] = i, n-1-i, (i+n/2)%n, i*2%n
			if n%2 == 0 && i >= n/2 {
				d[i]++
			}
		}
		f(a)
		f(b)
		f(c)
		f(d)
		return
	}
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

// compose calls f with every sequence of k sizes >= 0 that sum to n.
func compose(n, k int, f func([]int)) {
	p := make([]int, k)
	var rec func(i, left int)
	rec = func(i, left int) {
		if i == k-1 {
			p[i] = left
			f(append([]int(nil), p...))
			return
		}
		for x := 0; x <= left; x++ {
			p[i] = x
			rec(i+1, left-x)
		}
	}
	rec(0, n)
}

var shapes = [][]string{
	{"a", "b", "c", "d"},
	{"d/a", "b", "d/c", "e/f/g"},
}

// smallLayouts calls f with every layout of up to maxTotal bytes in pieces of up to maxPiece, in up to maxFiles files.
func smallLayouts(maxPiece, maxTotal, maxFiles int, f func(*layout)) {
	for p := 1; p <= maxPiece; p++ {
		for n := 1; n <= maxTotal; n++ {
			f(mk(p, n))
			for k := 1; k <= maxFiles; k++ {
				compose(n, k, func(sz []int) {
					for _, sh := range shapes {
						var fs []fileSpec
						for i, s := range sz {
							fs = append(fs, fileSpec{sh[i], s})
						}
						f(mk(p, n, fs...))
					}
				})
			}
		}
	}
}

// blockLayouts are layouts of real blocks.
func blockLayouts(more bool) (out []*layout) {
	for _, p := range []int{block, block + 1, 2 * block, 2*block + 2} {
		for _, n := range []int{p - 1, p, p + 1, p + block, 2 * p, 2*p + 1} {
			out = append(out, mk(p, n))
			cuts := []int{1, block - 1, block, block + 1, p - 1, p, p + 1}
			for i, c := range cuts {
				if c >= n || i > 0 && c <= cuts[i-1] {
					continue
				}
				out = append(out, mk(p, n, fileSpec{"a", c}, fileSpec{"d/b", n - c}))
				for j, d := range cuts[i+1:] {
					if (more || (i+j)%3 == 0) && d > c && d < n {
						out = append(out, mk(p, n, fileSpec{"a", c}, fileSpec{"z/e", 0}, fileSpec{"d/b", d - c}, fileSpec{"d/c", n - d}))
					}
				}
			}
		}
	}
	return
}
