package main

import (
	"fmt"
	"strings"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C16",
		Units: []mc.Unit{
			{Name: "layouts", Enum: contentSmall, Weight: 3},
			{Name: "blocks", Enum: contentBlocks, Weight: 2},
			{Name: "huge", Enum: contentHuge, Weight: 0.5},
		},
		Explain:     "every division of up to 8 (thorough 10) bytes into pieces and up to 4 files including empty ones, flat and nested, every order of the pieces, every restart point; divisions around real block boundaries with every order of up to 4 blocks; all block ranges read before and after completion and after a restart; blocks around every boundary, those of 31 and 32 bits too, of torrents of several GiB in one to five files of which nothing, or all but one piece, is missing",
		Assumptions: []string{"the target directory exists and holds nothing else; no file-system errors (they are C18's)"},
	})
}

func contentSmall(e *mc.Enum) {
	smallLayouts(mc.Pick(5, 6), mc.Pick(8, 10), mc.Pick(4, 4), func(l *layout) {
		if e.Stopped() {
			return
		}
		e.State(l.name)
		perms(l.pieces(), mc.Pick(4, 5), func(p []int) {
			for _, restart := range []bool{false, true} {
				e.Casef(func() { seq(e, func() { e.Trans(fill(l, p, restart)) }) }, "%s order=%v restarts=%v", l.name, p, restart)
			}
		})
	})
}

// fill puts the pieces in the given order and checks all there is to see on the way.
func fill(l *layout, order []int, restart bool) int {
	var bs []blk
	for _, p := range order {
		bs = append(bs, l.blocksOf(p)...)
	}
	return fillBlocks(l, bs, restart)
}

func fillBlocks(l *layout, bs []blk, restart bool) int {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load of nothing: %v", err)
		return 0
	}
	have := make([]int, l.pieces())
	steps := 0
	check := func(s *storage.Storage, when string) {
		done := served(l, s, func(m string, a ...any) { vs.Failf(when+": "+m, a...) })
		for i := range done {
			want := have[i] == len(l.blocksOf(i))
			if done[i] != want {
				vs.Failf("%s: piece %d served=%v, put completely=%v", when, i, done[i], want)
			}
			if has(s, i) != want {
				vs.Failf("%s: piece %d in the bitfield=%v, put completely=%v", when, i, has(s, i), want)
			}
		}
	}
	check(s, "at the start")
	for k, b := range bs {
		if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
			vs.Failf("block %d+%d of piece %d is refused: %v", b.off, b.n, b.p, err)
			return steps
		}
		steps++
		have[b.p]++
		check(s, fmt.Sprintf("after %d blocks", k+1))
		if k < len(bs)-1 && !targetEmpty(f) {
			vs.Failf("there is a target after %d of %d blocks", k+1, len(bs))
		}
		if restart {
			if s, err = open(l); err != nil {
				vs.Failf("Load after %d blocks: %v", k+1, err)
				return steps
			}
			for i := range have {
				// what is not a whole piece lives in memory only
				if have[i] < len(l.blocksOf(i)) {
					have[i] = 0
				}
			}
			check(s, fmt.Sprintf("restarted after %d blocks", k+1))
		}
		if vs.Failed() {
			return steps
		}
	}
	if d := targetDiff(f, l); d != "" {
		vs.Failf("the target %s", d)
	}
	if err := s.Torrent.Wait(); err != nil {
		vs.Failf("Wait of the finished torrent: %v", err)
	}
	leftovers(f)
	s, err = open(l)
	if err != nil {
		vs.Failf("Load of the finished torrent: %v", err)
		return steps
	}
	check(s, "restarted at the end")
	if err := s.Torrent.Wait(); err != nil {
		vs.Failf("Wait of the loaded torrent: %v", err)
	}
	if d := targetDiff(f, l); d != "" {
		vs.Failf("restarted, the target %s", d)
	}
	return steps
}

// leftovers complains about files in the work directory.
func leftovers(f *vos.FS) {
	names, _ := f.Files()
	for _, n := range names {
		if strings.HasPrefix(n, wdir+"/") {
			vs.Failf("the work directory still has %s", n)
		}
	}
}

func contentBlocks(e *mc.Enum) {
	for _, l := range blockLayouts(mc.Thorough) {
		if e.Stopped() {
			return
		}
		e.State(l.name)
		bs := l.blocks()
		perms(len(bs), 4, func(p []int) {
			o := make([]blk, len(p))
			for i, x := range p {
				o[i] = bs[x]
			}
			e.Casef(func() { seq(e, func() { e.Trans(fillBlocks(l, o, false)) }) }, "%s blocks=%v", l.name, p)
		})
	}
}

// contentHuge: torrents whose offsets do not fit into 31 or 32 bits.
func contentHuge(e *mc.Enum) {
	const g = int64(1) << 31
	at := func(off int64) byte { return byte(off>>31*89 + off>>14*31 + off>>7*5 + off*7 + 1) }
	for _, files := range [][]int64{
		{2*g + 3*block + 1},
		{g, 1},
		{g - 1, 2, g + 5},
		{3, 2*g + 7, 0, 10, g - 10},
		{block, g - block, g, 2*g + 1},
		{2*g - 1, 0, 1, 1, block},
	} {
		var total int64
		for _, n := range files {
			total += n
		}
		for _, piece := range []int64{1 << 20, 1 << 27, 1<<30 + block, g, g + 3*block, 2*g + 5, total} {
			if piece > total {
				continue
			}
			info := &metainfo.Info{Name: "out", PieceLength: int(piece), SHA1: [20]byte{9, 8, 7}}
			for n := int64(0); n < total; n += piece {
				info.Pieces = append(info.Pieces, [20]byte{byte(n)})
			}
			cuts := []int64{0, total, g - 1, g, 2*g - 1, 2 * g, 3 * g}
			var sum int64
			for i, n := range files {
				if len(files) == 1 {
					info.Length = n
				} else {
					info.Files = append(info.Files, &metainfo.File{Length: n, Path: []string{fmt.Sprintf("f%d", i)}})
				}
				sum += n
				cuts = append(cuts, sum, sum-g, sum-2*g)
			}
			pieces := len(info.Pieces)
			for _, i := range []int{0, 1, 2, pieces / 2, pieces - 1} {
				cuts = append(cuts, int64(i)*piece, int64(i)*piece+g, int64(i)*piece+2*g)
			}
			length := func(i int) int64 { return min(piece, total-int64(i)*piece) }
			for missing := -1; missing < 2; missing++ {
				if missing >= pieces || missing >= 0 && pieces > 100 {
					continue
				}
				e.Casef(func() {
					seq(e, func() {
						f := fresh()
						s := storage.New(tdir, wdir, info)
						if missing >= 0 {
							dir := wdir + "/" + s.Torrent.WorkDir()
							f.Mkdir(dir)
							for i := range pieces {
								if i != missing {
									f.PutHuge(dir+"/"+s.GetPiece(i).FileName(), length(i), func(off int64) byte { return at(int64(i)*piece + off) })
								}
							}
						} else if len(files) == 1 {
							f.PutHuge(tdir+"/out", total, at)
						} else {
							f.Mkdir(tdir + "/out")
							var sum int64
							for i, n := range files {
								start := sum
								f.PutHuge(fmt.Sprintf(tdir+"/out/f%d", i), n, func(off int64) byte { return at(start + off) })
								sum += n
							}
						}
						if err := s.Load(); err != nil {
							vs.Failf("Load: %v", err)
							return
						}
						down := total
						if missing >= 0 {
							down -= length(missing)
						}
						if s.Downloaded() != down {
							vs.Failf("downloaded is %d, want %d", s.Downloaded(), down)
						}
						for _, cut := range cuts {
							for d := int64(-2); d <= 1; d++ {
								for _, n := range []int64{1, 2, 5, block} {
									off := cut + d
									if off < 0 || off >= total {
										continue
									}
									i := int(off / piece)
									begin := off - int64(i)*piece
									if n > length(i)-begin {
										continue
									}
									e.Trans(1)
									got, err := s.GetBlock(i, int(begin), int(n))
									if i == missing {
										if err == nil {
											vs.Failf("a block of piece %d, which is missing", i)
										}
										continue
									}
									if err != nil || int64(len(got)) != n {
										vs.Failf("block %d+%d of piece %d: %d bytes, %v", begin, n, i, len(got), err)
										return
									}
									for k, b := range got {
										if b != at(off+int64(k)) {
											vs.Failf("block %d+%d of piece %d is wrong at byte %d", begin, n, i, k)
											return
										}
									}
								}
							}
						}
						if missing >= 0 {
							// Its blocks are taken, as long as they are blocks.
							last := (length(missing) - 1) / block * block
							for _, begin := range []int64{0, g / 2, g - block, g, g + block, 2*g - block, 2 * g, last - block, last, last + block} {
								n := min(block, length(missing)-begin)
								if begin < 0 || n <= 0 || last == 0 {
									continue
								}
								e.Trans(1)
								s.ResetPiece(missing)
								if err := s.PutBlock(missing, int(begin), make([]byte, n)); err != nil {
									vs.Failf("block %d of piece %d: %v", begin, missing, err)
								}
								if err := s.PutBlock(missing, int(begin), make([]byte, n-1)); err == nil {
									vs.Failf("a short block %d of piece %d", begin, missing)
								}
							}
						}
						e.State(fmt.Sprint(files, piece, missing))
					})
				}, "%d files of %v, pieces of %d, missing %d", len(files), files, piece, missing)
			}
		}
	}
}
