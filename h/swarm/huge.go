package main

import (
	"fmt"
	"strconv"

	"github.com/browles/drip/api/metainfo"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vs"
)

// hugeAt is the content of torrents of several GiB.
func hugeAt(off int64) byte { return byte(off>>31*89 + off>>14*31 + off>>7*5 + off*7 + 1) }

// huge: servers with torrents whose offsets do not fit into 31 or 32 bits are asked
// for blocks around every boundary, and tell the tracker what they lack.
func huge(e *mc.Enum) {
	const g = int64(1) << 31
	for _, files := range [][]int64{
		{2*g + 3*block + 1},
		{g - 1, 2, g + 5},
		{3, 2*g + 7, 0, 10, g - 10},
		{2*g - 1, 0, 1, 1, block},
	} {
		var total int64
		for _, n := range files {
			total += n
		}
		for _, piece := range []int64{1 << 24, 1<<30 + block, g, g + 3*block, total} {
			info := &metainfo.Info{Name: "out", PieceLength: int(piece), SHA1: theSHA}
			for n := int64(0); n < total; n += piece {
				info.Pieces = append(info.Pieces, [20]byte{byte(n)})
			}
			cuts := []int64{0, total, g - 1, g, 2*g - 1, 2 * g}
			var sum int64
			for i, n := range files {
				if len(files) == 1 {
					info.Length = n
				} else {
					info.Files = append(info.Files, &metainfo.File{Length: n, Path: []string{fmt.Sprintf("f%d", i)}})
				}
				sum += n
				cuts = append(cuts, sum, sum-g, sum-2*g)
			}
			pieces := len(info.Pieces)
			for _, i := range []int{1, pieces / 2, pieces - 1} {
				cuts = append(cuts, int64(i)*piece, int64(i)*piece+g)
			}
			length := func(i int) int64 { return min(piece, total-int64(i)*piece) }
			for missing := -2; missing < 1; missing++ {
				if missing == 0 && pieces > 200 {
					continue
				}
				e.Casef(func() {
					e.Sched(vs.Config{}, func() {
						w := newWorld(&layout{info: info, piece: int(piece)})
						left := total
						switch {
						case missing == -2: // nothing is there
						case missing >= 0:
							dir := wdir + "/" + w.st.Torrent.WorkDir()
							w.fs.Mkdir(dir)
							for i := range pieces {
								if i != missing {
									w.fs.PutHuge(dir+"/"+w.st.GetPiece(i).FileName(), length(i), func(off int64) byte { return hugeAt(int64(i)*piece + off) })
								}
							}
							left = length(missing)
						case len(files) == 1:
							w.fs.PutHuge(tdir+"/out", total, hugeAt)
							left = 0
						default:
							w.fs.Mkdir(tdir + "/out")
							var sum int64
							for i, n := range files {
								start := sum
								w.fs.PutHuge(fmt.Sprintf(tdir+"/out/f%d", i), n, func(off int64) byte { return hugeAt(start + off) })
								sum += n
							}
							left = 0
						}
						w.up()
						if len(w.reqs) == 0 {
							vs.Failf("the tracker is not asked")
							return
						}
						if n := w.reqs[0].q.Get("left"); n != strconv.FormatInt(left, 10) {
							vs.Failf("the tracker is told that %s bytes are left, %d are", n, left)
						}
						if missing == -2 {
							w.quiet()
							return
						}
						a := w.asker(1)
						w.connect(a.remote)
						settle(ready)
						for _, cut := range cuts {
							for d := int64(-1); d <= 1; d++ {
								for _, n := range []int64{1, 3, block} {
									off := cut + d
									if off < 0 || off >= total || int(off/piece) == missing {
										continue
									}
									i := int(off / piece)
									begin := off - int64(i)*piece
									if n > length(i)-begin || begin >= 2*g {
										continue
									}
									e.Trans(1)
									a.ask(blk{i, int(begin), int(n)})
									settle(0)
									b := a.asked[len(a.asked)-1]
									if len(a.pieces) != len(a.asked) || a.pieces[len(a.pieces)-1].b != b {
										vs.Failf("the request for %v is not answered", b)
										return
									}
									for k, c := range a.pieces[len(a.pieces)-1].data {
										if c != hugeAt(off+int64(k)) {
											vs.Failf("%v is wrong at byte %d", b, k)
											return
										}
									}
								}
							}
						}
						e.State(fmt.Sprint(files, piece, missing))
						w.quiet()
					})
				}, "files of %v, pieces of %d, missing %d", files, piece, missing)
			}
		}
	}
}
