package main

import (
	"fmt"
	"syscall"

	"github.com/browles/drip/future"
	"github.com/browles/drip/storage"
	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vos"
	"github.com/browles/drip/zzv/rt/vs"
)

// waitUnits explore waiters on threads of their own.
func waitUnits() (out []mc.Unit) {
	l1 := mk(2, 2)
	l2 := mk(2, 4)
	add := func(name string, free bool, bound, race int, body func()) {
		out = append(out, mc.Unit{Name: name, Body: body, Cfg: vs.Config{FreeBlocked: free}, Bound: bound})
		out = append(out, mc.Unit{Name: name + " race", Body: body, Cfg: vs.Config{FreeBlocked: free}, Bound: race, BoundT: bound, Race: true, Weight: 0.5})
	}
	add("waiters and puts", false, 3, 2, func() { waitAndPut(l2) })
	add("waiters and resets", true, 2, 1, func() { waitAndReset(l1) })
	add("future", true, 4, 1, futureBody)
	ls := []*layout{mk(3, 2), mk(2, 4), mk(2, 3, fileSpec{"a", 1}, fileSpec{"d/b", 2})}
	out = append(out, mc.Unit{Name: "waiters and faults", Bound: 1, Body: func() { waitAndFail(ls[vs.ChooseFree(len(ls), "layout")]) }})
	return
}

// waitAndPut: waiters of each piece and of the torrent, and a thread per piece.
func waitAndPut(l *layout) {
	f := fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	var ts []*vs.Thread
	for i := 0; i < l.pieces(); i++ {
		ts = append(ts, vs.GoNamed("piece waiter", func() {
			if err := s.GetPiece(i).Wait(); err != nil {
				vs.Failf("the waiter of piece %d gets %v", i, err)
			}
			if _, err := s.GetBlock(i, 0, 1); err != nil {
				vs.Failf("piece %d cannot be read after its waiter returned: %v", i, err)
			}
		}))
	}
	ts = append(ts, vs.GoNamed("torrent waiter", func() {
		if err := s.Torrent.Wait(); err != nil {
			vs.Failf("the waiter of the torrent gets %v", err)
		}
		if d := targetDiff(f, l); d != "" {
			vs.Failf("when the torrent's waiter returns, the target %s", d)
		}
	}))
	for _, b := range l.blocks() {
		ts = append(ts, vs.GoNamed("put", func() {
			if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
				vs.Failf("put: %v", err)
			}
		}))
	}
	vs.Join(ts...)
}

// waitAndReset: a piece gets a wrong block, is reset, and gets the right one,
// while waiters come at any time.
func waitAndReset(l *layout) {
	fresh()
	s, err := open(l)
	if err != nil {
		vs.Failf("Load: %v", err)
		return
	}
	b := l.blocks()[0]
	var ts []*vs.Thread
	attempts := vs.ChooseFree(2, "first block") // 0: wrong data, then right; 1: reset at once
	done := false
	for k := 0; k < 2; k++ {
		ts = append(ts, vs.GoNamed("waiter", func() {
			// as the server does: wait again until it succeeds
			for n := 0; ; n++ {
				err := s.GetPiece(0).Wait()
				vs.Mix(fmt.Sprint(err == nil))
				if err == nil {
					if _, err := s.GetBlock(0, 0, 1); err != nil {
						vs.Failf("the waiter returned nil, but the piece cannot be read: %v", err)
					}
					return
				}
				if done {
					continue
				}
				if n > 20 {
					return // the failed attempt is reported until the reset
				}
			}
		}))
	}
	vs.GoNamed("getter", func() { s.GetBlock(0, 0, 1) })
	if attempts == 0 {
		if err := s.PutBlock(b.p, b.off, l.bad(b)); !isChecksum(err) {
			vs.Failf("wrong data: %v", err)
		}
	}
	s.ResetPiece(0)
	if err := s.PutBlock(b.p, b.off, l.good(b)); err != nil {
		vs.Failf("right data after the reset: %v", err)
	}
	done = true
	vs.Join(ts...)
	if err := s.GetPiece(0).Wait(); err != nil {
		vs.Failf("Wait of the complete piece: %v", err)
	}
}

// waitAndFail: waiters while a file operation fails.
func waitAndFail(l *layout) {
	f := fresh()
	op, n := vs.ChooseFree(48, "operation"), 0
	f.Hook = func(o *vos.Op) (v vos.Verdict) {
		n++
		if n-1 == op {
			v.Err = syscall.EIO
		}
		return
	}
	s, err := open(l)
	if err != nil {
		return // Load has met it
	}
	vs.GoNamed("torrent waiter", func() {
		if err := s.Torrent.Wait(); err != nil {
			vs.Failf("the waiter of the torrent gets %v", err)
		}
		if d := targetDiff(f, l); d != "" {
			vs.Failf("when the torrent's waiter returns, the target %s", d)
		}
	})
	for i := 0; i < l.pieces(); i++ {
		for try := 0; ; try++ {
			w := vs.GoNamed("piece waiter", func() {
				err := s.GetPiece(i).Wait()
				if err == nil && !s.Torrent.CompletePieces().Has(i) {
					vs.Failf("the waiter of piece %d gets nil, and it is not complete", i)
				}
			})
			var err error
			for _, b := range l.blocksOf(i) {
				if err = s.PutBlock(b.p, b.off, l.good(b)); err != nil {
					break
				}
			}
			vs.Join(w)
			if err == nil {
				break
			}
			if s.Torrent.CompletePieces().Has(i) {
				return // assembling has failed, the next start repeats it
			}
			if try > 1 {
				vs.Failf("piece %d: %v", i, err)
				return
			}
			s.ResetPiece(i)
		}
	}
	if err := s.Torrent.Wait(); err != nil {
		vs.Failf("the torrent is complete, its waiter gets %v", err)
	}
}

// futureBody: one value, any number of waiters before and after.
func futureBody() {
	f := future.New[*storage.Storage]()
	v := &storage.Storage{TargetDir: "x"}
	var ts []*vs.Thread
	for k := 0; k < 3; k++ {
		ts = append(ts, vs.GoNamed("waiter", func() {
			if got := f.Wait(); got != v || got.TargetDir != "x" {
				vs.Failf("a waiter gets %v", got)
			}
			<-f.Done
		}))
	}
	ts = append(ts, vs.GoNamed("deliver", func() { f.Deliver(v) }))
	vs.Join(ts...)
	if f.Wait() != v {
		vs.Failf("a late waiter gets something else")
	}
}
