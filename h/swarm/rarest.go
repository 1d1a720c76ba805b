package main

import (
	"fmt"
	"time"

	"github.com/browles/drip/zzv/rt/mc"
	"github.com/browles/drip/zzv/rt/vrand"
	"github.com/browles/drip/zzv/rt/vs"
)

// One peer gives pieces, others have announced theirs and keep the server choked:
// the order of the pieces it is asked for is that of their rarity.
type rarePlan struct {
	n      int
	have   [][]int // the first is the giver's
	pre    []int
	leaves int // this peer leaves before the giver unchokes (0: none)
	gets   int // this peer announces all pieces by HAVE before the giver unchokes
	busy   int // this peer unchokes first and never answers
}

func (p rarePlan) String() string {
	return fmt.Sprintf("%d pieces, peers have %v, the server %v, %d leaves, %d gets everything, %d is busy", p.n, p.have, p.pre, p.leaves, p.gets, p.busy)
}

func rarest(p rarePlan) {
	l := mk(1, p.n)
	w := newWorld(l, p.pre...)
	w.up()
	if vrand.Explore {
		vs.Mute(true)
	}
	count := make([]int, p.n)
	var rs []*remote
	var asked []int
	has := map[int]bool{}
	for _, i := range p.pre {
		has[i] = true
	}
	gone := map[int]bool{}
	taken := -1
	for k, have := range p.have {
		r := w.remote(k+1, have...)
		r.have = append([]int{}, have...)
		rs = append(rs, r)
		w.connect(r)
	}
	vs.Quiesce()
	if vrand.Explore {
		vs.Mute(false)
	}
	if p.leaves > 0 {
		rs[p.leaves].drop()
		gone[p.leaves] = true
	}
	if p.gets > 0 {
		for i := 0; i < p.n; i++ {
			rs[p.gets].sendHave(i)
		}
	}
	vs.Quiesce()
	for k, r := range rs {
		if gone[k] {
			continue
		}
		for i := range sortedSet(r.announced) {
			count[i]++
		}
	}
	order := func(r *remote, x msg) {
		best := -1
		for i := range sortedSet(r.announced) {
			if !has[i] && i != taken && (best < 0 || count[i] < count[best]) {
				best = i
			}
		}
		if best >= 0 && count[x.b.p] != count[best] {
			vs.Failf("piece %d, which %d peers have, is asked for before piece %d, which %d have [%v]", x.b.p, count[x.b.p], best, count[best], p)
		}
	}
	if p.busy > 0 {
		rs[p.busy].on = func(r *remote, x msg) {
			if x.typ == mRequest {
				order(r, x)
				taken = x.b.p
				r.choking = false
			}
		}
		rs[p.busy].unchoke()
		vs.Quiesce()
	}
	rs[0].on = func(r *remote, x msg) {
		if x.typ == mRequest {
			order(r, x)
			asked = append(asked, x.b.p)
			has[x.b.p] = true
			r.give(x.b)
		}
	}
	rs[0].unchoke()
	vs.Quiesce()
	// all of the giver's pieces that are not taken must have been asked for by now
	for i := range sortedSet(p.have[0]) {
		if !has[i] && i != taken {
			vs.Failf("piece %d was never asked for, asked was %v [%v]", i, asked, p)
		}
	}
	vs.Mix(fmt.Sprint(asked))
	settle(time.Second)
	w.quiet()
}

func sortedSet(s []int) map[int]bool {
	m := map[int]bool{}
	for _, i := range s {
		m[i] = true
	}
	return m
}

func rareCases(e *mc.Enum) {
	n := 3
	var subs [][]int
	subsets(n, func(s []int) { subs = append(subs, s) })
	one := func(p rarePlan) {
		if e.Stopped() {
			return
		}
		e.Casef(func() {
			e.Sched(vs.Config{}, func() { vrand.Explore = false; rarest(p) })
		}, "%v", p)
	}
	for _, a := range subs {
		if len(a) == 0 {
			continue
		}
		for _, b := range subs {
			for _, c := range subs {
				for _, pre := range [][]int{nil, {0}, {2}} {
					for leaves := 0; leaves <= 1; leaves++ {
						for gets := 0; gets <= 2; gets += 2 {
							for busy := 0; busy <= 2; busy += 2 {
								one(rarePlan{n: n, have: [][]int{a, b, c}, pre: pre, leaves: leaves, gets: gets, busy: busy})
							}
						}
					}
				}
			}
		}
	}
	// more pieces, every order of rarity
	m := mc.Pick(4, 5)
	perm(m, func(p []int) {
		// piece p[k] is had by k others
		have := make([][]int, m)
		for i := 0; i < m; i++ {
			have[0] = append(have[0], i)
		}
		for k := 1; k < m; k++ {
			for j := k; j < m; j++ {
				have[k] = append(have[k], p[j])
			}
		}
		one(rarePlan{n: m, have: have})
		one(rarePlan{n: m, have: have, leaves: m - 1})
		one(rarePlan{n: m, have: have, leaves: 1})
		one(rarePlan{n: m, have: have, busy: 1})
	})
}

// many has torrents of many pieces, one or two of which are rare.
func many(e *mc.Enum) {
	for _, n := range []int{33, 65, 70, 129, 260} {
		all := make([]int, n)
		for i := range all {
			all[i] = i
		}
		without := func(out ...int) (s []int) {
			for i := range all {
				if !sortedSet(out)[i] {
					s = append(s, i)
				}
			}
			return
		}
		at := []int{0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 100, 128, 200, 255, 256, n / 2, n - 2, n - 1}
		for _, i := range at {
			if i >= n {
				continue
			}
			for _, j := range []int{i, 0, n - 1} {
				for _, p := range []rarePlan{
					{n: n, have: [][]int{all, without(i, j)}},
					{n: n, have: [][]int{all, without(i), without(i, j)}},
					{n: n, have: [][]int{all, without(i, j)}, pre: without(i, j, n/2, n/3)},
				} {
					if e.Stopped() {
						return
					}
					e.Casef(func() { e.Sched(vs.Config{}, func() { vrand.Explore = false; rarest(p) }) }, "%d pieces, %d and %d are rare", n, i, j)
				}
			}
		}
	}
}

func perm(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

func init() {
	plans := []rarePlan{
		{n: 3, have: [][]int{{0, 1, 2}, {0, 1}, {0}}},
		{n: 3, have: [][]int{{0, 1, 2}, {1, 2}, {2}}},
		{n: 3, have: [][]int{{0, 1, 2}, {0, 2}, {}}},
		{n: 4, have: [][]int{{0, 1, 2, 3}, {0, 1}, {0, 3}}},
	}
	mc.Register(&mc.Check{
		ID:          "C31",
		Explain:     "every distribution of up to four pieces among up to four peers, one or two rare ones among up to 260, with peers leaving, announcing more, or busy, under every outcome of the random shuffle within the bound, and all schedules within the bound",
		Assumptions: []string{"network, trackers, clock, files and randomness are virtual; other peers are models that answer by the protocol or as described; time passes only when nothing can run, except where timers are explored"},
		Units: []mc.Unit{
			{Name: "availability", Enum: rareCases, Weight: 2},
			{Name: "many pieces", Enum: many},
			{Name: "random order", Bound: 2, BoundT: 3, Body: func() {
				vrand.Explore = true
				rarest(plans[vs.ChooseFree(len(plans), "plan")])
			}},
			{Name: "schedules", Bound: 1, BoundT: 2, Body: func() {
				vrand.Explore = false
				rarest(plans[vs.ChooseFree(len(plans), "plan")])
			}},
		},
	})
}
