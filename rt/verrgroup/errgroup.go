// Package verrgroup stands in for golang.org/x/sync/errgroup.
package verrgroup

import (
	"context"
	"fmt"

	"github.com/browles/drip/zzv/rt/vcontext"
	"github.com/browles/drip/zzv/rt/vs"
	"github.com/browles/drip/zzv/rt/vsync"
)

type token struct{}

type Group struct {
	cancel  func(error)
	wg      vsync.WaitGroup
	sem     chan token
	errOnce vsync.Once
	err     error
}

func (g *Group) done() {
	if g.sem != nil {
		vs.Recv(g.sem)
	}
	g.wg.Done()
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := vcontext.WithCancelCause(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel(g.err)
	}
	return g.err
}

func (g *Group) fail(err error) {
	g.err = err
	if g.cancel != nil {
		g.cancel(g.err)
	}
}

func (g *Group) run(f func() error) {
	defer g.done()
	if err := f(); err != nil {
		g.errOnce.Do(func() { g.fail(err) })
	}
}

func (g *Group) Go(f func() error) {
	if g.sem != nil {
		vs.SendTo(g.sem).Send(token{})
	}
	g.wg.Add(1)
	vs.GoNamed("errgroup", func() { g.run(f) })
}

func (g *Group) TryGo(f func() error) bool {
	if g.sem != nil {
		if vs.Select(true, vs.SendTo(g.sem).With(token{})) < 0 {
			return false
		}
	}
	g.wg.Add(1)
	vs.GoNamed("errgroup", func() { g.run(f) })
	return true
}

func (g *Group) SetLimit(n int) {
	if n < 0 {
		g.sem = nil
		return
	}
	if len(g.sem) != 0 {
		panic(fmt.Errorf("errgroup: modify limit while %v goroutines in the group are still active", len(g.sem)))
	}
	g.sem = make(chan token, n)
}
