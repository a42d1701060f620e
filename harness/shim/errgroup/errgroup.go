//go:build sched && race && go1.21

// Package errgroup is golang.org/x/sync/errgroup under control of the scheduler.
package errgroup

import (
	"context"

	"github.com/stephen/cssc/verifharness/shim/sched"
	"github.com/stephen/cssc/verifharness/shim/sync"
)

// Group is errgroup.Group.
type Group struct {
	cancel  func()
	wg      sync.WaitGroup
	limit   int
	limited bool
	sem     sched.Obj
	errOnce sync.Once
	err     error
}

func WithContext(ctx context.Context) (*Group, context.Context) {
	ctx, cancel := context.WithCancel(ctx)
	return &Group{cancel: cancel}, ctx
}

func (g *Group) SetLimit(n int) { g.limit, g.limited = n, n >= 0 }

func (g *Group) Go(f func() error) {
	if g.limited && sched.Active() {
		sched.AcquireN(&g.sem, g.limit)
	}
	g.start(f)
}

func (g *Group) TryGo(f func() error) bool {
	if g.limited && sched.Active() && !sched.TryAcquireN(&g.sem, g.limit) {
		return false
	}
	g.start(f)
	return true
}

func (g *Group) start(f func() error) {
	g.wg.Add(1)
	sched.Go(func() {
		defer g.done()
		if err := f(); err != nil {
			g.errOnce.Do(func() {
				g.err = err
				if g.cancel != nil {
					g.cancel()
				}
			})
		}
	})
}

func (g *Group) done() {
	if g.limited && sched.Active() {
		sched.ReleaseN(&g.sem)
	}
	g.wg.Done()
}

func (g *Group) Wait() error {
	g.wg.Wait()
	if g.cancel != nil {
		g.cancel()
	}
	return g.err
}
