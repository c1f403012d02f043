// Package context is the standard context package on the simulation kernel.
package context

import (
	c "context"
	"errors"
	"time"

	"verif.local/sim/shim/sync"
	"verif.local/sim/simrt"
)

type (
	Context         = c.Context
	CancelFunc      = c.CancelFunc
	CancelCauseFunc = c.CancelCauseFunc
)

var (
	Canceled         = c.Canceled
	DeadlineExceeded = c.DeadlineExceeded
)

func Background() Context                           { return c.Background() }
func TODO() Context                                 { return c.TODO() }
func WithValue(p Context, k, v interface{}) Context { return &valueCtx{p, k, v} }

type valueCtx struct {
	Context
	k, v interface{}
}

func (x *valueCtx) Value(k interface{}) interface{} {
	if k == x.k {
		return x.v
	}
	return x.Context.Value(k)
}

type ctxKey struct{}

type cancelCtx struct {
	parent   Context
	mu       sync.Mutex
	done     chan struct{}
	err      error
	cause    error
	children []*cancelCtx
	after    []*afterFn
	deadline time.Time
	timer    *simrt.Timer
}

type afterFn struct {
	f    func()
	gone bool
}

func (x *cancelCtx) Deadline() (time.Time, bool) {
	if !x.deadline.IsZero() {
		return x.deadline, true
	}
	return x.parent.Deadline()
}
func (x *cancelCtx) Done() <-chan struct{} { return x.done }
func (x *cancelCtx) Err() error {
	simrt.Yield("ctx.err")
	x.mu.Lock()
	e := x.err
	x.mu.Unlock()
	return e
}
func (x *cancelCtx) Value(k interface{}) interface{} {
	if _, ok := k.(ctxKey); ok {
		return x
	}
	return x.parent.Value(k)
}

func (x *cancelCtx) cancel(err, cause error) {
	x.mu.Lock()
	if x.err != nil {
		x.mu.Unlock()
		return
	}
	x.err = err
	if cause == nil {
		cause = err
	}
	x.cause = cause
	simrt.Close(x.done)
	ch := x.children
	af := x.after
	x.children, x.after = nil, nil
	if x.timer != nil {
		x.timer.Stop()
	}
	x.mu.Unlock()
	for _, k := range ch {
		k.cancel(err, cause)
	}
	for _, a := range af {
		if !a.gone {
			a.gone = true
			simrt.SpawnApp(a.f)
		}
	}
}

func newCtx(parent Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	x := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(ctxKey{}).(*cancelCtx); ok && p.done == parent.Done() {
		p.mu.Lock()
		if p.err != nil {
			e, cs := p.err, p.cause
			p.mu.Unlock()
			x.cancel(e, cs)
		} else {
			p.children = append(p.children, x)
			p.mu.Unlock()
		}
	} else if d := parent.Done(); d != nil {
		simrt.SpawnApp(func() {
			if simrt.Select(false, simrt.NewRecv(d), simrt.NewRecv((<-chan struct{})(x.done))) == 0 {
				x.cancel(parent.Err(), parent.Err())
			}
		})
	}
	return x
}

func WithCancel(parent Context) (Context, CancelFunc) {
	x := newCtx(parent)
	return x, func() { x.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	x := newCtx(parent)
	return x, func(cause error) { x.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	x := newCtx(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return x, func() { x.cancel(Canceled, nil) }
	}
	x.deadline = d
	x.timer = simrt.AddTimer(simrt.FromWall(d), func() {
		simrt.SpawnApp(func() { x.cancel(DeadlineExceeded, cause) })
	})
	return x, func() { x.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simrt.WallNow().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, simrt.WallNow().Add(d), cause)
}

func WithoutCancel(parent Context) Context { return c.WithoutCancel(parent) }

func Cause(x Context) error {
	if p, ok := x.Value(ctxKey{}).(*cancelCtx); ok {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.cause
	}
	return x.Err()
}

// AfterFunc is context.AfterFunc.
func AfterFunc(x Context, f func()) func() bool {
	p, ok := x.Value(ctxKey{}).(*cancelCtx)
	if !ok {
		return func() bool { return true }
	}
	a := &afterFn{f: f}
	p.mu.Lock()
	if p.err != nil {
		a.gone = true
		p.mu.Unlock()
		simrt.SpawnApp(f)
	} else {
		p.after = append(p.after, a)
		p.mu.Unlock()
	}
	return func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		if a.gone {
			return false
		}
		a.gone = true
		return true
	}
}

var _ = errors.New
