// Package sync provides simulated locks.
package sync

import (
	real "sync"

	"github.com/ti-mo/comfo/zsim/rt"
)

type Mutex = rt.Mutex

type RWMutex struct{ rt.RWMutex }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated WaitGroup.
type WaitGroup struct {
	n int
	q rt.WaitQ
}

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		rt.WakeAll(&g.q)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	rt.Gosched()
	for g.n > 0 {
		rt.Block(&g.q, "waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() { defer g.Done(); f() })
}

// Once is a simulated Once.
type Once struct {
	done bool
	m    rt.Mutex
}

func (o *Once) Do(f func()) {
	rt.Gosched()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond is a simulated Cond.
type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	rt.CondWait(&c.q, c.L)
}
func (c *Cond) Signal()    { rt.WakeOne(&c.q) }
func (c *Cond) Broadcast() { rt.WakeAll(&c.q) }

// Pool is a simulated Pool.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v != nil {
		p.l = append(p.l, v)
	}
}

// Map is a simulated Map.
type Map struct {
	m map[any]any
}

func (m *Map) Load(k any) (any, bool) { rt.Gosched(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	rt.Gosched()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	rt.Gosched()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	rt.Gosched()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n any) bool {
	rt.Gosched()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	rt.Gosched()
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { rt.Gosched(); m.m = nil }
func (m *Map) Range(f func(k, v any) bool) {
	rt.MapRange(m.m)(f)
}

var _ real.Locker = &Mutex{}
