// Package vsync stands for package sync under the scheduler of package vs.
package vsync

import (
	"fmt"
	"sort"
	"sync"

	"ecksbee.com/telefacts/verifvs"
)

type Locker = sync.Locker

type Mutex struct{ s vs.Sem }

func (m *Mutex) Lock()         { m.s.Lock() }
func (m *Mutex) TryLock() bool { return m.s.TryLock() }
func (m *Mutex) Unlock()       { m.s.Unlock() }

type RWMutex struct{ s vs.Sem }

func (m *RWMutex) Lock()          { m.s.Lock() }
func (m *RWMutex) TryLock() bool  { return m.s.TryLock() }
func (m *RWMutex) Unlock()        { m.s.Unlock() }
func (m *RWMutex) RLock()         { m.s.RLock() }
func (m *RWMutex) TryRLock() bool { return m.s.TryRLock() }
func (m *RWMutex) RUnlock()       { m.s.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ s vs.Sem }

func (w *WaitGroup) Add(n int) { w.s.Add(n) }
func (w *WaitGroup) Done()     { w.s.Add(-1) }
func (w *WaitGroup) Wait()     { w.s.Zero() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vs.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	lock Mutex
	done vs.Sem
}

func (o *Once) Do(f func()) {
	vs.Yield()
	if o.done.IsSet() {
		return
	}
	o.lock.Lock()
	defer o.lock.Unlock()
	if o.done.IsSet() {
		return
	}
	defer o.done.Set()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Cond struct {
	L       Locker
	waiting []*vs.Sem
	own     sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	s := &vs.Sem{}
	c.own.Lock()
	c.waiting = append(c.waiting, s)
	c.own.Unlock()
	c.L.Unlock()
	s.Flag()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.own.Lock()
	defer c.own.Unlock()
	if len(c.waiting) > 0 {
		c.waiting[0].Set()
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	c.own.Lock()
	defer c.own.Unlock()
	for _, s := range c.waiting {
		s.Set()
	}
	c.waiting = nil
}

type Pool struct {
	New   func() any
	own   sync.Mutex
	items []any
}

func (p *Pool) Get() any {
	p.own.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.own.Unlock()
		return x
	}
	p.own.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.own.Lock()
	defer p.own.Unlock()
	p.items = append(p.items, x)
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { vs.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vs.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vs.Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vs.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vs.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vs.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, a, b any) bool  { vs.Yield(); return m.m.CompareAndSwap(k, a, b) }
func (m *Map) CompareAndDelete(k, a any) bool   { vs.Yield(); return m.m.CompareAndDelete(k, a) }
func (m *Map) Clear()                           { vs.Yield(); m.m.Clear() }
func (m *Map) Range(f func(key, value any) bool) {
	vs.Yield()
	type kv struct{ k, v any }
	var all []kv
	m.m.Range(func(k, v any) bool {
		all = append(all, kv{k, v})
		return true
	})
	sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i].k) < fmt.Sprint(all[j].k) })
	for _, x := range all {
		if !f(x.k, x.v) {
			return
		}
	}
}
