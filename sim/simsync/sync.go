//go:build go1.25

// Package simsync replaces package sync in the code under test. Its operations are preemption points
// and block only the simulated task, so that the simulator decides every interleaving and sees every
// deadlock. Map and Pool forget, at the start of a run, what earlier runs stored in them, as a process
// restart would; what was stored before the first run (package initialisation) stays.
package simsync

import "github.com/itstarsun/go-thrift/zzverifsim/simrt"

type Locker interface {
	Lock()
	Unlock()
}

func wait(c *simrt.Cond, why string) {
	s := simrt.Cur()
	if s == nil {
		panic("simsync: deadlock outside the simulation: " + why)
	}
	c.Wait(s, why)
}

func wake(c *simrt.Cond) {
	if s := simrt.Current(); s != nil {
		c.Broadcast(s)
	}
}

type Mutex struct {
	locked bool
	c      simrt.Cond
}

// The calls of Acquire and Release tell the race detector what the primitive orders, if there is one.

func (m *Mutex) Lock() {
	simrt.Yield()
	for m.locked {
		wait(&m.c, "Mutex.Lock")
	}
	m.locked = true
	simrt.Acquire(m)
}

func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(m)
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(m)
	m.locked = false
	wake(&m.c)
	simrt.Yield()
}

type RWMutex struct {
	w       bool
	r       int
	waiting int
	c       simrt.Cond
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	m.waiting++
	for m.w || m.r > 0 {
		wait(&m.c, "RWMutex.Lock")
	}
	m.waiting--
	m.w = true
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.r)
}

func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	simrt.Acquire(&m.w)
	simrt.Acquire(&m.r)
	return true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(&m.w)
	m.w = false
	wake(&m.c)
	simrt.Yield()
}

// RLock waits for pending writers, as package sync does.
func (m *RWMutex) RLock() {
	simrt.Yield()
	for m.w || m.waiting > 0 {
		wait(&m.c, "RWMutex.RLock")
	}
	m.r++
	simrt.Acquire(&m.w)
}

func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.w || m.waiting > 0 {
		return false
	}
	m.r++
	simrt.Acquire(&m.w)
	return true
}

func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(&m.r)
	m.r--
	wake(&m.c)
	simrt.Yield()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

type Cond struct {
	L Locker
	c simrt.Cond
	q int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	q := c.q
	c.L.Unlock()
	for c.q == q {
		wait(&c.c, "Cond.Wait")
	}
	c.L.Lock()
}

// Signal may wake more than one waiter, which callers must tolerate only for Broadcast; waiters recheck
// their condition in a loop by contract.
func (c *Cond) Signal()    { c.q++; wake(&c.c) }
func (c *Cond) Broadcast() { c.q++; wake(&c.c) }

type Once struct {
	done, running bool
	c             simrt.Cond
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.done {
		simrt.Acquire(o)
		return
	}
	for o.running {
		wait(&o.c, "Once.Do")
	}
	if o.done {
		simrt.Acquire(o)
		return
	}
	o.running = true
	defer func() {
		simrt.Release(o)
		o.running = false
		o.done = true
		wake(&o.c)
	}()
	f()
}

func OnceFunc(f func()) func() {
	var once Once
	var ok bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	g := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { g(); return v1, v2 }
}

type WaitGroup struct {
	n int
	c simrt.Cond
}

func (w *WaitGroup) Add(d int) {
	simrt.Yield()
	if d < 0 {
		simrt.Release(w)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wake(&w.c)
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simrt.Yield()
	for w.n > 0 {
		wait(&w.c, "WaitGroup.Wait")
	}
	simrt.Acquire(w)
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	if s := simrt.Cur(); s != nil {
		s.Go("goroutine", func() { defer w.Done(); f() })
		return
	}
	defer w.Done()
	f()
}

type entry struct {
	key, val any
	gen      uint64
	dead     bool
}

func (e *entry) get() any  { simrt.Acquire(e); return e.val }
func (e *entry) set(v any) { e.val = v; simrt.Release(e) }

type Map struct {
	m     map[any]*entry
	order []*entry
	gen   uint64
}

func (m *Map) enter() {
	simrt.Yield()
	if m.gen != simrt.Gen {
		m.gen = simrt.Gen
		keep := m.order[:0]
		for _, e := range m.order {
			if e.gen == 0 && !e.dead {
				keep = append(keep, e)
			} else if !simrt.Racing && m.m[e.key] == e {
				delete(m.m, e.key)
			}
		}
		clear(m.order[len(keep):])
		m.order = keep
	}
	if m.m == nil && !simrt.Racing {
		m.m = map[any]*entry{}
	}
}

func (m *Map) find(k any) *entry {
	if simrt.Racing { // the race detector sees accesses to maps, wherever they come from
		for _, e := range m.order {
			if !e.dead && e.key == k {
				return e
			}
		}
		return nil
	}
	return m.m[k]
}

func (m *Map) put(k, v any) {
	if e := m.find(k); e != nil {
		e.set(v)
		return
	}
	e := &entry{key: k, val: v, gen: m.gen}
	simrt.Release(e)
	if !simrt.Racing {
		m.m[k] = e
	}
	m.order = append(m.order, e)
}

func (m *Map) del(k any) {
	if e := m.find(k); e != nil {
		e.dead = true
		if !simrt.Racing {
			delete(m.m, k)
		}
	}
}

func (m *Map) Load(k any) (any, bool) {
	m.enter()
	if e := m.find(k); e != nil {
		return e.get(), true
	}
	return nil, false
}

func (m *Map) Store(k, v any) { m.enter(); m.put(k, v) }

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.enter()
	if e := m.find(k); e != nil {
		return e.get(), true
	}
	m.put(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.enter()
	if e := m.find(k); e != nil {
		v := e.get()
		m.del(k)
		return v, true
	}
	return nil, false
}

func (m *Map) Delete(k any) { m.enter(); m.del(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.enter()
	e := m.find(k)
	if e == nil {
		m.put(k, v)
		return nil, false
	}
	old := e.get()
	e.set(v)
	return old, true
}

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.enter()
	if e := m.find(k); e != nil && e.get() == old {
		e.set(v)
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.enter()
	if e := m.find(k); e != nil && e.get() == old {
		m.del(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	m.enter()
	for _, e := range append([]*entry(nil), m.order...) {
		if !e.dead && !f(e.key, e.get()) {
			return
		}
	}
}

func (m *Map) Clear() {
	m.enter()
	for _, e := range m.order {
		e.dead = true
	}
	m.order = nil
	if !simrt.Racing {
		clear(m.m)
	}
}

type Pool struct {
	New   func() any
	items []any
	gen   uint64
}

func (p *Pool) Get() any {
	simrt.Yield()
	if p.gen != simrt.Gen {
		p.gen, p.items = simrt.Gen, nil
	}
	if n := len(p.items); n > 0 {
		s := simrt.Current()
		if s == nil || s.Src.Stream("pool").N(4) < 3 {
			simrt.Acquire(p)
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	simrt.Yield()
	if p.gen != simrt.Gen {
		p.gen, p.items = simrt.Gen, nil
	}
	if x != nil {
		simrt.Release(p)
		p.items = append(p.items, x)
	}
}
