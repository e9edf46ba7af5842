//go:build go1.22

// Package vsync stands in for package sync in the code under test (the check
// rewrites the import in an overlay). Under the model checker's scheduler every
// acquisition is a scheduling point; otherwise it behaves like package sync.
package vsync

import (
	"sync"
	"unsafe"

	"github.com/chronos-tachyon/morehttp/zz_verif/mc"
)

type (
	Locker = sync.Locker
)

type Mutex struct {
	st   mc.LockState
	edge byte
	mu   sync.Mutex
}

func (m *Mutex) Lock() {
	if mc.AcquireW(&m.st) {
		mc.RaceAcquire(unsafe.Pointer(&m.edge))
		return
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if ok, handled := mc.TryAcquireW(&m.st); handled {
		if ok {
			mc.RaceAcquire(unsafe.Pointer(&m.edge))
		}
		return ok
	}
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	mc.RaceRelease(unsafe.Pointer(&m.edge))
	if mc.ReleaseW(&m.st) {
		return
	}
	m.mu.Unlock()
}

type RWMutex struct {
	st    mc.LockState
	wedge byte
	redge byte
	mu    sync.RWMutex
}

func (m *RWMutex) Lock() {
	if mc.AcquireW(&m.st) {
		mc.RaceAcquire(unsafe.Pointer(&m.wedge))
		mc.RaceAcquire(unsafe.Pointer(&m.redge))
		return
	}
	m.mu.Lock()
}
func (m *RWMutex) TryLock() bool {
	if ok, handled := mc.TryAcquireW(&m.st); handled {
		if ok {
			mc.RaceAcquire(unsafe.Pointer(&m.wedge))
			mc.RaceAcquire(unsafe.Pointer(&m.redge))
		}
		return ok
	}
	return m.mu.TryLock()
}
func (m *RWMutex) Unlock() {
	mc.RaceRelease(unsafe.Pointer(&m.wedge))
	if mc.ReleaseW(&m.st) {
		return
	}
	m.mu.Unlock()
}
func (m *RWMutex) RLock() {
	if mc.AcquireR(&m.st) {
		mc.RaceAcquire(unsafe.Pointer(&m.wedge))
		return
	}
	m.mu.RLock()
}
func (m *RWMutex) TryRLock() bool {
	if ok, handled := mc.TryAcquireR(&m.st); handled {
		if ok {
			mc.RaceAcquire(unsafe.Pointer(&m.wedge))
		}
		return ok
	}
	return m.mu.TryRLock()
}
func (m *RWMutex) RUnlock() {
	mc.RaceReleaseMerge(unsafe.Pointer(&m.redge))
	if mc.ReleaseR(&m.st) {
		return
	}
	m.mu.RUnlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once: built on Mutex so that losers wait visibly.
type Once struct {
	mu   Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup, Cond: condition waits visible to the scheduler.
type WaitGroup struct {
	n    int
	edge byte
	wg   sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if mc.Cur != nil || mc.SeqMode {
		mc.RaceReleaseMerge(unsafe.Pointer(&w.edge))
		w.add(d)
		return
	}
	w.wg.Add(d)
}

//go:norace
func (w *WaitGroup) add(d int) { w.n += d }

//go:norace
func (w *WaitGroup) zero() bool { return w.n <= 0 }

func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if mc.Cur != nil || mc.SeqMode {
		mc.WaitUntil(w.zero)
		mc.RaceAcquire(unsafe.Pointer(&w.edge))
		return
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) { w.wg.Go(f) }

type Cond struct {
	L    sync.Locker
	gen  int
	wake int
	wait int
	real *sync.Cond
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) enter() int { c.wait++; c.gen++; return c.gen }

//go:norace
func (c *Cond) ready() bool { return c.wake > 0 }

//go:norace
func (c *Cond) leave() { c.wake--; c.wait-- }

//go:norace
func (c *Cond) signal(all bool) {
	if all {
		c.wake = c.wait
	} else if c.wake < c.wait {
		c.wake++
	}
}

func (c *Cond) Wait() {
	if mc.Cur != nil || mc.SeqMode {
		c.enter()
		c.L.Unlock()
		mc.WaitUntil(c.ready)
		c.leave()
		c.L.Lock()
		return
	}
	c.real.Wait()
}
func (c *Cond) Signal() {
	if mc.Cur != nil || mc.SeqMode {
		c.signal(false)
		return
	}
	c.real.Signal()
}
func (c *Cond) Broadcast() {
	if mc.Cur != nil || mc.SeqMode {
		c.signal(true)
		return
	}
	c.real.Broadcast()
}

// Pool and Map: the real ones, with a scheduling point before each operation.
type Pool struct {
	New  func() any
	p    sync.Pool
	once sync.Once
}

func (p *Pool) Get() any {
	mc.Yield()
	if v := p.p.Get(); v != nil {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { mc.Yield(); p.p.Put(x) }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)           { mc.Yield(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { mc.Yield(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { mc.Yield(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { mc.Yield(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { mc.Yield(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { mc.Yield(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { mc.Yield(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { mc.Yield(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { mc.Yield(); m.m.Range(f) }
func (m *Map) Clear()                           { mc.Yield(); m.m.Clear() }
