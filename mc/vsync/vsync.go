//go:build go1.21

// Package vsync is package sync with scheduling points: every lock, wait and map operation of a scheduled thread
// asks the explorer who goes on, and waiting is visible to it. The real primitives do the work.
package vsync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/verifmc/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Pool is sync.Pool; it always hands out the value put last.
type Pool struct {
	New func() interface{}
	m   sync.Mutex
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	vsched.Point("Pool.Get")
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vsched.Point("Pool.Put")
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
}

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !vsched.On() {
		m.m.Lock()
		return
	}
	vsched.Point("Lock")
	for !m.m.TryLock() {
		vsched.Block(unsafe.Pointer(m), "Lock")
	}
}

func (m *Mutex) TryLock() bool { vsched.Point("TryLock"); return m.m.TryLock() }

func (m *Mutex) Unlock() { m.m.Unlock(); vsched.Wake(unsafe.Pointer(m)) }

// RWMutex is sync.RWMutex; as there, a waiting writer keeps new readers out.
type RWMutex struct {
	m       sync.RWMutex
	waiting int
}

//go:norace
func (m *RWMutex) wait(d int) int { m.waiting += d; return m.waiting }

func (m *RWMutex) Lock() {
	if !vsched.On() {
		m.m.Lock()
		return
	}
	vsched.Point("Lock")
	if m.m.TryLock() {
		return
	}
	m.wait(1)
	for {
		vsched.Block(unsafe.Pointer(m), "Lock")
		if m.m.TryLock() {
			m.wait(-1)
			return
		}
	}
}

func (m *RWMutex) TryLock() bool { vsched.Point("TryLock"); return m.m.TryLock() }

func (m *RWMutex) Unlock() { m.m.Unlock(); vsched.Wake(unsafe.Pointer(m)) }

func (m *RWMutex) RLock() {
	if !vsched.On() {
		m.m.RLock()
		return
	}
	vsched.Point("RLock")
	for m.wait(0) > 0 || !m.m.TryRLock() {
		vsched.Block(unsafe.Pointer(m), "RLock")
	}
}

func (m *RWMutex) TryRLock() bool { vsched.Point("TryRLock"); return m.m.TryRLock() }

func (m *RWMutex) RUnlock() { m.m.RUnlock(); vsched.Wake(unsafe.Pointer(m)) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is as in sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

//go:norace
func (w *WaitGroup) count(d int) int { w.n += d; return w.n }

func (w *WaitGroup) Add(d int) {
	w.count(d)
	w.wg.Add(d)
	vsched.Wake(unsafe.Pointer(w))
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vsched.On() {
		vsched.Point("Wait")
		for w.count(0) > 0 {
			vsched.Block(unsafe.Pointer(w), "Wait")
		}
	}
	w.wg.Wait()
}

// Once is sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	vsched.Point("Once")
	if atomic.LoadUint32(&o.done) != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond is sync.Cond.
type Cond struct {
	L            Locker
	seq, granted int
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) ticket() int { c.seq++; return c.seq }

//go:norace
func (c *Cond) served(t int) bool { return c.granted >= t }

//go:norace
func (c *Cond) grant(all bool) {
	if all {
		c.granted = c.seq
	} else if c.granted < c.seq {
		c.granted++
	}
}

func (c *Cond) Wait() {
	t := c.ticket()
	c.L.Unlock()
	for !c.served(t) {
		vsched.Block(unsafe.Pointer(c), "Cond.Wait")
	}
	c.L.Lock()
}

func (c *Cond) Signal() { vsched.Point("Signal"); c.grant(false); vsched.Wake(unsafe.Pointer(c)) }

func (c *Cond) Broadcast() { vsched.Point("Broadcast"); c.grant(true); vsched.Wake(unsafe.Pointer(c)) }

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { vsched.Point("Map.Load"); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { vsched.Point("Map.Store"); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { vsched.Point("Map.Delete"); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	vsched.Point("Map.LoadOrStore")
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	vsched.Point("Map.LoadAndDelete")
	return m.m.LoadAndDelete(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	vsched.Point("Map.Swap")
	return m.m.Swap(k, v)
}
func (m *Map) CompareAndSwap(k, o, v interface{}) bool {
	vsched.Point("Map.CompareAndSwap")
	return m.m.CompareAndSwap(k, o, v)
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	vsched.Point("Map.CompareAndDelete")
	return m.m.CompareAndDelete(k, o)
}
func (m *Map) Range(f func(k, v interface{}) bool) { vsched.Point("Map.Range"); m.m.Range(f) }
func (m *Map) Clear() {
	vsched.Point("Map.Clear")
	m.m.Range(func(k, _ interface{}) bool { m.m.Delete(k); return true })
}
