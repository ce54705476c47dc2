// Package rsync has the sync primitives of the code under test, decided by the simulator.
// Outside a run they are plain spin locks. A lock held by a process that has died counts as
// free: the memory it lived in is gone with the process.
package rsync

import (
	"sync"

	"verifsim/rt"
)

type core struct {
	mu      sync.Mutex
	writer  bool
	owner   *rt.Proc
	ownSim  *rt.Sim
	readers int
	rowners map[*rt.Proc]int
	wwait   int
}

func me() (*rt.Proc, *rt.Sim) {
	if rt.Current() == nil {
		return nil, nil
	}
	if t := rt.Self(); t != nil {
		return t.Proc, t.Sim()
	}
	return nil, nil
}

// sweep drops what dead processes and past runs hold. c.mu is held.
func (c *core) sweep() {
	cur := rt.Current()
	if c.writer && ((c.owner != nil && c.owner.Dead) || (c.ownSim != nil && c.ownSim != cur)) {
		c.writer, c.owner, c.ownSim = false, nil, nil
	}
	for p, n := range c.rowners {
		if p != nil && p.Dead {
			c.readers -= n
			delete(c.rowners, p)
		}
	}
}

func (c *core) freeW() bool { c.sweep(); return !c.writer && c.readers == 0 }

func (c *core) lock(yield bool) {
	if yield {
		if s := rt.Current(); s != nil && s.LockYield {
			rt.Yield("lock")
		}
	}
	p, s := me()
	for {
		c.mu.Lock()
		if c.freeW() {
			c.writer, c.owner, c.ownSim = true, p, s
			c.mu.Unlock()
			return
		}
		c.wwait++
		c.mu.Unlock()
		rt.Block("wait-lock", func() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.freeW() })
		c.mu.Lock()
		c.wwait--
		c.mu.Unlock()
	}
}

func (c *core) tryLock() bool {
	p, s := me()
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.freeW() {
		return false
	}
	c.writer, c.owner, c.ownSim = true, p, s
	return true
}

func (c *core) unlock() {
	c.mu.Lock()
	if !c.writer {
		c.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	c.writer, c.owner, c.ownSim = false, nil, nil
	c.mu.Unlock()
}

func (c *core) addR(p *rt.Proc) {
	c.readers++
	if c.rowners == nil {
		c.rowners = map[*rt.Proc]int{}
	}
	c.rowners[p]++
}

func (c *core) rlock(yield bool) {
	if yield {
		if s := rt.Current(); s != nil && s.LockYield {
			rt.Yield("rlock")
		}
	}
	p, _ := me()
	first := true
	for {
		c.mu.Lock()
		c.sweep()
		if !c.writer && (c.wwait == 0 || !first) {
			c.addR(p)
			c.mu.Unlock()
			return
		}
		c.mu.Unlock()
		// A waiting writer keeps new readers out, as in the real lock; once it has
		// come and gone, waiting readers go first.
		saw := false
		rt.Block("wait-rlock", func() bool {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.sweep()
			if c.writer {
				saw = true
				return false
			}
			return saw || c.wwait == 0
		})
		first = false
	}
}

func (c *core) runlock() {
	p, _ := me()
	c.mu.Lock()
	if c.readers <= 0 {
		c.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	c.readers--
	if c.rowners[p] > 1 {
		c.rowners[p]--
	} else {
		delete(c.rowners, p)
	}
	c.mu.Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct{ c core }

func (m *Mutex) Lock()         { m.c.lock(true) }
func (m *Mutex) Unlock()       { m.c.unlock() }
func (m *Mutex) TryLock() bool { return m.c.tryLock() }

// RWMutex replaces sync.RWMutex.
type RWMutex struct{ c core }

func (m *RWMutex) Lock()         { m.c.lock(true) }
func (m *RWMutex) Unlock()       { m.c.unlock() }
func (m *RWMutex) RLock()        { m.c.rlock(true) }
func (m *RWMutex) RUnlock()      { m.c.runlock() }
func (m *RWMutex) TryLock() bool { return m.c.tryLock() }
func (m *RWMutex) TryRLock() bool {
	p, _ := me()
	m.c.mu.Lock()
	defer m.c.mu.Unlock()
	m.c.sweep()
	if m.c.writer || m.c.wwait > 0 {
		return false
	}
	m.c.addR(p)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// QMutex and QRWMutex are the same without scheduling points when uncontended.
type QMutex struct{ c core }

func (m *QMutex) Lock()         { m.c.lock(false) }
func (m *QMutex) Unlock()       { m.c.unlock() }
func (m *QMutex) TryLock() bool { return m.c.tryLock() }

// QRWMutex see QMutex.
type QRWMutex struct{ c core }

func (m *QRWMutex) Lock()                { m.c.lock(false) }
func (m *QRWMutex) Unlock()              { m.c.unlock() }
func (m *QRWMutex) RLock()               { m.c.rlock(false) }
func (m *QRWMutex) RUnlock()             { m.c.runlock() }
func (m *QRWMutex) RLocker() sync.Locker { return (*qrlocker)(m) }

type qrlocker QRWMutex

func (r *qrlocker) Lock()   { (*QRWMutex)(r).RLock() }
func (r *qrlocker) Unlock() { (*QRWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    QMutex
	done bool
}

// Do calls f once; concurrent callers wait for it.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	w.n += d
	bad := w.n < 0
	w.mu.Unlock()
	if bad {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	free := func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.n == 0 }
	if free() {
		return
	}
	rt.Block("wait-group", free)
}

// Go starts f and counts it.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.GoFunc(func() { defer w.Done(); f() })
}

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	mu   sync.Mutex
	gen  int
	next int // waiters with ticket below next are woken
}

// NewCond replaces sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	c.mu.Lock()
	t := c.gen
	c.gen++
	c.mu.Unlock()
	c.L.Unlock()
	rt.Block("wait-cond", func() bool { c.mu.Lock(); defer c.mu.Unlock(); return t < c.next })
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	if c.next < c.gen {
		c.next++
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	c.next = c.gen
	c.mu.Unlock()
}
