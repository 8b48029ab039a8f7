// Package sync is the simulator's stand-in for the standard package of the
// same name: same API, same blocking rules (including the RWMutex preference
// for waiting writers, which turns recursive read locking into a deadlock),
// same happens-before edges, but every wait is decided by the simulator.
package sync

import (
	"sync"
	"unsafe"

	rt "github.com/leonelquinteros/gotext/vsimrt"
)

type Locker = sync.Locker
type Map = sync.Map

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	held bool
	_    int32
}

//go:norace
func (m *Mutex) Lock() {
	rt.YS()
	if rt.Aborting() {
		return
	}
	for m.held {
		rt.Block(unsafe.Pointer(m))
	}
	m.held = true
	rt.RaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	rt.YS()
	if m.held {
		return false
	}
	m.held = true
	rt.RaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if rt.Aborting() {
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(unsafe.Pointer(m))
	m.held = false
	rt.WakeAll(unsafe.Pointer(m))
	rt.YS()
}

const rwmax = 1 << 30

// RWMutex follows the algorithm of sync.RWMutex.
type RWMutex struct {
	whold      bool
	writerSem  rt.Sem
	readerSem  rt.Sem
	readers    int32
	readerWait int32
}

//go:norace
func (m *RWMutex) RLock() {
	rt.YS()
	if rt.Aborting() {
		return
	}
	m.readers++
	if m.readers < 0 {
		m.readerSem.Acquire()
	}
	rt.RaceAcquire(unsafe.Pointer(&m.readerSem))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	rt.YS()
	if m.readers < 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(unsafe.Pointer(&m.readerSem))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if rt.Aborting() {
		return
	}
	rt.RaceReleaseMerge(unsafe.Pointer(&m.writerSem))
	m.readers--
	if m.readers < 0 {
		if m.readers+1 == 0 || m.readers+1 == -rwmax {
			m.readers++
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readerWait--
		if m.readerWait == 0 {
			m.writerSem.Release()
		}
	}
	rt.YS()
}

//go:norace
func (m *RWMutex) Lock() {
	rt.YS()
	if rt.Aborting() {
		return
	}
	for m.whold {
		rt.Block(unsafe.Pointer(m))
	}
	m.whold = true
	r := m.readers
	m.readers -= rwmax
	if r != 0 {
		m.readerWait += r
		if m.readerWait != 0 {
			m.writerSem.Acquire()
		}
	}
	rt.RaceAcquire(unsafe.Pointer(&m.readerSem))
	rt.RaceAcquire(unsafe.Pointer(&m.writerSem))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	rt.YS()
	if m.whold || m.readers != 0 {
		return false
	}
	m.whold = true
	m.readers = -rwmax
	rt.RaceAcquire(unsafe.Pointer(&m.readerSem))
	rt.RaceAcquire(unsafe.Pointer(&m.writerSem))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if rt.Aborting() {
		return
	}
	rt.RaceRelease(unsafe.Pointer(&m.readerSem))
	m.readers += rwmax
	if m.readers >= rwmax {
		m.readers -= rwmax
		panic("sync: Unlock of unlocked RWMutex")
	}
	for i := int32(0); i < m.readers; i++ {
		m.readerSem.Release()
	}
	m.whold = false
	rt.WakeAll(unsafe.Pointer(m))
	rt.YS()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	if o.done {
		rt.RaceAcquire(unsafe.Pointer(o))
	}
	return o.done
}

//go:norace
func (o *Once) setDone() {
	rt.RaceRelease(unsafe.Pointer(o))
	o.done = true
}

func (o *Once) Do(f func()) {
	rt.YS()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	valid := false
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n int
	_ int32
}

//go:norace
func (w *WaitGroup) Add(d int) {
	rt.YS()
	if d < 0 {
		rt.RaceReleaseMerge(unsafe.Pointer(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		rt.WakeAll(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	rt.YS()
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w))
	}
	rt.RaceAcquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L     Locker
	sem   rt.Sem
	waits int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) enter() { c.waits++ }

//go:norace
func (c *Cond) Signal() {
	rt.YS()
	if c.waits > 0 {
		c.waits--
		c.sem.Release()
	}
}

//go:norace
func (c *Cond) Broadcast() {
	rt.YS()
	for c.waits > 0 {
		c.waits--
		c.sem.Release()
	}
}

func (c *Cond) Wait() {
	c.enter()
	c.L.Unlock()
	c.sem.Acquire()
	c.L.Lock()
}

// Pool is a simulated sync.Pool: a last-in-first-out list that really reuses
// what was put back (and, by the simulator's choice, sometimes forgets it).
type Pool struct {
	New   func() any
	items [16]any
	n     int
	next  *Pool // of those that hold something
	known bool
}

var pools *Pool

// DropPools empties every Pool, as the garbage collector does.
//
//go:norace
func DropPools() {
	for pools != nil {
		p := pools
		pools, p.next, p.known = p.next, nil, false
		p.items, p.n = [16]any{}, 0
	}
}

//go:norace
func (p *Pool) take() any {
	if p.n == 0 || rt.Choose(8) == 1 {
		return nil
	}
	p.n--
	x := p.items[p.n]
	p.items[p.n] = nil
	rt.RaceAcquire(unsafe.Pointer(p))
	return x
}

func (p *Pool) Get() any {
	rt.YS()
	if x := p.take(); x != nil {
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	rt.YS()
	if x == nil || p.n == len(p.items) {
		return
	}
	rt.RaceReleaseMerge(unsafe.Pointer(p))
	p.items[p.n] = x
	p.n++
	if !p.known {
		p.next, p.known, pools = pools, true, p
	}
}
