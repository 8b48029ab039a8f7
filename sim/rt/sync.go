package vsimrt

import (
	"iter"
	"unsafe"
)

// Sem is a counting semaphore of the simulated scheduler, the analogue of the
// runtime semaphores under sync.Mutex and sync.RWMutex.
type Sem struct{ n int32 }

//go:norace
func (s *Sem) Acquire() {
	for s.n == 0 {
		block(unsafe.Pointer(s))
	}
	s.n--
}

//go:norace
func (s *Sem) Release() {
	s.n++
	wakeAll(unsafe.Pointer(s))
}

// Block parks the running task on p, WakeAll wakes all parked on p.
//
//go:norace
func Block(p unsafe.Pointer) { block(p) }

//go:norace
func WakeAll(p unsafe.Pointer) { wakeAll(p) }

// Chan is a simulated channel.
type Chan[T any] struct {
	buf    []T
	cap    int
	head   int
	n      int
	recvq  int // receivers waiting
	closed bool
	sent   int64 // values handed over so far, for the unbuffered rendezvous
}

// selectors is where select statements wait.
var selectors int

// MakeChan makes a simulated channel.
//
//go:norace
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		c.cap = n[0]
	}
	k := c.cap
	if k == 0 {
		k = 1
	}
	c.buf = make([]T, k)
	return c
}

//go:norace
func (c *Chan[T]) limit() int {
	if c.cap == 0 {
		return 1
	}
	return c.cap
}

//go:norace
func (c *Chan[T]) wake() {
	wakeAll(unsafe.Pointer(c))
	wakeAll(unsafe.Pointer(&selectors))
}

//go:norace
func never() {
	var x int
	block(unsafe.Pointer(&x))
}

//go:norace
func (c *Chan[T]) put(v T) {
	RaceReleaseMerge(unsafe.Pointer(c))
	c.buf[(c.head+c.n)%len(c.buf)] = v
	c.n++
	c.sent++
	c.wake()
}

//go:norace
func (c *Chan[T]) take() (v T, ok bool) {
	RaceAcquire(unsafe.Pointer(c))
	if c.n == 0 {
		return v, false
	}
	v = c.buf[c.head]
	var zero T
	c.buf[c.head] = zero
	c.head = (c.head + 1) % len(c.buf)
	c.n--
	RaceReleaseMerge(unsafe.Pointer(&c.n))
	c.wake()
	return v, true
}

// Send sends v.
//
//go:norace
func (c *Chan[T]) Send(v T) {
	YS()
	if c == nil {
		never()
	}
	for !c.closed && c.n == c.limit() {
		block(unsafe.Pointer(c))
	}
	if c.closed {
		panic("send on closed channel")
	}
	c.put(v)
	my := c.sent
	if c.cap == 0 {
		// unbuffered: wait until this value has been received
		for c.sent-int64(c.n) < my && !c.closed {
			block(unsafe.Pointer(c))
		}
		RaceAcquire(unsafe.Pointer(&c.n))
	}
}

// Recv2 receives a value; ok is false when the channel is closed and drained.
//
//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	YS()
	if c == nil {
		never()
	}
	if !c.closed && c.n == 0 {
		c.recvq++
		wakeAll(unsafe.Pointer(&selectors))
		for !c.closed && c.n == 0 {
			block(unsafe.Pointer(c))
		}
		c.recvq--
	}
	return c.take()
}

// Recv receives a value.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// All ranges over the channel.
func (c *Chan[T]) All() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok {
				return
			}
			if !yield(v) {
				return
			}
		}
	}
}

// CloseChan closes a simulated channel.
//
//go:norace
func CloseChan[T any](c *Chan[T]) {
	YS()
	if c.closed {
		panic("close of closed channel")
	}
	RaceReleaseMerge(unsafe.Pointer(c))
	c.closed = true
	c.wake()
}

//go:norace
func ChanLen[T any](c *Chan[T]) int {
	if c == nil || c.cap == 0 {
		return 0
	}
	return c.n
}

//go:norace
func ChanCap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// SelCase is one case of a select statement.
type SelCase interface {
	ready() bool
	handed() bool // a sender has already committed to this case
	fire()
	wait(d int)
}

// RecvSel is a receiving case.
type RecvSel[T any] struct {
	c  *Chan[T]
	V  T
	OK bool
}

// SendSel is a sending case.
type SendSel[T any] struct {
	c *Chan[T]
	v T
}

func RecvCase[T any](c *Chan[T]) *RecvSel[T]      { return &RecvSel[T]{c: c} }
func SendCase[T any](c *Chan[T], v T) *SendSel[T] { return &SendSel[T]{c: c, v: v} }

//go:norace
func (s *RecvSel[T]) ready() bool { return s.c != nil && (s.c.closed || s.c.n > 0) }

//go:norace
func (s *RecvSel[T]) handed() bool { return s.c != nil && s.c.cap == 0 && s.c.n > 0 }

//go:norace
func (s *RecvSel[T]) fire() { s.V, s.OK = s.c.take() }

//go:norace
func (s *RecvSel[T]) wait(d int) {
	if s.c != nil {
		s.c.recvq += d
	}
}

//go:norace
func (s *SendSel[T]) ready() bool {
	c := s.c
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if c.cap == 0 {
		return c.n == 0 && c.recvq > 0
	}
	return c.n < c.cap
}

//go:norace
func (s *SendSel[T]) handed() bool { return false }

//go:norace
func (s *SendSel[T]) fire() {
	if s.c.closed {
		panic("send on closed channel")
	}
	s.c.put(s.v)
}

//go:norace
func (s *SendSel[T]) wait(d int) {}

// Select is a select statement: it returns the number of the case taken, or -1
// for the default.
//
//go:norace
func Select(def bool, cs ...SelCase) int {
	YS()
	if len(cs) == 0 && !def {
		never()
	}
	waiting := false
	for {
		k := choose(cs)
		if k >= 0 || def {
			if waiting {
				for i := range cs {
					cs[i].wait(-1)
				}
			}
			if k >= 0 {
				cs[k].fire()
			}
			return k
		}
		if !waiting {
			waiting = true
			for i := range cs {
				cs[i].wait(1)
			}
			wakeAll(unsafe.Pointer(&selectors))
		}
		block(unsafe.Pointer(&selectors))
	}
}

//go:norace
func choose(cs []SelCase) int {
	n := 0
	for i := range cs {
		if cs[i].handed() {
			return i
		}
		if cs[i].ready() {
			n++
		}
	}
	if n > 0 {
		k := Choose(n)
		for i := range cs {
			if cs[i].ready() {
				if k == 0 {
					return i
				}
				k--
			}
		}
	}
	return -1
}
