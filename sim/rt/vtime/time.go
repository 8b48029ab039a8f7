// Package time stands for the standard package of the same name: the clock and
// everything that waits for it are simulated.
package time

import (
	rt "github.com/leonelquinteros/gotext/vsimrt"
)

func Now() Time                       { return rt.Now() }
func Since(t Time) Duration           { return rt.Now().Sub(t) }
func Until(t Time) Duration           { return t.Sub(rt.Now()) }
func Sleep(d Duration)                { rt.Sleep(d) }
func After(d Duration) *rt.Chan[Time] { return NewTimer(d).C }

// Timer stands for time.Timer.
type Timer struct {
	C   *rt.Chan[Time]
	f   func()
	gen int
	on  bool
}

//go:norace
func (t *Timer) start(d Duration) {
	t.gen++
	t.on = true
	g := t.gen
	rt.GoTimer(func() { t.run(g, d) })
}

//go:norace
func (t *Timer) run(g int, d Duration) {
	rt.Sleep(d)
	if !t.on || t.gen != g {
		return
	}
	t.on = false
	if t.f != nil {
		rt.NotDaemon()
		t.f()
		return
	}
	send(t.C)
}

func send(c *rt.Chan[Time]) {
	rt.Select(true, rt.SendCase(c, rt.Now()))
}

//go:norace
func (t *Timer) Stop() bool {
	was := t.on
	t.on = false
	t.drain()
	return was
}

// Since Go 1.23 a stopped timer leaves no old value in its channel.
func (t *Timer) drain() {
	if t.C != nil {
		rt.Select(true, rt.RecvCase(t.C))
	}
}

//go:norace
func (t *Timer) Reset(d Duration) bool {
	was := t.on
	t.drain()
	t.start(d)
	return was
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: rt.MakeChan[Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

// Ticker stands for time.Ticker.
type Ticker struct {
	C   *rt.Chan[Time]
	gen int
}

//go:norace
func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t.gen++
	g := t.gen
	rt.GoTimer(func() { t.run(g, d) })
}

//go:norace
func (t *Ticker) run(g int, d Duration) {
	for {
		rt.Sleep(d)
		if t.gen != g {
			return
		}
		send(t.C)
	}
}

//go:norace
func (t *Ticker) Stop() { t.gen++ }

//go:norace
func (t *Ticker) Reset(d Duration) { t.start(d) }

func NewTicker(d Duration) *Ticker {
	t := &Ticker{C: rt.MakeChan[Time](1)}
	t.start(d)
	return t
}

func Tick(d Duration) *rt.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
