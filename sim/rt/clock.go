package vsimrt

import (
	"time"
	"unsafe"
)

// Simulated time: every scheduling point takes a microsecond, and when nobody
// can run the clock jumps to the first timer.

const stepTime = int64(time.Microsecond)

var clock, epoch int64

// SetClock starts the simulated clock of a run.
//
//go:norace
func SetClock(seed uint64) {
	clock = 0
	epoch = time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC).UnixNano() + int64(seed%(365*24*3600*1000))*int64(time.Millisecond)
}

// Elapsed is the simulated time since SetClock.
//
//go:norace
func Elapsed() time.Duration { return time.Duration(clock) }

// Now is the simulated time.
//
//go:norace
func Now() time.Time { return time.Unix(0, epoch+clock) }

// timers wakes the tasks whose time has come; if nothing else can run, the
// clock jumps. It reports whether anything is left to do.
//
//go:norace
func (s *Sim) timers() bool {
	live, run := false, false
	first := int64(-1)
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.state == stDone {
			continue
		}
		if !t.daemon {
			live = true
		}
		if t.state == stRunnable {
			run = true
		} else if t.deadline > 0 && (first < 0 || t.deadline < first) {
			first = t.deadline
		}
	}
	if !live {
		return false // only timers are left: the process ends
	}
	if !run && first > clock {
		clock = first
	}
	for i := 0; i < s.ntasks; i++ {
		t := s.tasks[i]
		if t.state == stBlocked && t.deadline > 0 && t.deadline <= clock {
			t.state = stRunnable
			t.deadline = 0
			s.nsleep--
		}
	}
	return true
}

// Sleep is time.Sleep.
//
//go:norace
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		if d > 0 {
			clock += int64(d)
		}
		return
	}
	if d <= 0 {
		Y(-1)
		return
	}
	t.state = stBlocked
	t.waitOn = unsafe.Pointer(t)
	t.deadline = clock + int64(d)
	sim.nsleep++
	sim.reschedule(t)
}

// GoTimer starts a timer's task.
//
//go:norace
func GoTimer(fn func()) {
	if sim == nil || cur == nil {
		return // outside a run nothing is left waiting
	}
	t := sim.add("timer", true, fn)
	t.daemon = true
	go t.main()
}

// NotDaemon makes the running timer task an ordinary goroutine.
//
//go:norace
func NotDaemon() {
	if cur != nil {
		cur.daemon = false
	}
}
