// Package vsim is the part of the simulator that instrumented code calls into.
package vsim

import (
	"sync/atomic"
	"time"
	"unsafe"
)

var (
	// Left is the number of yields until the scheduler wants control; counted down by Y.
	Left int64
	// Count is the number of yields executed so far.
	Count int64
	// Switch hands control to the scheduler. It is nil while no task is running.
	Switch func()
	// Enabled is false while oracle code calls into the system.
	Enabled bool
	// Held is the number of locks the running task holds.
	Held int
	// Block is called by the cooperative locks while they cannot be taken.
	Block func()

	clock, wall atomic.Int64
)

// Sites is the number of statements, Hot are those that touch state tasks may share. The
// instrumentation fills them in.
var (
	Sites int
	Hot   []int
	// Where is the position of each statement, Hit says which ones were reached.
	Where []string
	Hit   = make([]bool, 1)
	// MainIters is what the instrumentation lowered the iteration count of func main to (0: not found).
	MainIters int
	// T1 and T2 are statements at which AtTarget is asked whether to preempt (0: none).
	T1, T2   int
	AtTarget func() bool
)

// Y is called before statement s.
func Y(s int) {
	Hit[s] = true
	if !Enabled {
		return
	}
	Count++
	Left--
	if Left <= 0 {
		if Switch != nil {
			Switch()
		}
	} else if s != 0 && (s == T1 || s == T2) && AtTarget() {
		Switch()
	}
}

// SetClock sets the simulated clock, Advance moves it.
func SetClock(ns int64) { clock.Store(ns); wall.Store(0) }
func Advance(ns int64)  { clock.Add(ns) }
func Clock() int64      { return clock.Load() }

var epoch = time.Date(2025, 3, 2, 9, 0, 0, 0, time.UTC)

// JumpWall adjusts the wall clock. The monotonic clock, which durations are measured with, goes on.
func JumpWall(ns int64) { wall.Add(ns) }

// Mono is the simulated monotonic clock in nanoseconds.
func Mono() int64 { return clock.Load() + Count*1000 }

// Now is the simulated time, with a reading of both clocks as time.Now gives it.
func Now() time.Time {
	m := Mono()
	return both(epoch.Add(time.Duration(m+wall.Load())), m)
}

// both composes a time of a wall and a monotonic reading (see the representation of time.Time).
func both(w time.Time, mono int64) time.Time {
	const y1885 = 2682288000 // seconds from 1885 to 1970
	sec := w.Unix() + y1885
	if !monoWorks || sec < 0 || sec>>33 != 0 {
		return w
	}
	var t time.Time
	r := (*rep)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(sec)<<30 | uint64(w.Nanosecond())
	r.ext = mono + 1
	return t
}

type rep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

var monoWorks = true

func init() {
	if unsafe.Sizeof(time.Time{}) == unsafe.Sizeof(rep{}) {
		w := epoch.Add(123456789)
		a, b := both(w, 1000), both(w.Add(-time.Hour), 5000)
		if a.Round(0).Equal(w) && b.Round(0).Equal(w.Add(-time.Hour)) && b.Sub(a) == 4000 {
			return
		}
	}
	monoWorks = false
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { clock.Add(int64(d)); Y(0) }
