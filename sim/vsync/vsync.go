// Package vsync replaces package sync in the simulated system. Only one task runs at a time,
// so a lock is a flag; a task that cannot take it gives control back to the scheduler.
package vsync

import (
	"sync"

	"github.com/takakv/msc-poc/zzverif/vsim"
)

type (
	Map    = sync.Map
	Locker = sync.Locker
)

func wait(ok func() bool) {
	for !ok() {
		if vsim.Block == nil || !vsim.Enabled {
			panic("vsync: lock is held outside the simulation")
		}
		vsim.Block()
	}
}

type Mutex struct{ l bool }

func (m *Mutex) Lock() { vsim.Y(0); wait(func() bool { return !m.l }); m.l = true; vsim.Held++ }
func (m *Mutex) TryLock() bool {
	if m.l {
		return false
	}
	m.l = true
	vsim.Held++
	return true
}
func (m *Mutex) Unlock() {
	if !m.l {
		panic("vsync: unlock of unlocked mutex")
	}
	m.l = false
	vsim.Held--
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	vsim.Y(0)
	wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
	vsim.Held++
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("vsync: unlock of unlocked RWMutex")
	}
	m.w = false
	vsim.Held--
}
func (m *RWMutex) RLock() { vsim.Y(0); wait(func() bool { return !m.w }); m.r++; vsim.Held++ }
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("vsync: runlock of unlocked RWMutex")
	}
	m.r--
	vsim.Held--
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	vsim.Held++
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	vsim.Held++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is deterministic: last in, first out.
type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Put(x any) { p.l = append(p.l, x) }
func (p *Pool) Get() any {
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int)   { w.n += d }
func (w *WaitGroup) Done()       { w.n-- }
func (w *WaitGroup) Wait()       { wait(func() bool { return w.n <= 0 }) }
func (w *WaitGroup) Go(f func()) { w.n++; defer w.Done(); f() }
