// Package vsync stands in for package sync in the instrumented library, so
// that a goroutine under control which would wait for a lock hands over to
// the scheduler instead.
package vsync

import (
	"sync"
	"sync/atomic"

	"verifharness/sched"
)

type Locker = sync.Locker
type WaitGroup = sync.WaitGroup
type Map = sync.Map
type Pool = sync.Pool
type Cond = sync.Cond

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		return
	}
	sched.Y(sched.LockSite)
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	sched.Y(sched.LockSite)
	return m.m.TryLock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	sched.Y(sched.UnlockSite)
}

// RWMutex is a sync.RWMutex.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		return
	}
	sched.Y(sched.LockSite)
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}

func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.m.RLock()
		return
	}
	sched.Y(sched.LockSite)
	for !m.m.TryRLock() {
		if !sched.Block() {
			m.m.RLock()
			return
		}
	}
}

func (m *RWMutex) TryLock() bool {
	sched.Y(sched.LockSite)
	return m.m.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	sched.Y(sched.LockSite)
	return m.m.TryRLock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	sched.Y(sched.UnlockSite)
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	sched.Y(sched.UnlockSite)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is (*sync.RWMutex).RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Y(sched.LockSite)
	if atomic.LoadUint32(&o.done) == 1 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer atomic.StoreUint32(&o.done, 1)
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
