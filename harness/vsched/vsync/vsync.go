// Package vsync stands in for sync in instrumented code.
package vsync

import (
	"sync"

	"github.com/bytedance/mockey/zzverif/vsched"
)

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

var NewCond = sync.NewCond

// Mutex: held is the scheduler's view, real orders the accesses for the race detector.
type Mutex struct {
	held int32
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		vsched.Block(t, &m.held, 1)
	}
	m.real.Lock()
}

func (m *Mutex) TryLock() bool {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		if vsched.Get(&m.held) != 0 {
			return false
		}
		vsched.Block(t, &m.held, 1)
	}
	return m.real.TryLock()
}

func (m *Mutex) Unlock() {
	m.real.Unlock()
	if vsched.Here() >= 0 {
		vsched.Clear(&m.held)
		vsched.Point()
	}
}

// RWMutex: w is held by a writer, r counts readers.
type RWMutex struct {
	w, r int32
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		for vsched.Get(&m.w) != 0 || vsched.Get(&m.r) != 0 {
			vsched.Block(t, &m.w, 0)
			vsched.Block(t, &m.r, 0)
		}
		vsched.Block(t, &m.w, 1)
	}
	m.real.Lock()
}

func (m *RWMutex) Unlock() {
	m.real.Unlock()
	if vsched.Here() >= 0 {
		vsched.Clear(&m.w)
		vsched.Point()
	}
}

func (m *RWMutex) RLock() {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		vsched.Block(t, &m.w, 0)
		vsched.Add(&m.r, 1)
	}
	m.real.RLock()
}

func (m *RWMutex) RUnlock() {
	m.real.RUnlock()
	if vsched.Here() >= 0 {
		vsched.Add(&m.r, -1)
		vsched.Point()
	}
}

func (m *RWMutex) TryLock() bool {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		if vsched.Get(&m.w) != 0 || vsched.Get(&m.r) != 0 {
			return false
		}
		vsched.Block(t, &m.w, 1)
	}
	return m.real.TryLock()
}

func (m *RWMutex) TryRLock() bool {
	if t := vsched.Here(); t >= 0 {
		vsched.Point()
		if vsched.Get(&m.w) != 0 {
			return false
		}
		vsched.Add(&m.r, 1)
	}
	return m.real.TryRLock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Map adds scheduling points before every operation.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool)           { vsched.Point(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { vsched.Point(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsched.Point(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsched.Point(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsched.Point(); m.real.Delete(k) }
func (m *Map) Range(f func(k, v any) bool)      { vsched.Point(); m.real.Range(f) }
func (m *Map) Swap(k, v any) (any, bool)        { vsched.Point(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsched.Point(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsched.Point(); return m.real.CompareAndDelete(k, o) }
