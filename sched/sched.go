// Package zzsched is overlaid into the module under test: instrumented code
// calls Y before each statement and uses the lock types below, so that a
// controlled scheduler can decide the interleaving. Without a hook everything
// behaves as usual.
package zzsched

import (
	"sync"
	"sync/atomic"
)

var hook atomic.Pointer[func(string)]

// SetHook installs the scheduler; nil removes it.
func SetHook(h func(string)) {
	if h == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&h)
}

// Instrumented is set by instrumented files.
var Instrumented = map[string]bool{}

// Mark notes that a file is instrumented.
func Mark(file string) bool {
	Instrumented[file] = true
	return true
}

// Y is a scheduling point.
func Y(label string) {
	if h := hook.Load(); h != nil {
		(*h)(label)
	}
}

// Mutex is a sync.Mutex whose waiters block on channels, which a bubble can
// see.
type Mutex struct {
	mu     sync.Mutex
	locked bool
	wait   []chan struct{}
}

// Lock locks m.
func (m *Mutex) Lock() {
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.wait = append(m.wait, ch)
		m.mu.Unlock()
		<-ch
		Y("!lock")
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	ws := m.wait
	m.wait = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
}

// RWMutex is a sync.RWMutex whose waiters block on channels.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wait    []chan struct{}
}

func (m *RWMutex) acquire(try func() bool) {
	for {
		m.mu.Lock()
		if try() {
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.wait = append(m.wait, ch)
		m.mu.Unlock()
		<-ch
		Y("!lock")
	}
}

func (m *RWMutex) release(f func()) {
	m.mu.Lock()
	f()
	ws := m.wait
	m.wait = nil
	m.mu.Unlock()
	for _, w := range ws {
		close(w)
	}
}

func (m *RWMutex) tryW() bool {
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) tryR() bool {
	if m.writer {
		return false
	}
	m.readers++
	return true
}

// Lock locks m for writing.
func (m *RWMutex) Lock() { m.acquire(m.tryW) }

// RLock locks m for reading.
func (m *RWMutex) RLock() { m.acquire(m.tryR) }

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryW()
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.tryR()
}

// Unlock ends writing.
func (m *RWMutex) Unlock() {
	m.release(
		func() {
			if !m.writer {
				m.mu.Unlock()
				panic("sync: Unlock of unlocked RWMutex")
			}
			m.writer = false
		},
	)
}

// RUnlock ends reading.
func (m *RWMutex) RUnlock() {
	m.release(
		func() {
			if m.readers <= 0 {
				m.mu.Unlock()
				panic("sync: RUnlock of unlocked RWMutex")
			}
			m.readers--
		},
	)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker gives a locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Once is a sync.Once on Mutex.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f the first time.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc on Once.
func OnceFunc(f func()) func() {
	g := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { g() }
}

// OnceValue is sync.OnceValue on Once.
func OnceValue[T any](f func() T) func() T {
	g := OnceValues(func() (T, struct{}) { return f(), struct{}{} })
	return func() T {
		v, _ := g()
		return v
	}
}

// OnceValues is sync.OnceValues on Once.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var once Once
	var a T1
	var b T2
	var p any
	ok := false
	return func() (T1, T2) {
		once.Do(
			func() {
				defer func() {
					if !ok {
						p = recover()
					}
				}()
				a, b = f()
				ok = true
			},
		)
		if !ok {
			panic(p)
		}
		return a, b
	}
}
