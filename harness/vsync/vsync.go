// Package vsync stands in for sync in maho when histories of concurrent calls are recorded (see vlib.py):
// goroutines are now and then held up around its operations, so that schedules which are rare otherwise
// become common.
package vsync

import (
	"math/rand"
	"runtime"
	"sync"
	"time"
)

type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

// Pause holds up the goroutine with a probability of 1 in n.
func Pause(n int) {
	if rand.Intn(n) > 0 {
		return
	}
	if rand.Intn(3) == 0 {
		runtime.Gosched()
		return
	}
	time.Sleep(time.Duration(1+rand.Intn(200)) * time.Microsecond)
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	Pause(4)
	m.mu.Lock()
	Pause(6)
}

func (m *Mutex) TryLock() bool {
	Pause(4)
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	Pause(6)
	m.mu.Unlock()
	Pause(2)
}

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock() {
	Pause(6)
	m.mu.Lock()
	Pause(30)
}

func (m *RWMutex) TryLock() bool {
	Pause(6)
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	Pause(30)
	m.mu.Unlock()
	Pause(6)
}

func (m *RWMutex) RLock() {
	Pause(30)
	m.mu.RLock()
	Pause(60)
}

func (m *RWMutex) TryRLock() bool {
	Pause(30)
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	Pause(60)
	m.mu.RUnlock()
	Pause(30)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Map struct{ sync.Map }

func (m *Map) Load(k any) (any, bool) {
	Pause(30)
	defer Pause(30)
	return m.Map.Load(k)
}

func (m *Map) Store(k, v any) {
	Pause(8)
	defer Pause(8)
	m.Map.Store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Pause(8)
	defer Pause(8)
	return m.Map.LoadOrStore(k, v)
}
