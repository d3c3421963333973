// Package vsync stands in for package sync in instrumented code: waiting is under package vsched's control.
package vsync

import (
	"sync"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
)

type (
	Map    = sync.Map
	Pool   = sync.Pool
	Locker = sync.Locker
)

// wait returns once try succeeds.
func wait(site string, try func() bool, ready func() bool) {
	t := vsched.Self()
	if t != nil {
		vsched.P(site)
	}
	for i := 0; !try(); i++ {
		if t != nil {
			t.Block(site, ready)
		} else {
			time.Sleep(time.Microsecond)
		}
	}
}

type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
}

func (m *RWMutex) get(f func() bool) func() bool {
	return func() bool {
		m.mu.Lock()
		defer m.mu.Unlock()
		return f()
	}
}

func (m *RWMutex) Lock() {
	wait("Lock", m.get(func() bool {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	}), m.get(func() bool { return !m.writer && m.readers == 0 }))
}

func (m *RWMutex) TryLock() bool {
	vsched.P("TryLock")
	return m.get(func() bool {
		if m.writer || m.readers > 0 {
			return false
		}
		m.writer = true
		return true
	})()
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: unlock of unlocked mutex")
	}
	m.writer = false
}

func (m *RWMutex) RLock() {
	wait("RLock", m.get(func() bool {
		if m.writer {
			return false
		}
		m.readers++
		return true
	}), m.get(func() bool { return !m.writer }))
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
}

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

type WaitGroup struct {
	mu sync.Mutex
	n  int
}

func (w *WaitGroup) Add(d int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) zero() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n == 0
}
func (w *WaitGroup) Wait() { wait("Wait", w.zero, w.zero) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[V any](f func() V) func() V {
	var o Once
	var v V
	return func() V {
		o.Do(func() { v = f() })
		return v
	}
}

// Cond: Signal wakes one of those waiting (the first), Broadcast all.
type Cond struct {
	L       Locker
	mu      sync.Mutex
	waiting []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := new(bool)
	c.mu.Lock()
	c.waiting = append(c.waiting, woken)
	c.mu.Unlock()
	c.L.Unlock()
	ready := func() bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		return *woken
	}
	wait("Cond.Wait", ready, ready)
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
}
