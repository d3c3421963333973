// Package vsched is a controlled scheduler for instrumented code (see tools/vrun/micro.go). It runs inside a
// testing/synctest bubble: threads stop at every scheduling point P; once everything else has come to rest the
// controller picks the one that goes on. Channels, timers and selects are the real ones; mutexes are package vsync's.
package vsched

import (
	"context"
	"fmt"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

// T is a thread of the code under exploration.
type T struct {
	ID     int
	Name   string
	Daemon bool // the execution may end before the thread does
	resume chan struct{}
	parked bool
	done   bool
	wait   func() bool // the thread can go on only when this holds
	site   string
	s      *S
}

// S is one execution.
type S struct {
	mu       sync.Mutex
	threads  []*T
	byLabel  map[unsafe.Pointer]*T
	choose   func(n int, cost func(int) int) int
	draining atomic.Bool
	Panics   []string
	Deadlock string
	Steps    int
	Preempts int
	Trace    []string
	tracing  bool
	MaxSteps int
	Quiet    atomic.Bool   // statements are no scheduling points for now (locks are)
	Delays   bool          // every deviation from the default order counts, not only preemptions
	MaxIdle  time.Duration // how long (virtual time) nothing may happen before it counts as a deadlock
	wake     chan struct{} // somebody has come to a scheduling point, or ended
}

var active atomic.Pointer[S]

// Self is the calling thread (nil: not under control).
func Self() *T {
	s := active.Load()
	if s == nil {
		return nil
	}
	l := getLabel()
	if l == nil {
		return nil
	}
	s.mu.Lock()
	t := s.byLabel[l]
	s.mu.Unlock()
	return t
}

func (t *T) park(site string, wait func() bool) {
	t.s.mu.Lock()
	if t.s.draining.Load() {
		t.s.mu.Unlock()
		if wait != nil {
			time.Sleep(time.Microsecond)
		}
		return
	}
	t.parked, t.wait, t.site = true, wait, site
	t.s.mu.Unlock()
	t.s.stir()
	<-t.resume
}

func (s *S) stir() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// P is a scheduling point.
func P(site string) {
	if active.Load() == nil {
		return
	}
	if t := Self(); t != nil && !t.s.Quiet.Load() {
		t.park(site, nil)
	}
}

// Block is a scheduling point that can be left only when ready holds.
func (t *T) Block(site string, ready func() bool) { t.park(site, ready) }

// Go starts a goroutine that is a thread if its parent is one.
func Go(site string, f func()) {
	t := Self()
	if t == nil {
		go f()
		return
	}
	t.s.spawn("go@"+site, true, f)
}

// Spawn starts a thread that the execution waits for.
func (s *S) Spawn(name string, f func()) *T { return s.spawn(name, false, f) }

func (s *S) spawn(name string, daemon bool, f func()) *T {
	s.mu.Lock()
	t := &T{ID: len(s.threads), Name: name, Daemon: daemon, resume: make(chan struct{}), parked: true, s: s, site: "start"}
	s.threads = append(s.threads, t)
	s.mu.Unlock()
	go func() {
		pprof.SetGoroutineLabels(pprof.WithLabels(context.Background(), pprof.Labels("t", name)))
		l := getLabel()
		s.mu.Lock()
		s.byLabel[l] = t
		s.mu.Unlock()
		<-t.resume
		defer func() {
			e := recover()
			s.mu.Lock()
			if e != nil && e != errExit {
				s.Panics = append(s.Panics, fmt.Sprintf("%s: %v\n%s", name, e, debug.Stack()))
			}
			t.done = true
			delete(s.byLabel, l)
			s.mu.Unlock()
			s.stir()
		}()
		f()
	}()
	return t
}

var errExit = fmt.Errorf("vsched: exit")

// Pref picks the case of a select that is tried first, the others follow in order (n: the select is not under control).
func Pref(n int) int {
	t := Self()
	if t == nil || t.s.draining.Load() {
		return n
	}
	return t.s.choose(n, func(i int) int {
		if i == 0 {
			return 0
		}
		return 1
	})
}

// Run explores one execution: setup spawns the threads; choose picks among n options.
func Run(choose func(n int, cost func(int) int) int, tracing bool, setup func(s *S)) *S {
	s := &S{byLabel: map[unsafe.Pointer]*T{}, choose: choose, tracing: tracing, MaxSteps: 4000, wake: make(chan struct{}, 1), MaxIdle: 60 * time.Second}
	active.Store(s)
	setup(s)
	var last *T
	for {
		synctest.Wait()
		select {
		case <-s.wake:
		default:
		}
		s.mu.Lock()
		var en []*T
		busy := false // somebody the execution waits for
		for _, t := range s.threads {
			if !t.done && !t.Daemon {
				busy = true
			}
			if t.parked && (t.wait == nil || t.wait()) {
				en = append(en, t)
			}
		}
		s.mu.Unlock()
		if !busy || s.Panics != nil {
			break
		}
		if len(en) == 0 {
			select { // time passes
			case <-s.wake:
				continue
			case <-time.After(s.MaxIdle):
			}
			s.Deadlock = s.where()
			break
		}
		s.Steps++
		if s.Steps > s.MaxSteps {
			s.Deadlock = "does not end: " + s.where()
			break
		}
		cur := -1
		for i, t := range en {
			if t == last {
				cur = i
			}
		}
		if cur > 0 {
			en[0], en[cur] = en[cur], en[0]
		}
		k := 0
		if len(en) > 1 {
			k = s.choose(len(en), func(i int) int {
				if i == 0 || cur < 0 && !s.Delays {
					return 0
				}
				return 1
			})
			if k > 0 && cur >= 0 {
				s.Preempts++
			}
		}
		t := en[k]
		if s.tracing && t != last {
			s.Trace = append(s.Trace, t.Name+"@"+t.site)
		}
		last = t
		s.mu.Lock()
		t.parked, t.wait = false, nil
		s.mu.Unlock()
		t.resume <- struct{}{}
	}
	return s
}

func (s *S) where() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var b []string
	for _, t := range s.threads {
		if !t.done {
			b = append(b, fmt.Sprintf("%s after %s (parked=%v)", t.Name, t.site, t.parked))
		}
	}
	return strings.Join(b, "; ")
}

// End lets everything that is left run freely and come to rest.
func (s *S) End() {
	s.mu.Lock()
	s.draining.Store(true)
	var ps []*T
	for _, t := range s.threads {
		if t.parked {
			t.parked = false
			ps = append(ps, t)
		}
	}
	s.mu.Unlock()
	if s.Deadlock == "" && s.Panics == nil {
		for _, t := range ps {
			t.resume <- struct{}{}
		}
		synctest.Wait()
	}
	active.CompareAndSwap(s, nil)
}

// Sleep lets time pass: the thread goes on when nobody else can.
func Sleep() { time.Sleep(time.Millisecond) }

// Alive names the threads that have not ended, but for the caller and those whose name contains except.
func (s *S) Alive(except string) string {
	me := Self()
	s.mu.Lock()
	defer s.mu.Unlock()
	var b []string
	for _, t := range s.threads {
		if !t.done && t != me && !strings.Contains(t.Name, except) {
			b = append(b, t.Name)
		}
	}
	return strings.Join(b, "; ")
}
