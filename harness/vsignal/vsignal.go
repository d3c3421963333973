// Package vsignal stands in for package os/signal in instrumented code.
package vsignal

import (
	"context"
	"os"
	"os/signal"
	"sync"
)

var (
	mu  sync.Mutex
	reg map[chan<- os.Signal][]os.Signal
)

// Forget forgets all registrations.
func Forget() {
	mu.Lock()
	defer mu.Unlock()
	reg = map[chan<- os.Signal][]os.Signal{}
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	if reg == nil {
		reg = map[chan<- os.Signal][]os.Signal{}
	}
	reg[c] = append(reg[c], sig...)
}

func Stop(c chan<- os.Signal) {
	mu.Lock()
	defer mu.Unlock()
	delete(reg, c)
}

// Raise delivers a signal as the runtime does: to every registered channel that has room.
// It reports to how many it went.
func Raise(s os.Signal) (n int) {
	mu.Lock()
	defer mu.Unlock()
	for c, sigs := range reg {
		for _, x := range sigs {
			if x == s {
				select {
				case c <- s:
					n++
				default:
				}
				break
			}
		}
	}
	return n
}

// Registered says whether anybody takes the signal.
func Registered(s os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	for _, sigs := range reg {
		for _, x := range sigs {
			if x == s {
				return true
			}
		}
	}
	return false
}

func Ignore(sig ...os.Signal)    { signal.Ignore(sig...) }
func Ignored(sig os.Signal) bool { return signal.Ignored(sig) }
func Reset(sig ...os.Signal)     { signal.Reset(sig...) }
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	return signal.NotifyContext(parent, sig...)
}
