package micro

import (
	"fmt"
	"os"
	"syscall"

	"time"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsignal"
)

// abortClient is a client of a server that is told to abort at some time.
type abortClient struct {
	parallel_support.Client
	flag bool
}

func (a *abortClient) ShouldAbort() bool {
	vsched.P("ask")
	b := a.flag
	vsched.P("answer")
	return b
}

type intPlan struct {
	signals   []int // how many signals each signalling thread raises
	client    bool
	abort     bool
	observers []int // how many times each observer asks for the status
	watch     bool  // somebody waits for the first change, takes the new status and so on, as an observer should
	stop      bool
}

func (p intPlan) String() string {
	return fmt.Sprintf("signals=%v client=%v abort=%v observers=%v watch=%v stop=%v", p.signals, p.client, p.abort, p.observers, p.watch, p.stop)
}

type sighting struct {
	st         interrupt_handler.InterruptStatus
	start, end int
	who        string
}

func interrupts(p intPlan, bound int) scenario {
	var obs string
	return scenario{name: "interrupts: " + p.String(), bound: bound, delay: true, obs: func() string { return obs }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		vsignal.Forget()
		obs = ""
		var cl *abortClient
		var h *interrupt_handler.InterruptHandler
		clock, abortAt, accepted := 0, 1<<30, 0
		stopped, firstRefused := false, false
		var seen []*sighting
		look := func(who string) interrupt_handler.InterruptStatus {
			clock++
			x := &sighting{start: clock, who: who}
			x.st = h.Status()
			clock++
			x.end = clock
			seen = append(seen, x)
			return x.st
		}
		missed := ""
		alive := ""
		late := 0
		over := make(chan bool)
		s.Spawn("main", func() {
			if p.client {
				cl = &abortClient{}
				h = interrupt_handler.NewInterruptHandler(cl)
			} else {
				h = interrupt_handler.NewInterruptHandler(nil)
			}
			if !vsignal.Registered(os.Interrupt) || !vsignal.Registered(syscall.SIGTERM) {
				missed = "the signals are not taken once the handler exists"
			}
			for i, n := range p.signals {
				s.Spawn(fmt.Sprintf("sig%d", i), func() {
					for j := 0; j < n; j++ {
						sg := os.Signal(os.Interrupt)
						if (i+j)%2 == 1 {
							sg = syscall.SIGTERM
						}
						k := vsignal.Raise(sg)
						accepted += k
						if k == 0 && j == 0 && i == 0 && len(p.signals) == 1 && !p.stop {
							firstRefused = true
						}
						vsched.P("raised")
					}
				})
			}
			if p.abort {
				s.Spawn("aborter", func() {
					cl.flag = true
					clock++
					abortAt = clock
				})
			}
			for i, n := range p.observers {
				s.Spawn(fmt.Sprintf("obs%d", i), func() {
					for j := 0; j < n; j++ {
						look(fmt.Sprintf("obs%d", i))
					}
				})
			}
			if p.watch { // an observer that follows the changes
				vsched.Go("watch", func() {
					st := look("watch")
					for {
						select {
						case <-st.Channel:
						case <-over:
							return
						}
						vsched.P("woken")
						was := st.Level
						st = look("watch")
						if st.Level <= was {
							missed = fmt.Sprintf("the channel of level %d is closed but the status is still %d", was, st.Level)
						}
					}
				})
			}
			if p.stop {
				s.Spawn("stop", func() {
					h.Stop()
					stopped = true
				})
			}
			time.Sleep(5 * time.Second) // when all else has come to rest
			if p.stop && p.abort {      // (nobody asks after Stop: see DESIGN.md)
				alive = s.Alive("watch")
				return
			}
			look("final")
			if stopped {
				late = vsignal.Raise(os.Interrupt)
				time.Sleep(5 * time.Second)
				look("final")
				alive = s.Alive("watch")
			} else {
				h.Stop()
				time.Sleep(5 * time.Second)
				late = vsignal.Raise(os.Interrupt)
				look("final")
				alive = s.Alive("watch")
			}
			close(over)
		})
		return func(*vsched.S) (string, string) {
			if p.stop && p.abort {
				if alive != "" {
					return "a goroutine is left after Stop", alive
				}
				return "", ""
			}
			final := seen[len(seen)-1].st
			for _, x := range seen {
				obs += fmt.Sprintf(" %s:%d/%d", x.who, x.st.Level, x.st.Cause)
			}
			if missed != "" {
				return "an observer is misled", missed + obs
			}
			if late != 0 {
				return "signals are still taken after Stop", obs
			}
			if alive != "" {
				return "a goroutine is left after Stop", alive
			}
			if firstRefused {
				return "a signal is lost though nothing was pending", obs
			}
			n := accepted
			abortFirst := false
			chans := map[interrupt_handler.InterruptLevel]chan any{}
			for _, x := range seen {
				l := x.st.Level
				closed := false
				select {
				case <-x.st.Channel:
					closed = true
				default:
				}
				if closed != (l < final.Level) {
					return "the channel that goes with a status", fmt.Sprintf("level %d, closed %v, level at the end %d:%s", l, closed, final.Level, obs)
				}
				if ch, ok := chans[l]; ok && ch != x.st.Channel {
					return "a level has two channels", obs
				}
				chans[l] = x.st.Channel
				for _, y := range seen {
					if y.end < x.start && y.st.Level > l {
						return "the level goes down", obs
					}
				}
				switch {
				case l == 0 && x.st.Cause != interrupt_handler.InterruptCauseInvalid, l > 1 && x.st.Cause != interrupt_handler.InterruptCauseSignal,
					l == 1 && x.st.Cause != interrupt_handler.InterruptCauseSignal && x.st.Cause != interrupt_handler.InterruptCauseAbortByOtherProcess:
					return "wrong cause", fmt.Sprintf("level %d, cause %d:%s", l, x.st.Cause, obs)
				case l == 1 && x.st.Cause == interrupt_handler.InterruptCauseAbortByOtherProcess:
					abortFirst = true
				}
				if p.client && x.start > abortAt && l == 0 {
					return "the abort is not seen by a later status", obs
				}
			}
			if abortFirst && !p.abort {
				return "wrong cause", "nobody aborted:" + obs
			}
			lo, hi := n, n
			if p.abort {
				hi = n + 1
				if n == 0 {
					lo = 1
				}
				if abortFirst {
					lo = n + 1
				}
				for _, x := range seen {
					if x.st.Level == 1 && !abortFirst {
						hi = n
					}
				}
				if abortAt == 1<<30 {
					panic("no abort")
				}
			}
			if p.stop {
				lo = 0
			}
			if f := int(final.Level); f < min(lo, 3) || f > min(hi, 3) {
				return "levels lost or invented", fmt.Sprintf("level %d after %d signals (abort %v): want %d to %d:%s", f, n, p.abort, lo, hi, obs)
			}
			return "", ""
		}
	}}
}

func init() {
	checks["C20"] = func(c *lib.Ctx) {
		b := c.Pick(3, 4)
		seen := map[string]bool{}
		for _, sig := range [][]int{{}, {1}, {2}, {3}, {4}, {1, 1}, {2, 2}} {
			for _, cl := range []bool{false, true} {
				for _, ab := range []bool{false, true} {
					if ab && !cl {
						continue
					}
					for _, ob := range [][]int{{}, {1}, {2}, {1, 1}, {2, 1}} {
						if cl && len(ob) > 1 { // one goroutine asks: see DESIGN.md
							continue
						}
						for _, w := range []bool{false, true} {
							if w && cl && len(ob) > 0 {
								continue
							}
							for _, st := range []bool{false, true} {
								if st && cl && (len(ob) > 0 || w) {
									continue
								}
								p := intPlan{sig, cl, ab, ob, w, st}
								if seen[p.String()] {
									continue
								}
								seen[p.String()] = true
								if len(sig) == 0 && !cl {
									continue
								}
								bound := b
								if len(sig)+len(ob) > 2 || cl && len(sig) > 0 || w {
									bound--
								}
								explore(c, interrupts(p, bound))
							}
						}
					}
				}
			}
		}
	}
}
