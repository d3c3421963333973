// Package explore enumerates the interleavings of a set of threads under package vsched's scheduler, depth-first over
// all schedules within a bound on preemptions or delays.
package explore

import (
	"fmt"
	"os"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
)

// Scenario is a set of threads; the judge looks at the outcome once all have ended.
type Scenario struct {
	Name  string
	Bound int  // preemptions
	Delay bool // delays (deviations from the default order) instead of preemptions
	Setup func(s *vsched.S) (judge func(s *vsched.S) (sig, detail string))
	Obs   func() string // what was observed, for counting distinct outcomes
}

// Run runs every schedule of the scenario within the bound. Branches off the first execution are dealt out
// over the shards.
func Run(c *lib.Ctx, sc Scenario) {
	type item struct{ prefix []int }
	stack := []item{{nil}}
	first := true
	was := c.R.Counters["schedules"]
	run := func(prefix []int, trace bool) (*lib.Chooser, []int, []func(int) int, *vsched.S, string, string) {
		ch := lib.NewChooser(prefix)
		var ns []int
		var costs []func(int) int
		var judge func(s *vsched.S) (string, string)
		s := vsched.Run(func(n int, cost func(int) int) int {
			ns = append(ns, n)
			costs = append(costs, cost)
			return ch.ChooseCost(n, cost)
		}, trace, func(s *vsched.S) { s.Delays = sc.Delay; judge = sc.Setup(s) })
		sig, detail := "", ""
		switch {
		case s.Panics != nil:
			sig, detail = "panic", strings.Join(s.Panics, "\n")
		case s.Deadlock != "":
			sig, detail = "deadlock", s.Deadlock
		}
		s.End()
		if sig == "" {
			sig, detail = judge(s)
		}
		return ch, ns, costs, s, sig, detail
	}
	for len(stack) > 0 && !c.Stop() {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		kase := sc.Name + " schedule " + lib.IntsString(it.prefix)
		c.Case(kase)
		ch, ns, costs, s, sig, detail := run(it.prefix, false)
		if !first || c.Shard == 0 {
			c.Add("schedules", 1)
			c.Add("steps", int64(s.Steps))
			if sc.Obs != nil {
				c.Distinct("distinct outcomes", sc.Name+sc.Obs())
			}
			if sig != "" {
				_, _, _, s2, sig2, detail2 := run(ch.Trace, true)
				if sig2 == "" {
					c.Note("not reproduced: " + sig + " in " + kase + ": " + detail)
				} else {
					c.Violation(sc.Name+": "+sig2, kase, detail2+"\nschedule: "+strings.Join(s2.Trace, " "))
				}
			} else if c.R.Counters["schedules"]%5003 == 11 {
				_, _, _, s2, _, _ := run(ch.Trace, true)
				c.Sample(map[string]any{"scenario": sc.Name, "switches": strings.Join(s2.Trace, " ")})
			}
		}
		if len(ns) < len(it.prefix) { // not the execution that was branched off from
			c.Add("schedules that could not be replayed", 1)
			c.R.Exhaustive = false
			continue
		}
		dev := 0
		for i := range it.prefix {
			dev += costs[i](ch.Trace[i])
		}
		for i := len(it.prefix); i < len(ns); i++ {
			for v := ns[i] - 1; v >= 1; v-- {
				if dev+costs[i](v) > sc.Bound {
					continue
				}
				if first && !c.Mine() {
					continue
				}
				p := make([]int, i+1)
				copy(p, ch.Trace[:i])
				p[i] = v
				stack = append(stack, item{p})
			}
			dev += costs[i](ch.Trace[i])
		}
		first = false
	}
	c.Add("scenarios", 1)
	if os.Getenv("MICRO_STAT") != "" {
		fmt.Fprintln(os.Stderr, sc.Bound, c.R.Counters["schedules"]-was, sc.Name)
	}
	what := "preemptions "
	if sc.Delay {
		what = "delays "
	}
	c.Bound(what+strings.SplitN(sc.Name, ":", 2)[0], fmt.Sprint(sc.Bound))
}
