package fix

import (
	"fmt"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/types"
)

// Clock extends the reference semantics by time: how long bodies take, timeouts, grace periods,
// interrupts and progress polls. All times are relative to the start of the suite.
type Clock struct {
	Now        time.Duration
	Interrupts []time.Duration // ascending
	Asks       []time.Duration // requests for a progress report, ascending
	Tie        bool            // two things happened at the same time: the outcome is not determined
	Stuck      bool            // the suite would wait for ever
	Left       int             // bodies that were left behind
	Spans      []Span          // when bodies ran

	suite, spec time.Duration // deadlines, 0 if none
	leaf        string
	decide      func(string) Act
	cancelled   []string
	asked       time.Duration
	stop        time.Duration // when the running body was cancelled
	taken       int           // interrupts that a body has seen
}

type Span struct {
	Key      string
	From, To time.Duration
}

// ExpectTimed is Expect for suites whose bodies take time.
// decide says what an invocation does.
func ExpectTimed(f *Fix, cfg types.SuiteConfig, order []*N, interrupts, asks []time.Duration, decide func(key string) Act) *Ref {
	c := &Clock{Interrupts: interrupts, Asks: asks, suite: cfg.Timeout, decide: decide}
	return expect(f, cfg, map[string]Act{}, order, nil, c)
}

// Cancelled lists the invocations whose context was cancelled.
func (r *Ref) Cancelled() []string { return r.tm.cancelled }

// Interrupted and TimedOut say whether the suite was interrupted or ran out of time.
func (r *Ref) Interrupted() bool { return r.wasInt }
func (r *Ref) TimedOut() bool    { return r.wasLate }

func (r *Ref) Clock() *Clock { return r.tm }

func (c *Clock) stamp() string {
	if c == nil {
		return ""
	}
	return "@" + c.Now.String()
}

func (c *Clock) late() bool {
	if c == nil || c.suite == 0 {
		return false
	}
	if c.Now == c.suite {
		c.Tie = true
	}
	return c.Now > c.suite
}

func (c *Clock) beginAttempt(st time.Duration) {
	if c != nil && st > 0 {
		c.spec = c.Now + st
	}
}

func (c *Clock) endAttempt() {
	if c != nil {
		c.spec = 0
	}
}

// till is how far the running body got in what it does on its own account.
func (c *Clock) till() time.Duration {
	if c.stop > 0 {
		return c.stop
	}
	return c.Now
}

// level is the number of interrupts received so far.
func (r *Ref) level() int {
	if r.tm == nil {
		if r.interrupted {
			return 1
		}
		return 0
	}
	n := 0
	for _, t := range r.tm.Interrupts {
		if t == r.tm.Now && n >= r.tm.taken {
			r.tm.Tie = true
		}
		if t <= r.tm.Now && n < 3 {
			n++
		}
	}
	return n
}

func (r *Ref) where(leaf string) {
	if r.tm != nil {
		if strings.HasPrefix(leaf, "[") {
			leaf = ""
		}
		r.tm.leaf = leaf
	}
}

// passTime runs one body.
func (r *Ref) passTime(k string, n *N, kind Kind) rres {
	c := r.tm
	if n == nil {
		n = &N{}
	}
	t := r.dec[k].T
	if t == nil {
		t = &Timed{Dur: time.Nanosecond}
		panic("no duration for " + k)
	}
	start := c.Now
	c.stop = 0
	defer func() { c.Spans = append(c.Spans, Span{k, start, c.Now}) }()
	interrupted := r.level() > 0

	grace := r.cfg.GracePeriod
	if n.GP != nil {
		grace = *n.GP
	}
	const never = time.Duration(1 << 60)
	deadline, label := never, "suite"
	if c.suite > 0 {
		deadline = c.suite
	}
	if c.spec > 0 && c.spec < deadline {
		deadline, label = c.spec, "spec"
	}
	if n.NT > 0 && start+n.NT < deadline {
		deadline, label = start+n.NT, "node"
	}
	if deadline == start {
		c.Tie = true
	}
	if deadline < start || interrupted {
		// out of time already: its own timeout, or else a grace period, is what it gets
		if n.NT > 0 {
			deadline, label = start+n.NT, "node"
		} else {
			deadline, label = start+grace, "grace period"
		}
	}
	if !n.Ctx {
		grace = 0
	}
	after, interval := r.cfg.PollProgressAfter, r.cfg.PollProgressInterval
	if n.PA != nil {
		after = *n.PA
	}
	if n.PI != nil {
		interval = *n.PI
	}
	poll := never
	if after > 0 {
		poll = start + after
	}
	end, endKind := never, r.dec[k].Kind
	if t.Dur > 0 {
		end = start + t.Dur
	}
	graceEnd := never
	next := 0 // next interrupt
	for next < len(c.Interrupts) && c.Interrupts[next] <= start {
		next++
	}
	var out rres // once cancelled
	cancelled := false
	cancel := func(cause string) {
		if end <= c.Now { // came to its end while its failure was being reported
			c.Tie = true
		}
		if n.Ctx && !cancelled {
			c.cancelled = append(c.cancelled, k)
			r.Events = append(r.Events, fmt.Sprintf("cancel:%s(%s)%s", k, cause, c.stamp()))
			if t.React == Hang {
				end = never
			} else {
				end, endKind = c.Now+t.Late, t.React
			}
		}
		if n.Ctx && !cancelled {
			c.stop = c.Now
		}
		cancelled = true
	}
	leave := func() rres {
		c.Left++
		return out
	}
	for i := 0; ; i++ {
		if i > 10000 {
			panic(fmt.Sprintf("model runs away: now %v start %v end %v deadline %v grace %v poll %v next %v of %v asks %v", c.Now, start, end, deadline, graceEnd, poll, next, c.Interrupts, c.Asks))
		}
		for _, x := range []*time.Duration{&end, &deadline, &graceEnd, &poll} {
			if *x < c.Now { // came due while a failure was being reported: the order is open
				c.Tie = true
				*x = c.Now
			}
		}
		at := never
		hits := 0
		for _, x := range []time.Duration{end, deadline, graceEnd, poll} {
			if x < at {
				at, hits = x, 1
			} else if x == at && x != never {
				hits++
			}
		}
		if next < len(c.Interrupts) {
			c.Tie = c.Tie || c.Interrupts[next] < c.Now
			if x := c.Interrupts[next]; x < at {
				at, hits = x, 1
			} else if x == at {
				hits++
			}
		}
		ask := false
		for _, x := range c.Asks {
			if x == c.Now {
				c.Tie = c.Tie || x != c.asked
			} else if x > c.Now {
				if x < at {
					at, hits, ask = x, 1, true
				} else if x == at {
					hits++
				}
				break
			}
		}
		if at == never {
			c.Stuck = true
			return out
		}
		if hits > 1 {
			c.Tie = true
		}
		c.Now = at
		if ask {
			c.asked = at
			r.Events = append(r.Events, r.progress("asked", k, n, kind, t, start))
			continue
		}
		switch {
		case at == end:
			res := r.outcome(k, endKind)
			if res.state != types.SpecStatePassed {
				c.Now += EmitTime
			}
			if out.state == types.SpecStateInvalid {
				return res
			}
			if res.state != types.SpecStatePassed {
				why := "An interrupt occurred and then the following failure was recorded in the interrupted node before it exited:\n"
				if out.state == types.SpecStateTimedout {
					why = "A " + label + " timeout occurred and then the following failure was recorded in the timedout node before it exited:\n"
				}
				out.msg += " {" + res.state.String() + ":" + why + res.msg + "}"
			}
			return out
		case at == deadline:
			out = rres{types.SpecStateTimedout, "A " + label + " timeout occurred"}
			deadline = never
			c.Now += EmitTime
			cancel(label + " timeout occurred")
			graceEnd = c.Now + grace
		case at == graceEnd:
			if n.Ctx && out.state == types.SpecStateTimedout {
				r.Events = append(r.Events, r.progress("leak", k, n, kind, t, start))
			}
			return leave()
		case at == poll:
			r.Events = append(r.Events, r.progress("poll", k, n, kind, t, start))
			poll = never
			if interval > 0 {
				poll = c.Now + interval
			}
		default: // an interrupt
			next++
			level := next
			c.taken = next
			if level > 3 {
				continue // nothing changes any more
			}
			deadline = never
			if out.state == types.SpecStateInvalid {
				out = rres{types.SpecStateInterrupted, "Interrupted by User"}
				c.Now += EmitTime
			}
			cancel("Interrupted by User")
			r.Events = append(r.Events, r.progress([]string{"", "first", "second", "final"}[level], k, n, kind, t, start))
			if level == 3 || graceEnd != never {
				return leave()
			}
			graceEnd = c.Now + grace
		}
	}
}

// progress is the note of a progress report on a node that is running.
func (r *Ref) progress(what, k string, n *N, kind Kind, t *Timed, start time.Duration) string {
	c := r.tm
	nt := ntype[kind]
	if kind == KDC {
		nt = r.cleanupType
	}
	text := ""
	if kind == KIt || kind == KRAS {
		text = n.Name
	}
	var path []string
	if s := r.cur; s != nil {
		for _, p := range s.path {
			path = append(path, p.Name)
		}
	}
	path = append(path, c.leaf)
	step := ""
	if t.ByAt > 0 && c.till() >= start+t.ByAt {
		if c.Now == start+t.ByAt {
			c.Tie = true
		}
		step = "step"
	}
	var att []string
	if n.Ctx && !(t.Unplugs > 0 && c.till() >= start+t.Unplugs) {
		for i := 0; i < t.Attach; i++ {
			att = append(att, fmt.Sprintf("%s.r%d", k, i))
		}
	}
	if t.Unplugs > 0 && c.Now == start+t.Unplugs {
		c.Tie = true
	}
	return fmt.Sprintf("%s:%s/%s/%s/%s/%s%s", what, strings.Join(path, ">"), nt, text, step, strings.Join(att, ","), c.stamp())
}
