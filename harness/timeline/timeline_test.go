// Package timeline explores suites whose bodies take (virtual) time: interrupts, timeouts, grace
// periods and progress polls. A fixture is run on the real suite inside a synctest bubble and
// compared, event by event with exact times, with the reference semantics.
package timeline

import (
	"encoding/gob"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

const ms = time.Millisecond

var checks = map[string]func(*lib.Ctx){}

func TestProperty(t *testing.T) {
	// the runtime's signal goroutine must not belong to a bubble
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	id := os.Getenv("VERIF_PROPERTY")
	var saved *state
	if f := os.Getenv("TL_RESUME"); f != "" {
		saved = load(f)
		os.Setenv("VERIF_DEADLINE_S", strconv.FormatInt(saved.Deadline-time.Now().Unix(), 10))
	}
	absDeadline = time.Now().Unix()
	if n, err := strconv.Atoi(lib.Env("VERIF_DEADLINE_S", "120")); err == nil {
		absDeadline += int64(n)
	}
	c := lib.New(id)
	if saved != nil {
		c.R = saved.R
		absDeadline = saved.Deadline
	}
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	resume = saved
	synctest.Test(t, func(t *testing.T) {
		f(c)
		c.Write()
		os.Exit(0) // bodies that were left behind are still there
	})
}

// state is an exploration that is under way; see package par on why it is carried on in a fresh process image.
type state struct {
	Index    int
	Stack    []Case
	R        lib.Result
	Deadline int64
	Counts   []int // how many cases each fixture has
}

var resume *state
var absDeadline int64
var dry int64

func load(f string) *state {
	fd, err := os.Open(f)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	var s state
	if err := gob.NewDecoder(fd).Decode(&s); err != nil {
		panic(err)
	}
	return &s
}

func reexec(s *state) {
	f := filepath.Join(lib.Env("VERIF_TMP", os.TempDir()), "resume"+strconv.Itoa(os.Getpid()))
	fd, err := os.Create(f)
	if err != nil {
		return
	}
	s.R.Samples = nil
	if err := gob.NewEncoder(fd).Encode(s); err != nil {
		panic(err)
	}
	fd.Close()
	os.Setenv("TL_RESUME", f)
	panic(syscall.Exec("/proc/self/exe", os.Args, os.Environ()))
}

// Setting changes one attribute of a node (Node -1: of the configuration).
type Setting struct {
	Node  int // index into Fix.All
	Field string
	Val   time.Duration
}

// Case is one execution.
type Case struct {
	Set   []Setting
	Base  map[string]int // invocation -> option of bases
	Less  int            // this many deviations fewer
	React map[string]int // invocation -> option of reactions
	Ints  []time.Duration
	Asks  []time.Duration
	Lim   int // further interrupts to add
}

func (k Case) clone() Case {
	n := Case{Set: append([]Setting{}, k.Set...), Base: map[string]int{}, React: map[string]int{}, Ints: append([]time.Duration{}, k.Ints...), Asks: append([]time.Duration{}, k.Asks...), Lim: k.Lim, Less: k.Less}
	for a, b := range k.Base {
		n.Base[a] = b
	}
	for a, b := range k.React {
		n.React[a] = b
	}
	return n
}

// Fx is a fixture.
type Fx struct {
	Name       string
	Root       func() *fix.N
	Cfg        func(*types.SuiteConfig)
	Act        func(key string) fix.Act // default behaviour of an invocation (nil: 10 ms, then pass)
	Bases      []fix.Act                // further behaviours; T nil: as by default but for Kind and Defers
	Reac       []fix.Timed              // reactions to a cancellation: React and Late
	Fill       func(x *Fx)              // lists the cases to start from
	Start      []Case
	Deviations int // how many bodies may react differently from the first way (0: all of them)
}

func (x *Fx) act(k Case, key string) fix.Act {
	a := fix.Act{T: &fix.Timed{Dur: 10 * ms, Late: 1 * ms}}
	if x.Act != nil {
		a = x.Act(key)
	}
	t := *a.T
	a.T = &t
	if b, ok := k.Base[key]; ok {
		base := x.Bases[b]
		if base.T != nil {
			d := *base.T
			a.T = &d
		}
		a.Kind = base.Kind
		if base.Defers > 0 {
			a.Defers, a.DC = base.Defers, base.DC
		}
	}
	if b, ok := k.React[key]; ok {
		a.T.React, a.T.Late = x.Reac[b].React, x.Reac[b].Late
	}
	return a
}

func (x *Fx) prepare(k Case) (*fix.Fix, types.SuiteConfig) {
	f := fix.Prepare(x.Root())
	cfg := fix.DefaultCfg()
	cfg.GracePeriod = 17 * ms
	if x.Cfg != nil {
		x.Cfg(&cfg)
	}
	for _, s := range k.Set {
		v := s.Val
		if s.Node < 0 {
			switch s.Field {
			case "timeout":
				cfg.Timeout = v
			case "grace":
				cfg.GracePeriod = v
			case "after":
				cfg.PollProgressAfter = v
			case "interval":
				cfg.PollProgressInterval = v
			}
			continue
		}
		n := f.All[s.Node]
		switch s.Field {
		case "NT":
			n.NT = v
		case "ST":
			n.ST = v
		case "GP":
			n.GP = &v
		case "PA":
			n.PA = &v
		case "PI":
			n.PI = &v
		}
	}
	return f, cfg
}

func (x *Fx) ref(k Case) (*fix.Ref, *fix.Fix, types.SuiteConfig) {
	f, cfg := x.prepare(k)
	r := fix.ExpectTimed(f, cfg, nil, k.Ints, k.Asks, func(key string) fix.Act { return x.act(k, key) })
	return r, f, cfg
}

func (x *Fx) describe(k Case) string {
	f, cfg := x.prepare(k)
	var b []string
	for _, key := range lib.SortedKeys(k.Base) {
		b = append(b, key+"="+x.Bases[k.Base[key]].String())
	}
	for _, key := range lib.SortedKeys(k.React) {
		t := x.Reac[k.React[key]]
		b = append(b, key+t.String())
	}
	return fmt.Sprintf("%s %s timeout=%s grace=%s poll=%s/%s interrupts=%v asked=%v %s", x.Name, f.Root, cfg.Timeout, cfg.GracePeriod, cfg.PollProgressAfter, cfg.PollProgressInterval, k.Ints, k.Asks, strings.Join(b, " "))
}

func (x *Fx) run(k Case) *fix.Obs {
	f, cfg := x.prepare(k)
	r := &fix.Runner{Cfg: cfg, Timed: true, Raise: k.Ints, Ask: k.Asks}
	r.Decide = func(inv fix.Inv) fix.Act {
		if len(r.Obs().Events) > 2000 {
			panic("runaway execution")
		}
		return x.act(k, inv.Key())
	}
	o := r.Run(f)
	synctest.Wait() // bodies that were just cancelled take note of it
	return o
}

// canon puts cancellations, which are noted by another goroutine, before whatever else happens at the same instant.
func canon(events []string) []string {
	at := func(e string) string { return e[strings.LastIndex(e, "@")+1:] }
	var out []string
	for i := 0; i < len(events); {
		j := i
		for j < len(events) && at(events[j]) == at(events[i]) {
			j++
		}
		for _, cancel := range []bool{true, false} {
			for _, e := range events[i:j] {
				if strings.HasPrefix(e, "cancel:") == cancel {
					out = append(out, e)
				}
			}
		}
		i = j
	}
	return out
}

func judge(o *fix.Obs, r *fix.Ref) (string, string) {
	if o.Panicked != "" {
		return "panic", o.Panicked
	}
	if d := lib.Diff(canon(o.Events), canon(r.Events)); d != "" {
		return "events", d
	}
	if len(o.Did) != len(r.Did) {
		return "reports", fmt.Sprintf("%d reports, want %d", len(o.Did), len(r.Did))
	}
	for i := range o.Did {
		if o.Did[i].String() != r.Did[i].String() {
			return "spec report", fmt.Sprintf("got  %s\nwant %s", o.Did[i], r.Did[i])
		}
	}
	if o.Success != r.Success || o.End.SuiteSucceeded != r.Success {
		return "suite verdict", fmt.Sprintf("returned %v, reported %v, want %v", o.Success, o.End.SuiteSucceeded, r.Success)
	}
	if len(o.End.SpecReports) != len(o.Did) {
		return "final report", fmt.Sprintf("final report has %d spec reports, %d were emitted", len(o.End.SpecReports), len(o.Did))
	}
	// each spec's report carries the progress reports emitted while it ran
	n, i := 0, 0
	for _, e := range o.Events {
		switch p := e[:strings.Index(e+":", ":")]; p {
		case "poll", "first", "second", "final", "leak", "asked":
			n++
		case "did":
			if g := len(o.DidRaw[i].ProgressReports); g != n {
				return "progress reports", fmt.Sprintf("%d progress reports emitted during %s, %d in its report", n, o.Did[i].Leaf, g)
			}
			n, i = 0, i+1
		}
	}
	want := map[string]bool{}
	if r.Interrupted() {
		want["Interrupted by User"] = true
	}
	if r.TimedOut() {
		want["Suite Timeout Elapsed"] = true
	}
	for _, s := range o.End.SpecialSuiteFailureReasons {
		if !want[s] && (strings.Contains(s, "Interrupted") || strings.Contains(s, "Timeout")) {
			return "reasons", fmt.Sprintf("reason %q without cause", s)
		}
		delete(want, s)
	}
	if len(want) > 0 {
		return "reasons", fmt.Sprintf("missing reasons %v, got %q", lib.SortedKeys(want), o.End.SpecialSuiteFailureReasons)
	}
	return "", ""
}

// each explores the fixtures; seeds are the top-level cases, dealt out over the shards.
func each(c *lib.Ctx, fxs []*Fx) {
	i := -1
	var counts []int
	if resume != nil {
		counts = resume.Counts
	}
	for n, x := range fxs {
		if resume != nil && n < len(counts) && i+counts[n] < resume.Index {
			i += counts[n] // done
			c.SkipMine(counts[n])
			continue
		}
		x.Fill(x)
		if n >= len(counts) {
			counts = append(counts, len(x.Start))
		}
		for _, seed := range x.Start {
			i++
			if c.Stop() {
				return
			}
			if !c.Mine() || (resume != nil && i < resume.Index) {
				continue
			}
			stack := []Case{seed.clone()}
			if resume != nil && resume.Index == i {
				stack = resume.Stack
				resume = nil
			}
			explore(c, i, x, stack, counts)
			if os.Getenv("TL_DRY") != "" {
				c.Add(fmt.Sprintf("fx %v lim%d set%d base%d", x.Name, seed.Lim, len(seed.Set), len(seed.Base)), c.R.Counters["model states"]-dry)
				dry = c.R.Counters["model states"]
			}
		}
		x.Start = nil
	}
}

// deferrable says whether an invocation may register cleanups.
func deferrable(key string) bool {
	return !strings.HasPrefix(key, "ra") && !strings.HasPrefix(key, "rb") && !strings.Contains(key, "/d")
}

func explore(c *lib.Ctx, index int, x *Fx, stack []Case, counts []int) {
	for len(stack) > 0 && !c.Stop() {
		k := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c.Add("model states", 1)
		r, _, _ := x.ref(k)
		tm := r.Clock()
		if tm.Tie {
			c.Add("undetermined (two things at one instant; not run)", 1)
			if os.Getenv("TL_TIES") != "" {
				fmt.Println("TIE", x.describe(k), r.Events)
			}
			continue
		}
		// how does the next body that is cancelled react?
		branched := false
		for _, key := range r.Cancelled() {
			if _, ok := k.React[key]; !ok {
				most, others := len(x.Reac)-1, 0
				for _, o := range k.React {
					if o > 0 {
						others++
					}
				}
				if d := x.Deviations - len(k.Base) - k.Less; x.Deviations > 0 && others >= d {
					most = 0
				}
				for o := most; o >= 0; o-- {
					n := k.clone()
					n.React[key] = o
					stack = append(stack, n)
				}
				branched = true
				break
			}
		}
		if branched {
			continue
		}
		if !tm.Stuck {
			kase := x.describe(k)
			if c.Only(kase) && os.Getenv("TL_DRY") == "" {
				c.Case(kase)
				o := x.run(k)
				c.Add("executions", 1)
				c.Add("steps", int64(len(o.Events)))
				c.Add("bodies left behind", int64(tm.Left))
				c.Distinct("distinct_traces", strings.Join(o.Events, "|"))
				if w, d := judge(o, r); w != "" {
					o2 := x.run(k)
					if w2, d2 := judge(o2, r); w2 != "" {
						c.Violation(x.Name+": "+w2, kase, d2)
					} else {
						c.Note("not reproduced: " + w + " " + d + " in " + kase)
					}
				} else if c.R.Counters["executions"]%2003 == 7 {
					c.Sample(map[string]any{"case": kase, "trace": strings.Join(o.Events, " "), "suite_succeeded": o.Success})
				}
			}
		}
		if k.Lim > 0 {
			for _, at := range instants(r, k) {
				n := k.clone()
				n.Lim--
				n.Ints = append(n.Ints, at)
				stack = append(stack, n)
			}
		}
		if runtime.NumGoroutine() > 60 {
			reexec(&state{Index: index, Stack: stack, R: c.R, Deadline: absDeadline, Counts: counts})
		}
	}
}

// instants lists one moment in every interval between two things that happen, after the last interrupt.
func instants(r *fix.Ref, k Case) []time.Duration {
	last := time.Duration(0)
	if n := len(k.Ints); n > 0 {
		last = k.Ints[n-1]
	}
	ts := map[time.Duration]bool{last: true}
	for _, e := range r.Events {
		if i := strings.LastIndex(e, "@"); i >= 0 {
			if d, err := time.ParseDuration(e[i+1:]); err == nil && d > last {
				ts[d] = true
			}
		}
	}
	tm := r.Clock()
	if tm.Stuck {
		ts[tm.Now+10*ms] = true
	}
	var at []time.Duration
	for d := range ts {
		at = append(at, d)
	}
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	var out []time.Duration
	for i := 1; i < len(at); i++ {
		// a third of the way, and a little more so that it does not coincide with anything else
		out = append(out, at[i-1]+(at[i]-at[i-1])/3+time.Duration(len(k.Ints)*7+3)*time.Microsecond+271)
	}
	return out
}
