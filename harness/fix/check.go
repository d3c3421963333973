package fix

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

// Family is a set of fixtures with what the node bodies may do in them.
type Family struct {
	Name   string
	Cfg    func(*types.SuiteConfig)
	Acts   func(Inv) []Act // option 0 must be the default
	MaxDev int
	Mon    []Monitor // further invariants
	Sel    func(f *Fix) map[*N]bool
	Norm   func(*Obs) // normalization before comparing
	Ident  bool       // order is known to be definition order
}

type Monitor func(f *Fix, o *Obs) (sig, detail string)

// Mismatch compares an observation with the reference.
func Mismatch(f *Fix, cfg types.SuiteConfig, o *Obs, sel map[*N]bool) (what, detail string) {
	if o.Panicked != "" {
		return "panic", o.Panicked
	}
	if o.Overlap != "" {
		return "overlap", o.Overlap
	}
	order, err := SpecOrder(f, o)
	if err != "" {
		return "specs", err
	}
	r := ExpectSel(f, cfg, o.Decisions, order, sel)
	if d := lib.Diff(o.Events, r.Events); d != "" {
		return "events", d
	}
	if len(o.Did) != len(r.Did) {
		return "reports", fmt.Sprintf("%d reports, want %d", len(o.Did), len(r.Did))
	}
	for i := range o.Did {
		if o.Did[i].String() != r.Did[i].String() {
			return "spec report", fmt.Sprintf("got  %s\nwant %s", o.Did[i], r.Did[i])
		}
		if o.Did[i].LeafType == types.NodeTypeIt && (o.Did[i].MaxFlake != r.Did[i].MaxFlake || o.Did[i].MaxMPR != r.Did[i].MaxMPR || o.Did[i].Ordered != r.Did[i].Ordered || o.Did[i].Serial != r.Did[i].Serial ||
			strings.Join(o.Did[i].Containers, "/") != strings.Join(r.Did[i].Containers, "/")) {
			return "spec report fields", fmt.Sprintf("got  %+v\nwant %+v", o.Did[i], r.Did[i])
		}
	}
	if o.Success != r.Success || o.End.SuiteSucceeded != r.Success {
		return "suite verdict", fmt.Sprintf("returned %v, reported %v, want %v", o.Success, o.End.SuiteSucceeded, r.Success)
	}
	if o.NumBegin != 1 || o.NumEnd != 1 {
		return "suite begin/end", fmt.Sprintf("%d begins, %d ends", o.NumBegin, o.NumEnd)
	}
	if len(o.End.SpecReports) != len(o.Did) {
		return "final report", fmt.Sprintf("final report has %d spec reports, %d were emitted", len(o.End.SpecReports), len(o.Did))
	}
	for i := range o.Did {
		if g, w := Summarize(o.End.SpecReports[i]).String(), o.Did[i].String(); g != w {
			return "final report", fmt.Sprintf("final report has %s, emitted %s", g, w)
		}
	}
	return "", ""
}

// SpecOrder is the order in which the specs were started; every spec must appear exactly once.
func SpecOrder(f *Fix, o *Obs) ([]*N, string) {
	by := map[string]*N{}
	for _, s := range f.Specs {
		by[s.Name] = s
	}
	var order []*N
	seen := map[string]int{}
	n := 0
	for _, w := range o.Will {
		if w.LeafType != types.NodeTypeIt {
			continue
		}
		n++
		seen[w.Leaf]++
		if seen[w.Leaf] > 1 {
			return nil, "spec " + w.Leaf + " started twice"
		}
		order = append(order, by[w.Leaf])
	}
	if n != 0 && n != len(f.Specs) {
		return nil, fmt.Sprintf("%d of %d specs were reported", n, len(f.Specs))
	}
	if n == 0 {
		return f.Specs, ""
	}
	return order, ""
}

func ExpectSel(f *Fix, cfg types.SuiteConfig, dec map[string]Act, order []*N, sel map[*N]bool) *Ref {
	return expect(f, cfg, dec, order, sel, nil)
}

// DecString writes down the non-default decisions of a run.
func DecString(o *Obs) string {
	var s []string
	for _, k := range lib.SortedKeys(o.Decisions) {
		if a := o.Decisions[k]; a.Kind != Pass || a.Defers > 0 {
			s = append(s, k+"="+a.String())
		}
	}
	return strings.Join(s, " ")
}

// Check explores one fixture of a family: every assignment of actions to body
// invocations with at most MaxDev deviations from "pass".
func Check(c *lib.Ctx, fam *Family, root *N) {
	f := Prepare(root)
	cfg := DefaultCfg()
	if fam.Cfg != nil {
		fam.Cfg(&cfg)
	}
	desc := fam.Name + " " + root.String()
	var sel map[*N]bool
	if fam.Sel != nil {
		sel = fam.Sel(f)
	}
	run := func(prefix []int) (*Obs, *lib.Chooser) {
		ch := lib.NewChooser(prefix)
		r := &Runner{Cfg: cfg}
		r.Decide = func(inv Inv) Act {
			if len(r.o.Events) > 2000 {
				panic("runaway execution")
			}
			as := fam.Acts(inv)
			return as[ch.Choose(len(as))]
		}
		return r.Run(f), ch
	}
	judge := func(o *Obs) (string, string) {
		if fam.Norm != nil {
			fam.Norm(o)
		}
		if w, d := Mismatch(f, cfg, o, sel); w != "" {
			return w, d
		}
		for _, m := range fam.Mon {
			if w, d := m(f, o); w != "" {
				return w, d
			}
		}
		return "", ""
	}
	c.Add("fixtures", 1)
	lib.Explore(fam.MaxDev, func(ch *lib.Chooser) bool {
		r := &Runner{Cfg: cfg}
		r.Decide = func(inv Inv) Act {
			if len(r.o.Events) > 2000 {
				panic("runaway execution")
			}
			as := fam.Acts(inv)
			return as[ch.Choose(len(as))]
		}
		c.Case(desc + " / " + ch.String() + "...")
		o := r.Run(f)
		kase := desc + " / " + ch.String()
		c.Add("executions", 1)
		c.Add("steps", int64(len(o.Events)))
		c.Distinct("distinct_traces", fam.Name+strings.Join(o.Events, "|"))
		w, d := judge(o)
		if w != "" {
			// confirm on a second execution of the same choices
			o2, _ := run(append([]int{}, ch.Trace...))
			if w2, d2 := judge(o2); w2 != "" {
				sig := w2
				if i := strings.Index(w2, "\x00"); i >= 0 {
					sig = w2[:i]
				}
				c.Violation(fam.Name+": "+sig, kase, fmt.Sprintf("tree: %s\nbodies: %s\n%s: %s\n(first run) %s", root, DecString(o2), w2, d2, d))
			} else {
				c.Note("not reproduced: " + w + " in " + kase)
			}
		} else if c.R.Counters["executions"]%5003 == 17 {
			c.Sample(map[string]any{"tree": root.String(), "bodies": DecString(o), "trace": strings.Join(o.Events, " "), "suite_succeeded": o.Success})
		}
		return !c.Stop()
	})
}

/* ---------- monitors: invariants stated without the reference ---------- */

// FailureIsVisible: if any node failed, panicked or aborted (in its final attempt), the suite failed.
func FailureIsVisible(f *Fix, o *Obs) (string, string) {
	if !o.Success {
		return "", ""
	}
	for k, a := range o.Decisions {
		if retried(f, o) {
			return "", "" // an earlier attempt may have failed
		}
		switch a.Kind {
		case Fail, FailTwice, FailThenRet, FailGoroutine, Panic, PanicNil, Abort:
			return "failure swallowed", fmt.Sprintf("%s did %s but the suite succeeded", k, a)
		}
	}
	return "", ""
}

func retried(f *Fix, o *Obs) bool {
	for _, d := range o.Did {
		if d.Attempts > 1 {
			return true
		}
	}
	return false
}

// CleanupsRunOnce: every registered cleanup ran exactly once, and cleanups of the same registration scope in reverse order.
func CleanupsRunOnce(f *Fix, o *Obs) (string, string) {
	n := map[string]int{}
	for _, e := range o.Events {
		n[strings.SplitN(e, "(", 2)[0]]++
	}
	for _, d := range o.Registered {
		if n[d+"#0"] != 1 || n[d+"#1"] != 0 {
			return "cleanup not run exactly once", fmt.Sprintf("cleanup %s ran %d times", d, n[d+"#0"]+n[d+"#1"])
		}
	}
	return "", ""
}

// OncePerContainer: without retries every BeforeAll/AfterAll body runs at most once,
// and AfterAll has run if any setup or subject node at its level or deeper ran.
func OncePerContainer(f *Fix, o *Obs) (string, string) {
	cnt := map[string]int{}
	for _, e := range o.Events {
		cnt[strings.SplitN(e, "#", 2)[0]]++
	}
	for _, n := range f.All {
		switch n.K {
		case KBA, KAA:
			if cnt[n.Name] > 1 {
				return "ran twice", n.Name + " ran more than once"
			}
		}
		if n.K == KAA {
			entered := ""
			var walk func(c *N)
			walk = func(c *N) {
				for _, k := range c.Kids {
					if k.K == KC {
						walk(k)
					} else if k.K != KAA && k.K != KRBE && k.K != KRAE && cnt[k.Name] > 0 {
						entered = k.Name
					}
				}
			}
			walk(n.Parent)
			if entered != "" && cnt[n.Name] != 1 {
				return "AfterAll not run", fmt.Sprintf("%s ran in %s, but its AfterAll %s did not run", entered, n.Parent.Name, n.Name)
			}
		}
	}
	return "", ""
}
