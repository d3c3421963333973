package par

import (
	"fmt"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C12"] = c12 }

func c12(c *lib.Ctx, t *testing.T) {
	c.Bound("interleavings", parBound+"; the poll of a process's interrupt handler that sees the abort is a step of its own")
	c.Bound("suites", "specs in containers with BeforeEach/AfterEach/JustAfterEach, ordered containers with BeforeAll/AfterAll, cleanups at every level, serial specs, AfterSuite, SynchronizedAfterSuite, ReportAfterEach, ReportAfterSuite; bodies with and without a context; 2 and 3 processes")
	c.Bound("aborts", "AbortSuite in each kind of node, and a failure with fail-fast in each; on either process or whichever runs it")
	var fixtures []*Fixture
	type shape struct {
		name string
		tree func(ctx bool) *fix.N
		at   []string
	}
	mk := func(ctx bool) func(k fix.Kind, n string) *fix.N {
		return func(k fix.Kind, n string) *fix.N {
			x := fix.L(k, n)
			x.Ctx = ctx
			return x
		}
	}
	shapes := []shape{
		{"two specs with setup", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", l(fix.KBE, "BE"), l(fix.KIt, "a"), l(fix.KIt, "b"), l(fix.KAE, "AE"), l(fix.KAS, "AS"))
		}, []string{"a", "BE@1", "AE@2", "BE", "AE", "AS@1", "AS"}},
		{"specs only", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", l(fix.KIt, "a"), l(fix.KIt, "b"), l(fix.KIt, "c"))
		}, []string{"a", "b", "c"}},
		{"pair", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", l(fix.KIt, "a"), l(fix.KIt, "b"))
		}, []string{"a"}},
		{"one", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", l(fix.KBE, "BE"), l(fix.KIt, "a"))
		}, []string{"a", "BE"}},
		{"ordered", func(ctx bool) *fix.N {
			l := mk(ctx)
			o := fix.C("O", l(fix.KBA, "BA"), l(fix.KIt, "a1"), l(fix.KIt, "a2"), l(fix.KAA, "AA"))
			o.Ordered = true
			return fix.C("", o, l(fix.KIt, "b"))
		}, []string{"b", "a1", "BA", "AA"}},
		{"serial", func(ctx bool) *fix.N {
			l := mk(ctx)
			s := l(fix.KIt, "s")
			s.Serial = true
			return fix.C("", l(fix.KIt, "a"), s, l(fix.KSAS, "SAS"))
		}, []string{"a", "s", "SAS.all@2", "SAS.1"}},
		{"suite nodes", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", l(fix.KBS, "BS"), l(fix.KIt, "a"), l(fix.KSAS, "SAS"), fix.L(fix.KRAS, "RAS"))
		}, []string{"BS@1", "BS@2", "BS", "a"}},
		{"report nodes", func(ctx bool) *fix.N {
			l := mk(ctx)
			return fix.C("", fix.L(fix.KRBE, "RBE"), l(fix.KIt, "a"), l(fix.KIt, "b"), fix.L(fix.KRAE, "RAE"), l(fix.KAS, "AS"))
		}, []string{"a", "RAE@1", "RBE@2"}},
	}
	for _, s := range shapes {
		for _, ctx := range []bool{false, true} {
			for _, at := range s.at {
				for _, k := range []fix.ActKind{fix.Abort, fix.Fail, fix.Panic} {
					failFast := k != fix.Abort
					for _, ctxFail := range []bool{false, true} {
						if ctxFail && !ctx || k == fix.Panic && (ctxFail || strings.HasPrefix(at, "R")) {
							continue
						}
						for n := 2; n <= 3; n++ {
							if n == 3 && (failFast || ctxFail || !c.Thorough() && s.name != "one") {
								continue
							}
							for defers := 0; defers <= 1; defers++ {
								if defers == 1 && (n == 3 || failFast || ctxFail || s.name == "specs only" || n == 2 && at == "AE") && !c.Thorough() {
									continue
								}
								acts := map[string]fix.Act{}
								if defers == 1 {
									for _, x := range []string{"BE", "BA", "a", "b", "a1", "a2", "s", "BS"} {
										acts[x] = fix.Act{Defers: 1}
									}
								}
								if strings.HasPrefix(at, "R") { // (report nodes cannot register cleanups)
									acts[at] = fix.Act{Kind: k}
								} else {
									acts[at] = fix.Act{Kind: k, Defers: defers}
								}
								tree := s.tree
								f := &Fixture{
									Name: fmt.Sprintf("n=%d %s %s=%v cleanups=%d ctx=%v ctxfail=%v failfast=%v", n, s.name, at, fix.Act{Kind: k}, defers, ctx, ctxFail, failFast),
									N:    n, Acts: acts, CtxFail: ctxFail,
									Tree: func() *fix.N { return tree(ctx) },
									Cfg:  func(c *types.SuiteConfig) { c.FailFast = failFast },
								}
								fixtures = append(fixtures, f)
							}
						}
					}
				}
			}
		}
	}
	each(c, fixtures, func(*Fixture) func(*world, bool) (string, string) { return checkAbort })
}

func checkAbort(w *world, complete bool) (string, string) {
	fx := w.fx
	kinds := map[string]fix.Kind{}
	var walk func(n *fix.N)
	walk = func(n *fix.N) {
		kinds[n.Name] = n.K
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(fx.Tree())
	// nothing new starts on a process that has seen the abort (or that aborted)
	saw := map[int]bool{}
	finished := map[string]bool{}
	for _, e := range w.log {
		switch {
		case e.What == "seen-abort" || e.What == "call abort":
			saw[e.P] = true
		case strings.HasPrefix(e.What, "end "):
			finished[fmt.Sprintf("%s@%d", e.What[4:], e.P)] = true
		case strings.HasPrefix(e.What, "begin "):
			name := e.What[6:]
			switch kinds[name] {
			case fix.KIt, fix.KBE, fix.KBA, fix.KBS:
				if saw[e.P] {
					return "a node was started on a process that knew of the abort", fmt.Sprintf("%s on %d", name, e.P)
				}
			}
		case strings.HasPrefix(e.What, "did ") && kinds[e.What[4:]] == fix.KIt:
			name := e.What[4:]
			if e.Note == "passed" && !finished[fmt.Sprintf("%s@%d", name, e.P)] {
				return "a spec is reported as passed although its body did not finish", fmt.Sprintf("%s on %d", name, e.P)
			}
		}
	}
	if !complete {
		return "", ""
	}
	// teardown of everything that was entered
	anyFail := false
	reported := map[string]int{}
	for _, p := range w.procs {
		n := map[string]int{}
		for _, e := range p.obs.Events {
			if i := strings.Index(e, "#"); i > 0 && !strings.Contains(e, "/") && !strings.HasPrefix(e, "did:") && !strings.HasPrefix(e, "will:") {
				n[e[:i]]++
			}
		}
		if kinds["AE"] != "" && n["BE"] != n["AE"] {
			return "an AfterEach did not run for a spec whose BeforeEach had run", fmt.Sprintf("process %d: %d of %d", p.id, n["AE"], n["BE"])
		}
		if n["BA"] > 0 && n["AA"] != 1 {
			return "the AfterAll of an ordered container that was entered did not run", fmt.Sprint(p.id)
		}
		if _, ok := kinds["AS"]; ok && n["AS"] != 1 {
			return "AfterSuite did not run", fmt.Sprint(p.id)
		}
		if _, ok := kinds["SAS"]; ok && (n["SAS.all"] != 1 || (p.id == 1 && n["SAS.1"] != 1)) {
			return "SynchronizedAfterSuite did not run", fmt.Sprint(p.id)
		}
		if _, ok := kinds["RAS"]; ok && p.id == 1 && n["RAS"] != 1 {
			return "ReportAfterSuite did not run", ""
		}
		for _, d := range p.obs.Registered {
			ran := 0
			for _, e := range p.obs.Events {
				if strings.HasPrefix(e, d+"#") {
					ran++
				}
			}
			if ran != 1 {
				return "a cleanup that had been registered did not run once", fmt.Sprintf("%s on %d: %d", d, p.id, ran)
			}
		}
		interrupted := map[string]bool{}
		for _, r := range p.obs.End.SpecReports {
			if !r.LeafNodeType.Is(types.NodeTypeIt) {
				anyFail = anyFail || r.State.Is(types.SpecStateFailureStates)
				continue
			}
			anyFail = anyFail || r.State.Is(types.SpecStateFailureStates)
			reported[r.LeafNodeText]++
			if r.State == types.SpecStateInterrupted {
				interrupted[r.LeafNodeText] = true
				if !strings.Contains(r.Failure.Message, "Other Ginkgo Process") {
					return "an interrupted spec does not say why", r.Failure.Message
				}
				if n[r.LeafNodeText] == 0 && n["BE"] == 0 && n["BA"] == 0 && n["RBE"] == 0 {
					return "a spec that never started is reported as interrupted", r.LeafNodeText
				}
			}
			if r.State == types.SpecStatePassed && n[r.LeafNodeText] == 0 {
				return "a spec that did not run is reported as passed", r.LeafNodeText
			}
			if saw[p.id] && n[r.LeafNodeText] == 0 && r.State.Is(types.SpecStateFailureStates) && n["BE"] == 0 && n["BA"] == 0 && n["RBE"] == 0 && n["RAE"] == 0 {
				return "a spec that did not start is not reported as skipped", fmt.Sprintf("%s=%s", r.LeafNodeText, r.State)
			}
		}
		if len(interrupted) > 1 {
			return "more than one spec of a process is reported as interrupted", fmt.Sprint(interrupted)
		}
		cut := false
		for _, r := range p.obs.End.SpecReports {
			cut = cut || r.LeafNodeType.Is(types.NodeTypeIt) && r.State.Is(types.SpecStateSkipped|types.SpecStateInterrupted)
		}
		if cut && p.obs.Success {
			return "a process that was cut short by the abort passed", fmt.Sprint(p.id)
		}
	}
	for name, k := range kinds {
		if k == fix.KIt && reported[name] > 1 {
			return "a spec was reported more than once", name
		}
	}
	if w.aborted {
		ok := true
		for _, p := range w.procs {
			ok = ok && p.obs.Success
		}
		if ok {
			return "the run passed although it was aborted", ""
		}
		if len(w.rep.end) != 1 || w.rep.end[0].SuiteSucceeded {
			return "the server's report says that an aborted run passed", ""
		}
	} else if anyFail && fx.Acts != nil {
		// a failure with fail-fast, or an abort, has to be told to the others
		for _, p := range w.procs {
			for _, r := range p.obs.End.SpecReports {
				if r.State == types.SpecStateAborted || (r.State.Is(types.SpecStateFailureStates) && p.run.Cfg.FailFast) {
					return "the other processes were not told", fmt.Sprintf("%s=%s on %d", specName(r), r.State, p.id)
				}
			}
		}
	}
	return "", ""
}
