package par

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C10"] = c10 }

func c10(c *lib.Ctx, t *testing.T) {
	c.Bound("interleavings", parBound)
	c.Bound("suites", "with and without ReportBeforeSuite (one or two), SynchronizedBeforeSuite, cleanups registered in it, AfterSuite; two specs, one of them serial or not; 2 and 3 processes")
	c.Bound("outcomes", "every outcome of the first function (pass, fail, panic, skip, abort, runtime.Goexit, timeout, interrupt), of the second function on one process, and of ReportBeforeSuite")
	c.Bound("crashes", "at most one process dies, at any point before its suite ends, before or after the call it is in took effect")
	var fixtures []*Fixture
	type opt struct {
		n, rbs  int
		act     string
		acts    map[string]fix.Act
		crash   int
		serial  bool
		signals bool
		timeout bool
	}
	add := func(o opt) {
		if o.n == 3 && !c.Thorough() {
			o.serial = true // (a parallel second spec multiplies the states by ten)
			for _, a := range o.acts {
				if a.Kind == fix.Abort {
					return
				}
			}
		}
		fixtures = append(fixtures, &Fixture{
			Name:    fmt.Sprintf("n=%d rbs=%d %s crash=%d serial=%v", o.n, o.rbs, o.act, o.crash, o.serial),
			N:       o.n,
			Crash:   o.crash,
			Acts:    o.acts,
			Signals: o.signals,
			Tree: func() *fix.N {
				root := fix.C("")
				for i := 0; i < o.rbs; i++ {
					root.Kids = append(root.Kids, fix.L(fix.KRBS, fmt.Sprintf("RBS%d", i)))
				}
				sbs := fix.L(fix.KSBS, "SBS")
				sbs.Ctx = o.signals || o.timeout
				if o.timeout {
					sbs.Decs = []any{ginkgo.NodeTimeout(time.Second)}
				}
				b := fix.L(fix.KIt, "b")
				b.Serial = o.serial
				root.Kids = append(root.Kids, sbs, fix.L(fix.KIt, "a"), b, fix.L(fix.KAS, "AS"))
				return root
			},
		})
	}
	one := func(name string, k fix.ActKind) map[string]fix.Act { return map[string]fix.Act{name: {Kind: k}} }
	for n := 2; n <= 3; n++ {
		for rbs := 0; rbs <= 2; rbs++ {
			for _, k := range []fix.ActKind{fix.Pass, fix.Fail, fix.Panic, fix.Skip, fix.Abort, fix.PanicNil} {
				for crash := 0; crash <= 1; crash++ {
					if crash == 1 && ((n == 3 && !c.Thorough() && (rbs > 0 || k > fix.Fail)) || rbs == 2) {
						continue
					}
					a := one("SBS.1", k)
					if n == 2 {
						a["SBS.1"] = fix.Act{Kind: k, Defers: 1}
					}
					add(opt{n: n, rbs: rbs, act: fmt.Sprintf("SBS.1=%v", fix.Act{Kind: k}), acts: a, crash: crash, serial: rbs == 0})
				}
			}
			for _, k := range []fix.ActKind{fix.Fail, fix.Panic, fix.Skip, fix.Abort, fix.PanicNil} {
				if rbs == 0 {
					for _, at := range []string{"SBS.all", "SBS.all@1", fmt.Sprintf("SBS.all@%d", n)} {
						if n == 3 && at == "SBS.all" && !c.Thorough() {
							continue
						}
						add(opt{n: n, act: fmt.Sprintf("%s=%v", at, fix.Act{Kind: k}), acts: one(at, k), crash: c.Pick(3-n, 1)})
					}
					continue
				}
				if rbs == 2 && n == 3 {
					continue
				}
				for i := 0; i < rbs; i++ {
					at := fmt.Sprintf("RBS%d", i)
					add(opt{n: n, rbs: rbs, act: fmt.Sprintf("%s=%v", at, fix.Act{Kind: k}), acts: one(at, k), crash: 3 - n})
				}
			}
		}
		add(opt{n: n, act: "SBS.1=interrupted", acts: one("SBS.1", fix.IntHang), signals: true, crash: 3 - n})
		add(opt{n: n, rbs: 1, act: "SBS.1=interrupted", acts: one("SBS.1", fix.IntHang), signals: true})
		add(opt{n: n, act: "SBS.all@2=interrupted", acts: one("SBS.all@2", fix.IntHang), signals: true})
		add(opt{n: n, act: "SBS.1=timeout", acts: one("SBS.1", fix.Hang), timeout: true, crash: 3 - n})
		add(opt{n: n, act: "SBS.all@2=timeout", acts: one("SBS.all@2", fix.Hang), timeout: true})
	}
	each(c, fixtures, func(*Fixture) func(*world, bool) (string, string) { return checkSetup })
}

func checkSetup(w *world, complete bool) (string, string) {
	fx := w.fx
	numRBS := 0
	for _, k := range fx.Tree().Kids {
		if k.K == fix.KRBS {
			numRBS++
		}
	}
	act := func(name string, p int) fix.ActKind {
		if a, ok := fx.Acts[fmt.Sprintf("%s@%d", name, p)]; ok {
			return a.Kind
		}
		return fx.Acts[name].Kind
	}
	rbsDone, rbsFailed := 0, false
	sbsBegan, sbsPassed := 0, false
	for _, e := range w.log {
		if strings.HasPrefix(e.What, "did [ReportBeforeSuite]") {
			rbsDone++
			if e.Note != "passed" && e.Note != "skipped" {
				rbsFailed = true
			}
		}
		if e.What == "end SBS.1" && act("SBS.1", 1) == fix.Pass {
			sbsPassed = true
		}
		if !strings.HasPrefix(e.What, "begin ") {
			continue
		}
		name := e.What[6:]
		switch {
		case strings.HasPrefix(name, "RBS"):
			if e.P != 1 {
				return "ReportBeforeSuite ran on another process than 1", name
			}
		case strings.Contains(name, "/d") || name == "AS":
		case rbsDone < numRBS:
			return "a node ran before ReportBeforeSuite had completed", fmt.Sprintf("%s on %d", name, e.P)
		case rbsFailed:
			return "a node ran although ReportBeforeSuite failed", fmt.Sprintf("%s on %d", name, e.P)
		case name == "SBS.1":
			sbsBegan++
			if e.P != 1 {
				return "the first function of SynchronizedBeforeSuite ran on another process than 1", fmt.Sprint(e.P)
			}
			if sbsBegan > 1 {
				return "the first function of SynchronizedBeforeSuite ran twice", ""
			}
		default: // second function, specs
			if !sbsPassed {
				return "a node ran although the first function of SynchronizedBeforeSuite has not passed", fmt.Sprintf("%s on %d", name, e.P)
			}
		}
	}
	if !complete {
		return "", ""
	}
	dead := w.deadProc()
	for _, p := range w.procs {
		if p.obs == nil {
			continue
		}
		all := 0
		allAt, itAt := -1, -1
		for i, e := range p.obs.Events {
			if strings.HasPrefix(e, "SBS.all#") {
				all++
				allAt = i
				if !strings.HasSuffix(e, "(data)") {
					return "the second function did not get what the first one returned", e
				}
			}
			if e == "a#0" || e == "b#0" {
				if itAt < 0 {
					itAt = i
				}
			}
		}
		if all > 1 {
			return "the second function ran twice on a process", fmt.Sprint(p.id)
		}
		if itAt >= 0 && itAt < allAt {
			return "a spec ran before the second function", fmt.Sprint(p.id)
		}
		if sbsPassed && all == 0 && p.id != 1 && dead == nil && !w.aborted {
			return "the second function did not run on a process", fmt.Sprint(p.id)
		}
		if itAt >= 0 && (allAt < 0 || act("SBS.all", p.id) != fix.Pass) {
			return "a spec ran on a process whose SynchronizedBeforeSuite did not pass", fmt.Sprint(p.id)
		}
	}
	// the outcome
	success := dead == nil
	for _, p := range w.procs {
		if p.obs != nil {
			success = success && p.obs.Success
		}
	}
	bad := false
	skip := false
	for n, a := range fx.Acts {
		switch a.Kind {
		case fix.Pass:
		case fix.Skip:
			skip = true
		default:
			bad = bad || n != ""
		}
	}
	if bad && success {
		return "the run passed although its setup failed", ""
	}
	if !bad && dead == nil && !success {
		return "the run failed although nothing failed", ""
	}
	_ = skip
	// every process that was left waiting for a process 1 that died says so
	if dead != nil && dead.id == 1 {
		for _, p := range w.procs[1:] {
			tr := p.trace.String()
			if strings.Contains(tr, "disappeared") || strings.Contains(tr, "wait-rbs=failed") {
				if p.obs != nil && p.obs.Success {
					return "a process passed although process 1 died before its setup was complete", fmt.Sprint(p.id)
				}
			}
		}
	}
	if dead == nil && !w.aborted {
		// each spec is run or, if the setup kept it from running, not reported as passed
		got := specStates(w.rep.did)
		for _, n := range []string{"a", "b"} {
			for _, s := range got[n] {
				if strings.HasPrefix(s, "passed") && len(w.begun(0, func(x string) bool { return x == n })) == 0 {
					return "a spec that did not run is reported as passed", n
				}
			}
			if !bad && !skip && len(got[n]) != 1 {
				return "a spec did not run", n
			}
		}
		if len(w.rep.end) != 1 || w.rep.end[0].SuiteSucceeded != success {
			return "the server's report disagrees with the processes", fmt.Sprintf("%d %v", len(w.rep.end), success)
		}
	}
	_ = types.SpecStatePassed
	return "", ""
}
