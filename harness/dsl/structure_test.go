package dsl

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/dsl/core"
	"github.com/onsi/ginkgo/v2/dsl/reporting"
	"github.com/onsi/ginkgo/v2/dsl/table"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

/* ---------- the rules for where nodes may be ---------- */

var (
	ePushRun    = heading(ge.PushingNodeInRunPhase(types.NodeTypeIt, nocl))
	eSuiteIn    = heading(ge.SuiteNodeInNestedContext(types.NodeTypeBeforeSuite, nocl))
	eSuiteRun   = heading(ge.SuiteNodeDuringRunPhase(types.NodeTypeBeforeSuite, nocl))
	eTwoBefore  = heading(ge.MultipleBeforeSuiteNodes(types.NodeTypeBeforeSuite, nocl, types.NodeTypeBeforeSuite, nocl))
	eTwoAfter   = heading(ge.MultipleAfterSuiteNodes(types.NodeTypeAfterSuite, nocl, types.NodeTypeAfterSuite, nocl))
	eCleanBuild = heading(ge.PushingCleanupNodeDuringTreeConstruction(nocl))
	eCleanRep   = func(t types.NodeType) string { return heading(ge.PushingCleanupInReportingNode(nocl, t)) }
	eCleanClean = heading(ge.PushingCleanupInCleanupNode(nocl))
	eBy         = heading(ge.ByNotDuringRunPhase(nocl))
	ePanic      = heading(ge.CaughtPanicDuringABuildPhase("x", nocl))
)

func at(n int) types.CodeLocation {
	return types.CodeLocation{FileName: "/tree/t_test.go", LineNumber: n}
}

type dslCall struct {
	name string
	t    types.NodeType
	call func(args ...any)
}

var nop = func() {}

func withBody(a []any) []any { return append(append([]any{}, a...), nop) }

// every function that declares something; the arguments are decorators
var dslCalls = []dslCall{
	{"Describe", types.NodeTypeContainer, func(a ...any) { ginkgo.Describe("x", withBody(a)...) }},
	{"It", types.NodeTypeIt, func(a ...any) { ginkgo.It("x", withBody(a)...) }},
	{"BeforeEach", types.NodeTypeBeforeEach, func(a ...any) { ginkgo.BeforeEach(withBody(a)...) }},
	{"JustBeforeEach", types.NodeTypeJustBeforeEach, func(a ...any) { ginkgo.JustBeforeEach(withBody(a)...) }},
	{"AfterEach", types.NodeTypeAfterEach, func(a ...any) { ginkgo.AfterEach(withBody(a)...) }},
	{"JustAfterEach", types.NodeTypeJustAfterEach, func(a ...any) { ginkgo.JustAfterEach(withBody(a)...) }},
	{"BeforeAll", types.NodeTypeBeforeAll, func(a ...any) { ginkgo.BeforeAll(withBody(a)...) }},
	{"AfterAll", types.NodeTypeAfterAll, func(a ...any) { ginkgo.AfterAll(withBody(a)...) }},
	{"BeforeSuite", types.NodeTypeBeforeSuite, func(a ...any) { ginkgo.BeforeSuite(nop, a...) }},
	{"AfterSuite", types.NodeTypeAfterSuite, func(a ...any) { ginkgo.AfterSuite(nop, a...) }},
	{"SynchronizedBeforeSuite", types.NodeTypeSynchronizedBeforeSuite, func(a ...any) { ginkgo.SynchronizedBeforeSuite(nop, nop, a...) }},
	{"SynchronizedAfterSuite", types.NodeTypeSynchronizedAfterSuite, func(a ...any) { ginkgo.SynchronizedAfterSuite(nop, nop, a...) }},
	{"ReportBeforeEach", types.NodeTypeReportBeforeEach, func(a ...any) { ginkgo.ReportBeforeEach(func(ginkgo.SpecReport) {}, a...) }},
	{"ReportAfterEach", types.NodeTypeReportAfterEach, func(a ...any) { ginkgo.ReportAfterEach(func(ginkgo.SpecReport) {}, a...) }},
	{"ReportBeforeSuite", types.NodeTypeReportBeforeSuite, func(a ...any) { ginkgo.ReportBeforeSuite(func(ginkgo.Report) {}, a...) }},
	{"ReportAfterSuite", types.NodeTypeReportAfterSuite, func(a ...any) { ginkgo.ReportAfterSuite("x", func(ginkgo.Report) {}, a...) }},
	{"DeferCleanup", types.NodeTypeCleanupInvalid, func(a ...any) { ginkgo.DeferCleanup(withBody(a)...) }},
	{"By", 0, func(a ...any) { ginkgo.By("x") }},
	{"By+func", 0, func(a ...any) { ginkgo.By("x", nop) }},
	{"AddReportEntry", 0, func(a ...any) { ginkgo.AddReportEntry("x", a...) }},
	{"DescribeTable", types.NodeTypeContainer, func(a ...any) {
		ginkgo.DescribeTable("x", append(append([]any{}, a...), func(int) {}, ginkgo.Entry("e", 1))...)
	}},
}

const ntSuite = types.NodeTypeBeforeSuite | types.NodeTypeAfterSuite | types.NodeTypeSynchronizedBeforeSuite | types.NodeTypeSynchronizedAfterSuite | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite
const ntReporting = types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach | types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite

type containerKind struct {
	name                            string
	ordered, serial, cof, fail, pan bool
}

func (k containerKind) args() []any {
	var a []any
	if k.ordered {
		a = append(a, ginkgo.Ordered)
	}
	if k.serial {
		a = append(a, ginkgo.Serial)
	}
	if k.cof {
		a = append(a, ginkgo.ContinueOnFailure)
	}
	return a
}

var containerKinds = []containerKind{
	{name: "plain"}, {name: "Ordered", ordered: true}, {name: "Serial", serial: true}, {name: "Ordered+Serial", ordered: true, serial: true},
	{name: "Ordered+ContinueOnFailure", ordered: true, cof: true}, {name: "Ordered+Serial+ContinueOnFailure", ordered: true, serial: true, cof: true},
	{name: "panics", pan: true}, {name: "fails", fail: true},
}

type rejection struct {
	heading, at string
}

func (r rejection) String() string { return fmt.Sprintf("%q at %s", r.heading, r.at) }

// judge compares the outcome of a program with the rejections that are right (none: it must be accepted).
func judge(c *lib.Ctx, kase string, o *outcome, want []rejection) bool {
	if o.panicked != nil {
		c.Violation("the program panics", kase, fmt.Sprint(o.panicked))
		return false
	}
	if len(want) == 0 {
		if o.exited || o.errs != "" {
			c.Violation("a valid program is rejected", kase, o.errs)
			return false
		}
		return true
	}
	if !o.exited {
		c.Violation("an invalid program is accepted", kase, fmt.Sprintf("want %v; stderr %q", want, o.errs))
		return false
	}
	if o.code != 1 {
		c.Violation("an invalid program ends with another status", kase, fmt.Sprint(o.code))
	}
	for _, w := range want {
		if strings.Contains(o.errs, w.heading) && strings.Contains(o.errs, w.at+"\n") {
			return true
		}
	}
	c.Violation("the error is not the one for what is wrong, or not at its location", kase, fmt.Sprintf("want %v\ngot %s", want, o.errs))
	return false
}

func loc(n int) string { return at(n).String() }

func c31contexts(c *lib.Ctx) {
	maxDepth := c.Pick(3, 4)
	leafDecs := [][]any{nil, {ginkgo.Serial}, {ginkgo.Ordered}, {ginkgo.Ordered, ginkgo.ContinueOnFailure}, {ginkgo.Ordered, ginkgo.Serial}, {ginkgo.OncePerOrdered}, {ginkgo.Label("l")}}
	c.Bound("contexts", fmt.Sprintf("every nesting of up to %d containers of %d kinds around every call of the DSL with %d sets of decorators, beside a valid spec", maxDepth, len(containerKinds), len(leafDecs)))
	var rec func(chain []int)
	rec = func(chain []int) {
		if len(chain) < maxDepth {
			for k := range containerKinds {
				rec(append(append([]int{}, chain...), k))
			}
		}
		if !c.Mine() || c.Stop() {
			return
		}
		for _, d := range dslCalls {
			for ld, dec := range leafDecs {
				if ld > 0 && d.t == 0 {
					continue
				}
				var names []string
				for _, k := range chain {
					names = append(names, containerKinds[k].name)
				}
				kase := fmt.Sprintf("context containers=[%s] call=%s decorators=%v", strings.Join(names, " "), d.name, dec)
				if !c.Only(kase) {
					continue
				}
				c31context(c, kase, chain, d, dec)
			}
		}
	}
	rec(nil)
}

func c31context(c *lib.Ctx, kase string, chain []int, d dslCall, dec []any) {
	c.Add("evaluations", 1)
	c.Add("states", 1)
	c.Case(kase)
	// the first thing that is wrong
	var want []rejection
	var outer *containerKind
	for i, ki := range chain {
		k := containerKinds[ki]
		if outer != nil && k.serial && !outer.serial {
			want = append(want, rejection{eSerialOrd, loc(i)})
		}
		if outer != nil && k.cof {
			want = append(want, rejection{eCOF, loc(i)})
		}
		if len(want) > 0 {
			break
		}
		if k.pan || k.fail {
			want = append(want, rejection{ePanic, loc(i)})
			break
		}
		if outer == nil && k.ordered {
			outer = &k
		}
	}
	const leaf = 99
	has := func(x any) bool {
		for _, y := range dec {
			if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y) {
				return true
			}
		}
		return false
	}
	ws := want
	if len(chain) == 0 || len(ws) == 0 {
		var w []rejection
		// the node itself
		isC := d.t == types.NodeTypeContainer
		if has(ginkgo.Serial) && !d.t.Is(types.NodeTypesForContainerAndIt) || has(ginkgo.Ordered) && !isC || has(ginkgo.ContinueOnFailure) && !isC || has(ginkgo.OncePerOrdered) && !d.t.Is(ntLeafEach) || has(ginkgo.Label("")) && !d.t.Is(types.NodeTypesForContainerAndIt) {
			if d.t != 0 {
				w = append(w, rejection{eWhere, loc(leaf)})
			}
		}
		if d.t.Is(types.NodeTypeBeforeAll|types.NodeTypeAfterAll) && outer == nil {
			w = append(w, rejection{eNotOrd, loc(leaf)})
		}
		if has(ginkgo.Serial) && outer != nil && !outer.serial {
			w = append(w, rejection{eSerialOrd, loc(leaf)})
		}
		if has(ginkgo.ContinueOnFailure) && outer != nil {
			w = append(w, rejection{eCOF, loc(leaf)})
		}
		if d.t.Is(ntSuite) && len(chain) > 0 {
			w = append(w, rejection{eSuiteIn, loc(leaf)})
		}
		if d.t == types.NodeTypeCleanupInvalid {
			w = append(w, rejection{eCleanBuild, loc(leaf)})
		}
		if strings.HasPrefix(d.name, "By") {
			w = append(w, rejection{eBy, ":0"})
		}
		if d.name == "AddReportEntry" {
			if len(chain) == 0 {
				return // (an ordinary panic while the program starts)
			}
			w = append(w, rejection{ePanic, loc(len(chain) - 1)})
		}
		ws = w
	}
	its := 0
	var build func(i int)
	build = func(i int) {
		if i == len(chain) {
			a := []any{at(leaf)}
			a = append(a, dec...)
			d.call(a...)
			return
		}
		k := containerKinds[chain[i]]
		ginkgo.Describe(fmt.Sprint("c", i), append(k.args(), at(i), func() {
			if k.pan {
				panic("boom")
			}
			if k.fail {
				ginkgo.Fail("boom")
			}
			build(i + 1)
			ginkgo.It("inner", at(50+i), func() { its++ })
		})...)
	}
	o := program(func() {
		build(0)
		ginkgo.It("beside", at(80), func() { its++ })
	}, true)
	for i := range ws {
		if ws[i].at == ":0" { // By has no location decorator: it is where it is called, in a function of the table
			ws[i].at = ""
			for _, l := range strings.Split(o.errs, "\n") {
				if strings.Contains(l, "structure_test.go:") {
					ws[i].at = l
				}
			}
		}
	}
	if !judge(c, kase, o, ws) || len(ws) > 0 {
		return
	}
	c.Add("accepted", 1)
	// an accepted program runs
	n := len(chain) + 1
	rep := 0
	for _, s := range o.specs {
		if s.LeafNodeType.Is(types.NodeTypeIt) {
			rep++
			if s.State != types.SpecStatePassed {
				c.Violation("a spec of a valid program does not pass", kase, fmt.Sprint(s.State, s.Failure.Message))
			}
		}
	}
	extra := 0
	if d.name == "It" || d.name == "DescribeTable" {
		extra = 1
	}
	if its != n || rep != n+extra || !o.success {
		c.Violation("a valid program does not run all its specs", kase, fmt.Sprintf("%d ran, %d reported, want %d; success %v", its, rep, n, o.success))
	}
}

// c31pairs: what may be declared side by side at the top level.
func c31pairs(c *lib.Ctx) {
	var tops []dslCall
	for _, d := range dslCalls {
		if d.t.Is(ntSuite) || d.name == "It" || d.name == "Describe" {
			tops = append(tops, d)
		}
	}
	n := c.Pick(3, 4)
	c.Bound("top level", fmt.Sprintf("every sequence of up to %d suite nodes, containers and specs", n))
	for l := 1; l <= n; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = len(tops)
		}
		lib.Product(dims, func(x []int) bool {
			if !c.Mine() {
				return true
			}
			var names []string
			var want []rejection
			before, after := -1, -1
			for i, k := range x {
				d := tops[k]
				names = append(names, d.name)
				if d.t.Is(types.NodeTypeBeforeSuite | types.NodeTypeSynchronizedBeforeSuite) {
					if before >= 0 && want == nil {
						want = []rejection{{eTwoBefore, loc(i)}}
					}
					before = i
				}
				if d.t.Is(types.NodeTypeAfterSuite | types.NodeTypeSynchronizedAfterSuite) {
					if after >= 0 && want == nil {
						want = []rejection{{eTwoAfter, loc(i)}}
					}
					after = i
				}
			}
			kase := "top level: " + strings.Join(names, " ")
			if !c.Only(kase) {
				return true
			}
			c.Add("evaluations", 1)
			c.Add("states", 1)
			c.Case(kase)
			o := program(func() {
				for i, k := range x {
					tops[k].call(at(i))
				}
			}, true)
			if judge(c, kase, o, want) && want == nil && !o.success {
				c.Violation("a valid program does not pass", kase, "")
			}
			return !c.Stop()
		})
	}
}

// c31running: what may be called while the suite is running, from each kind of node.
func c31running(c *lib.Ctx) {
	hosts := []struct {
		name    string
		t       types.NodeType
		cleanup bool
		decl    func(f func())
	}{
		{"It", types.NodeTypeIt, false, func(f func()) { ginkgo.It("host", f) }},
		{"BeforeEach", types.NodeTypeBeforeEach, false, func(f func()) { ginkgo.BeforeEach(f) }},
		{"JustBeforeEach", types.NodeTypeJustBeforeEach, false, func(f func()) { ginkgo.JustBeforeEach(f) }},
		{"AfterEach", types.NodeTypeAfterEach, false, func(f func()) { ginkgo.AfterEach(f) }},
		{"JustAfterEach", types.NodeTypeJustAfterEach, false, func(f func()) { ginkgo.JustAfterEach(f) }},
		{"BeforeAll", types.NodeTypeBeforeAll, false, func(f func()) {
			ginkgo.Describe("o", ginkgo.Ordered, func() { ginkgo.BeforeAll(f); ginkgo.It("i", nop) })
		}},
		{"AfterAll", types.NodeTypeAfterAll, false, func(f func()) {
			ginkgo.Describe("o", ginkgo.Ordered, func() { ginkgo.AfterAll(f); ginkgo.It("i", nop) })
		}},
		{"BeforeSuite", types.NodeTypeBeforeSuite, false, func(f func()) { ginkgo.BeforeSuite(f) }},
		{"AfterSuite", types.NodeTypeAfterSuite, false, func(f func()) { ginkgo.AfterSuite(f) }},
		{"SynchronizedBeforeSuite.1", types.NodeTypeSynchronizedBeforeSuite, false, func(f func()) { ginkgo.SynchronizedBeforeSuite(f, nop) }},
		{"SynchronizedBeforeSuite.2", types.NodeTypeSynchronizedBeforeSuite, false, func(f func()) { ginkgo.SynchronizedBeforeSuite(nop, f) }},
		{"SynchronizedAfterSuite.1", types.NodeTypeSynchronizedAfterSuite, false, func(f func()) { ginkgo.SynchronizedAfterSuite(f, nop) }},
		{"SynchronizedAfterSuite.2", types.NodeTypeSynchronizedAfterSuite, false, func(f func()) { ginkgo.SynchronizedAfterSuite(nop, f) }},
		{"ReportBeforeEach", types.NodeTypeReportBeforeEach, false, func(f func()) { ginkgo.ReportBeforeEach(func(ginkgo.SpecReport) { f() }) }},
		{"ReportAfterEach", types.NodeTypeReportAfterEach, false, func(f func()) { ginkgo.ReportAfterEach(func(ginkgo.SpecReport) { f() }) }},
		{"ReportBeforeSuite", types.NodeTypeReportBeforeSuite, false, func(f func()) { ginkgo.ReportBeforeSuite(func(ginkgo.Report) { f() }) }},
		{"ReportAfterSuite", types.NodeTypeReportAfterSuite, false, func(f func()) { ginkgo.ReportAfterSuite("r", func(ginkgo.Report) { f() }) }},
		{"DeferCleanup in It", 0, true, func(f func()) { ginkgo.It("host", func() { ginkgo.DeferCleanup(f) }) }},
		{"DeferCleanup in BeforeAll", 0, true, func(f func()) {
			ginkgo.Describe("o", ginkgo.Ordered, func() { ginkgo.BeforeAll(func() { ginkgo.DeferCleanup(f) }); ginkgo.It("i", nop) })
		}},
		{"DeferCleanup in BeforeSuite", 0, true, func(f func()) { ginkgo.BeforeSuite(func() { ginkgo.DeferCleanup(f) }) }},
		{"DeferCleanup in AfterSuite", 0, true, func(f func()) { ginkgo.AfterSuite(func() { ginkgo.DeferCleanup(f) }) }},
	}
	c.Bound("while running", fmt.Sprintf("every call of the DSL from each of %d kinds of running nodes", len(hosts)))
	for _, h := range hosts {
		for _, d := range dslCalls {
			for _, before := range []string{"", "By", "DeferCleanup"} {
				if !c.Mine() {
					continue
				}
				if before == "DeferCleanup" && (h.cleanup || h.t.Is(ntReporting)) {
					continue
				}
				kase := fmt.Sprintf("running %s after %q in %s", d.name, before, h.name)
				if !c.Only(kase) {
					continue
				}
				c.Add("evaluations", 1)
				c.Add("states", 1)
				c.Case(kase)
				var want []rejection
				switch {
				case d.t == types.NodeTypeCleanupInvalid && h.cleanup:
					want = []rejection{{eCleanClean, loc(7)}}
				case d.t == types.NodeTypeCleanupInvalid && h.t.Is(ntReporting):
					want = []rejection{{eCleanRep(h.t), loc(7)}}
				case d.t == types.NodeTypeCleanupInvalid, d.t == 0:
				case d.t.Is(ntSuite):
					want = []rejection{{eSuiteRun, loc(7)}}
				case d.name == "DescribeTable":
					want = []rejection{{ePushRun, ""}}
				default:
					want = []rejection{{ePushRun, loc(7)}}
				}
				called, after := 0, 0
				o := program(func() {
					h.decl(func() {
						called++
						switch before {
						case "By":
							ginkgo.By("before", nop)
						case "DeferCleanup":
							ginkgo.DeferCleanup(nop)
						}
						d.call(at(7))
						after++
					})
					if h.name != "It" {
						ginkgo.It("plain", nop)
					}
				}, true)
				if called == 0 {
					c.Violation("the node does not run", kase, o.errs)
					continue
				}
				if len(want) > 0 && after > 0 {
					c.Violation("an invalid call returns", kase, "")
				}
				if judge(c, kase, o, want) && want == nil && !o.success {
					c.Violation("a valid program does not pass", kase, fmt.Sprint(o.specs))
				}
			}
		}
	}
}

/* ---------- all names of the DSL: what they stand for and where they say they are ---------- */

type alias struct {
	name           string
	t              types.NodeType
	focus, pending bool
	call           func(text string, args ...any) bool
}

func c31aliases() []alias {
	C, I := types.NodeTypeContainer, types.NodeTypeIt
	tab := func(f func(string, ...any) bool) func(string, ...any) bool {
		return func(t string, a ...any) bool {
			ginkgo.GinkgoHelper()
			return f(t, append(append([]any{}, a...), func(int) {}, ginkgo.Entry("entry", 1))...)
		}
	}
	out := []alias{
		{"Describe", C, false, false, ginkgo.Describe}, {"FDescribe", C, true, false, ginkgo.FDescribe}, {"PDescribe", C, false, true, ginkgo.PDescribe}, {"XDescribe", C, false, true, ginkgo.XDescribe},
		{"Context", C, false, false, ginkgo.Context}, {"FContext", C, true, false, ginkgo.FContext}, {"PContext", C, false, true, ginkgo.PContext}, {"XContext", C, false, true, ginkgo.XContext},
		{"When", C, false, false, ginkgo.When}, {"FWhen", C, true, false, ginkgo.FWhen}, {"PWhen", C, false, true, ginkgo.PWhen}, {"XWhen", C, false, true, ginkgo.XWhen},
		{"It", I, false, false, ginkgo.It}, {"FIt", I, true, false, ginkgo.FIt}, {"PIt", I, false, true, ginkgo.PIt}, {"XIt", I, false, true, ginkgo.XIt},
		{"Specify", I, false, false, ginkgo.Specify}, {"FSpecify", I, true, false, ginkgo.FSpecify}, {"PSpecify", I, false, true, ginkgo.PSpecify}, {"XSpecify", I, false, true, ginkgo.XSpecify},
		{"core.Describe", C, false, false, core.Describe}, {"core.FDescribe", C, true, false, core.FDescribe}, {"core.PDescribe", C, false, true, core.PDescribe}, {"core.XDescribe", C, false, true, core.XDescribe},
		{"core.Context", C, false, false, core.Context}, {"core.FContext", C, true, false, core.FContext}, {"core.PContext", C, false, true, core.PContext}, {"core.XContext", C, false, true, core.XContext},
		{"core.When", C, false, false, core.When}, {"core.FWhen", C, true, false, core.FWhen}, {"core.PWhen", C, false, true, core.PWhen}, {"core.XWhen", C, false, true, core.XWhen},
		{"core.It", I, false, false, core.It}, {"core.FIt", I, true, false, core.FIt}, {"core.PIt", I, false, true, core.PIt}, {"core.XIt", I, false, true, core.XIt},
		{"core.Specify", I, false, false, core.Specify}, {"core.FSpecify", I, true, false, core.FSpecify}, {"core.PSpecify", I, false, true, core.PSpecify}, {"core.XSpecify", I, false, true, core.XSpecify},
	}
	for _, t := range []alias{
		{"DescribeTable", 0, false, false, ginkgo.DescribeTable}, {"FDescribeTable", 0, true, false, ginkgo.FDescribeTable}, {"PDescribeTable", 0, false, true, ginkgo.PDescribeTable}, {"XDescribeTable", 0, false, true, ginkgo.XDescribeTable},
		{"table.DescribeTable", 0, false, false, table.DescribeTable}, {"table.FDescribeTable", 0, true, false, table.FDescribeTable}, {"table.PDescribeTable", 0, false, true, table.PDescribeTable}, {"table.XDescribeTable", 0, false, true, table.XDescribeTable},
	} {
		t.call = tab(t.call)
		out = append(out, t)
	}
	return out
}

//go:noinline
func viaHelper(f func(string, ...any) bool, text string, args ...any) {
	ginkgo.GinkgoHelper()
	f(text, args...)
}

//go:noinline
func viaPlain(f func(string, ...any) bool, text string, args ...any) {
	f(text, args...)
}

func c31names(c *lib.Ctx) {
	as := c31aliases()
	c.Bound("names", fmt.Sprintf("%d names for containers, specs and tables, called directly, through a helper, with an offset and with an explicit location, with further decorators", len(as)))
	for _, a := range as {
		for how := 0; how < 4; how++ {
			for _, extra := range []string{"", "focus", "pending", "label"} {
				if !c.Mine() || c.Stop() {
					continue
				}
				kase := fmt.Sprintf("name %s, location %d, extra %q", a.name, how, extra)
				if !c.Only(kase) {
					continue
				}
				c.Add("evaluations", 1)
				c.Add("states", 1)
				c.Case(kase)
				focus, pending, ran, other := a.focus, a.pending, 0, 0
				wantLine := 0
				decl := func() {
					var args []any
					switch extra {
					case "focus":
						args, focus = append(args, ginkgo.Focus), true
					case "pending":
						args, pending = append(args, ginkgo.Pending), true
					case "label":
						args = append(args, ginkgo.Label("lbl"))
					}
					switch a.t {
					case types.NodeTypeContainer:
						args = append(args, func() { ginkgo.It("inside", func() { ran++ }) })
					case types.NodeTypeIt:
						args = append(args, func() { ran++ })
					}
					switch how {
					case 0:
						wantLine = here() + 1
						a.call("text", args...)
					case 1:
						wantLine = here() + 1
						viaHelper(a.call, "text", args...)
					case 2:
						wantLine = here() + 1
						viaPlain(a.call, "text", append(args, ginkgo.Offset(1))...)
					case 3:
						a.call("text", append(args, at(77))...)
					}
					ginkgo.It("other", at(5), func() { other++ })
				}
				isTable := a.t == 0
				if isTable && how >= 2 {
					continue // (a table passes the decorators on to its container, whose location is its own)
				}
				o := program(decl, true)
				if focus && pending {
					judge(c, kase, o, []rejection{{eFP, where(how, wantLine)}})
					continue
				}
				if !judge(c, kase, o, nil) {
					continue
				}
				var main, oth types.SpecReport
				for _, s := range o.specs {
					if !s.LeafNodeType.Is(types.NodeTypeIt) {
						continue
					}
					if s.LeafNodeText == "other" {
						oth = s
					} else {
						main = s
					}
				}
				wm, wo := types.SpecStatePassed, types.SpecStatePassed
				if pending {
					wm = types.SpecStatePending
				}
				if focus {
					wo = types.SpecStateSkipped
				}
				wr := 1
				if isTable || pending {
					wr = 0
				}
				if main.State != wm || oth.State != wo || ran != wr || (other == 1) != (wo == types.SpecStatePassed) {
					c.Violation("a name of the DSL does not do what it stands for", kase, fmt.Sprintf("state %s, want %s; the other spec %s, want %s; ran %d, want %d", main.State, wm, oth.State, wo, ran, wr))
				}
				var l types.CodeLocation
				var ls []string
				if a.t == types.NodeTypeIt {
					l, ls = main.LeafNodeLocation, main.LeafNodeLabels
				} else if len(main.ContainerHierarchyLocations) == 1 && strings.HasSuffix(main.ContainerHierarchyTexts[0], "text") {
					l, ls = main.ContainerHierarchyLocations[0], main.ContainerHierarchyLabels[0]
				}
				if !strings.HasSuffix(fmt.Sprintf("%s:%d\n", l.FileName, l.LineNumber), where(how, wantLine)+"\n") {
					c.Violation("a node is not at the location of its call", kase, fmt.Sprintf("%s, want %s", l, where(how, wantLine)))
				}
				if (extra == "label") != (len(ls) == 1) {
					c.Violation("a label is lost", kase, fmt.Sprint(ls))
				}
			}
		}
	}
	// the other names: their locations show in errors
	type named struct {
		name string
		call func(a ...any)
	}
	bad := struct{}{}
	for _, n := range []named{
		{"BeforeEach", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.BeforeEach(append(a, nop, bad)...) }},
		{"JustBeforeEach", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.JustBeforeEach(append(a, nop, bad)...) }},
		{"AfterEach", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.AfterEach(append(a, nop, bad)...) }},
		{"JustAfterEach", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.JustAfterEach(append(a, nop, bad)...) }},
		{"BeforeAll", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.BeforeAll(append(a, nop, bad)...) }},
		{"AfterAll", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.AfterAll(append(a, nop, bad)...) }},
		{"BeforeSuite", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.BeforeSuite(nop, append(a, bad)...) }},
		{"AfterSuite", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.AfterSuite(nop, append(a, bad)...) }},
		{"SynchronizedBeforeSuite", func(a ...any) {
			ginkgo.GinkgoHelper()
			ginkgo.SynchronizedBeforeSuite(nop, nop, append(a, bad)...)
		}},
		{"SynchronizedAfterSuite", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.SynchronizedAfterSuite(nop, nop, append(a, bad)...) }},
		{"ReportBeforeEach", func(a ...any) {
			ginkgo.GinkgoHelper()
			ginkgo.ReportBeforeEach(func(ginkgo.SpecReport) {}, append(a, bad)...)
		}},
		{"ReportAfterEach", func(a ...any) {
			ginkgo.GinkgoHelper()
			ginkgo.ReportAfterEach(func(ginkgo.SpecReport) {}, append(a, bad)...)
		}},
		{"ReportBeforeSuite", func(a ...any) {
			ginkgo.GinkgoHelper()
			ginkgo.ReportBeforeSuite(func(ginkgo.Report) {}, append(a, bad)...)
		}},
		{"ReportAfterSuite", func(a ...any) {
			ginkgo.GinkgoHelper()
			ginkgo.ReportAfterSuite("r", func(ginkgo.Report) {}, append(a, bad)...)
		}},
		{"DeferCleanup", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.DeferCleanup(append(a, nop)...) }},
		{"By", func(a ...any) { ginkgo.GinkgoHelper(); ginkgo.By("x") }},
		{"core.BeforeEach", func(a ...any) { ginkgo.GinkgoHelper(); core.BeforeEach(append(a, nop, bad)...) }},
		{"core.AfterEach", func(a ...any) { ginkgo.GinkgoHelper(); core.AfterEach(append(a, nop, bad)...) }},
		{"reporting.ReportAfterEach", func(a ...any) {
			ginkgo.GinkgoHelper()
			reporting.ReportAfterEach(func(ginkgo.SpecReport) {}, append(a, bad)...)
		}},
	} {
		for how := 0; how < 3; how++ {
			if !c.Mine() || (n.name == "By" && how == 2) {
				continue
			}
			kase := fmt.Sprintf("name %s, location %d", n.name, how)
			if !c.Only(kase) {
				continue
			}
			c.Add("evaluations", 1)
			c.Add("states", 1)
			c.Case(kase)
			line := 0
			o := program(func() {
				switch how {
				case 0:
					line = here() + 1
					n.call()
				case 1:
					line = here() + 1
					viaHelper(func(string, ...any) bool { ginkgo.GinkgoHelper(); n.call(); return true }, "")
				case 2:
					n.call(at(77))
				}
			}, false)
			w := where(how, line)
			if how == 2 {
				w = loc(77)
			}
			if !o.exited || !strings.Contains(o.errs, w+"\n") {
				c.Violation("an error is not at the location of the call", kase, fmt.Sprintf("want %s\n%s", w, o.errs))
			}
		}
	}
}

// here is the line it is called at.
func here() int {
	_, _, l, _ := runtime.Caller(1)
	return l
}

func where(how, line int) string {
	if how == 3 {
		return loc(77)
	}
	return fmt.Sprintf("structure_test.go:%d", line)
}
