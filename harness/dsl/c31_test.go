package dsl

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C31"] = c31 }

/* ---------- the rules for a single node ---------- */

var nodeTypes = []types.NodeType{types.NodeTypeContainer, types.NodeTypeIt, types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeBeforeAll, types.NodeTypeAfterAll,
	types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite, types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite, types.NodeTypeCleanupInvalid}

const (
	ntLeafEach = types.NodeTypeBeforeEach | types.NodeTypeJustBeforeEach | types.NodeTypeAfterEach | types.NodeTypeJustAfterEach
	ntAny      = ^types.NodeType(0)
)

// what a node is expected to be
type expect struct {
	focus, pending, serial, ordered, cof, opo bool
	flake, mustPass                           int
	labels                                    []string
	pa, pi, nt, st, gp                        time.Duration
	errs                                      map[string]bool
	cl                                        *types.CodeLocation
}

func (e *expect) addLabels(ls ...string) {
	for _, l := range ls {
		have := false
		for _, x := range e.labels {
			have = have || x == l
		}
		if !have {
			e.labels = append(e.labels, l)
		}
	}
}

type decorator struct {
	name string
	val  any
	on   types.NodeType // where it is allowed
	set  func(e *expect)
}

type unknown struct{ A int }

func heading(err error) string {
	if g, ok := err.(types.GinkgoError); ok {
		return g.Heading
	}
	return "not a GinkgoError: " + err.Error()
}

var ge = types.GinkgoErrors
var nocl = types.CodeLocation{}
var (
	eWhere     = heading(ge.InvalidDecoratorForNodeType(nocl, types.NodeTypeIt, "x"))
	eFP        = heading(ge.InvalidDeclarationOfFocusedAndPending(nocl, types.NodeTypeIt))
	eFM        = heading(ge.InvalidDeclarationOfFlakeAttemptsAndMustPassRepeatedly(nocl, types.NodeTypeIt))
	eUnknown   = heading(ge.UnknownDecorator(nocl, types.NodeTypeIt, 1))
	eBody      = heading(ge.InvalidBodyType(reflect.TypeOf(1), nocl, types.NodeTypeIt))
	eMulti     = heading(ge.MultipleBodyFunctions(nocl, types.NodeTypeIt))
	eMissing   = heading(ge.MissingBodyFunction(nocl, types.NodeTypeIt))
	eTimeout   = heading(ge.InvalidTimeoutOrGracePeriodForNonContextNode(nocl, types.NodeTypeIt))
	eCOF       = heading(ge.InvalidContinueOnFailureDecoration(nocl))
	eLabel     = heading(ge.InvalidLabel("x", nocl))
	eEmptyL    = heading(ge.InvalidEmptyLabel(nocl))
	eSerialOrd = heading(ge.InvalidSerialNodeInNonSerialOrderedContainer(nocl, types.NodeTypeIt))
	eNotOrd    = heading(ge.SetupNodeNotInOrderedContainer(nocl, types.NodeTypeBeforeAll))
)

var atLoc = types.CodeLocation{FileName: "/elsewhere/a_test.go", LineNumber: 4711}
var atLoc2 = types.CodeLocation{FileName: "/elsewhere/b_test.go", LineNumber: 42}

var decorators = []decorator{
	{"Focus", internal.Focus, types.NodeTypesForContainerAndIt, func(e *expect) { e.focus = true }},
	{"Pending", internal.Pending, types.NodeTypesForContainerAndIt, func(e *expect) { e.pending = true }},
	{"Serial", internal.Serial, types.NodeTypesForContainerAndIt, func(e *expect) { e.serial = true; e.addLabels("Serial") }},
	{"Ordered", internal.Ordered, types.NodeTypeContainer, func(e *expect) { e.ordered = true }},
	{"ContinueOnFailure", internal.ContinueOnFailure, types.NodeTypeContainer, func(e *expect) { e.cof = true }},
	{"OncePerOrdered", internal.OncePerOrdered, ntLeafEach, func(e *expect) { e.opo = true }},
	{"SuppressProgressReporting", internal.SuppressProgressReporting, ntAny, func(e *expect) {}},
	{"FlakeAttempts(2)", internal.FlakeAttempts(2), types.NodeTypesForContainerAndIt, func(e *expect) { e.flake = 2 }},
	{"FlakeAttempts(0)", internal.FlakeAttempts(0), types.NodeTypesForContainerAndIt, func(e *expect) { e.flake = 0 }},
	{"MustPassRepeatedly(3)", internal.MustPassRepeatedly(3), types.NodeTypesForContainerAndIt, func(e *expect) { e.mustPass = 3 }},
	{"Label(a)", internal.Labels{"a"}, types.NodeTypesForContainerAndIt, func(e *expect) { e.addLabels("a") }},
	{"Label( b ,a)", internal.Labels{" b ", "a"}, types.NodeTypesForContainerAndIt, func(e *expect) { e.addLabels("b", "a") }},
	{"Label(k:v)", internal.Labels{"k:v w"}, types.NodeTypesForContainerAndIt, func(e *expect) { e.addLabels("k:v w") }},
	{"Label()", internal.Labels{}, types.NodeTypesForContainerAndIt, func(e *expect) {}},
	{"Label(<blank>)", internal.Labels{" "}, types.NodeTypesForContainerAndIt, func(e *expect) { e.errs[eEmptyL] = true }},
	{"Label(x&&y)", internal.Labels{"x&&y"}, types.NodeTypesForContainerAndIt, func(e *expect) { e.errs[eLabel] = true }},
	{"Label(:v)", internal.Labels{":v"}, types.NodeTypesForContainerAndIt, func(e *expect) { e.errs[eLabel] = true }},
	{"PollProgressAfter(5s)", internal.PollProgressAfter(5 * time.Second), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.pa = 5 * time.Second }},
	{"PollProgressAfter(0)", internal.PollProgressAfter(0), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.pa = 0 }},
	{"PollProgressInterval(6s)", internal.PollProgressInterval(6 * time.Second), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.pi = 6 * time.Second }},
	{"NodeTimeout(7s)", internal.NodeTimeout(7 * time.Second), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.nt = 7 * time.Second }},
	{"NodeTimeout(0)", internal.NodeTimeout(0), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.nt = 0 }},
	{"SpecTimeout(8s)", internal.SpecTimeout(8 * time.Second), types.NodeTypeIt, func(e *expect) { e.st = 8 * time.Second }},
	{"GracePeriod(9s)", internal.GracePeriod(9 * time.Second), ntAny &^ types.NodeTypeContainer, func(e *expect) { e.gp = 9 * time.Second }},
	{"CodeLocation", atLoc, ntAny, func(e *expect) { e.cl = &atLoc }},
	{"CodeLocation2", atLoc2, ntAny, func(e *expect) { e.cl = &atLoc2 }},
	{"float64", float64(0.5), ntAny, func(e *expect) {}},
	{"string", "huh", ntAny, func(e *expect) { e.errs[eUnknown] = true }},
	{"duration", 3 * time.Second, ntAny, func(e *expect) { e.errs[eUnknown] = true }},
	{"struct", unknown{1}, ntAny, func(e *expect) { e.errs[eUnknown] = true }},
	{"nil", nil, ntAny, func(e *expect) { e.errs[eUnknown] = true }},
	{"[]any{}", []any{}, ntAny, func(e *expect) {}},
}

// marks what body functions were called with
type called struct {
	name string
	ctx  any
	data any
}

var calls []called

func mark(name string, ctx any, data any) { calls = append(calls, called{name, ctx, data}) }

type namedFunc func()
type namedCtxFunc func(internal.SpecContext)
type ownContext struct{ context.Context }
type wideContext interface {
	internal.SpecContext
	More()
}

// what a function can serve as
const (
	bNone      = 1 << iota
	bContainer // func()
	bLeaf      // func(), func(SpecContext), func(context.Context)
	bEach      // of a ReportBeforeEach or ReportAfterEach
	bSuite     // of a ReportBeforeSuite or ReportAfterSuite
	bSync1
	bSyncAll
)

type body struct {
	name string
	val  any
	for_ int
	ctx  bool
}

var bodies = []body{
	{"func()", func() { mark("func()", nil, nil) }, bContainer | bLeaf | bSync1 | bSyncAll, false},
	{"func(SpecContext)", func(c internal.SpecContext) { mark("func(SpecContext)", c, nil) }, bLeaf | bSync1 | bSyncAll, true},
	{"func(Context)", func(c context.Context) { mark("func(Context)", c, nil) }, bLeaf | bSync1 | bSyncAll, true},
	{"func() []byte", func() []byte { mark("func() []byte", nil, nil); return []byte("out") }, bSync1, false},
	{"func(SpecContext) []byte", func(c internal.SpecContext) []byte { mark("func(SpecContext) []byte", c, nil); return []byte("out") }, bSync1, true},
	{"func(Context) []byte", func(c context.Context) []byte { mark("func(Context) []byte", c, nil); return []byte("out") }, bSync1, true},
	{"func([]byte)", func(b []byte) { mark("func([]byte)", nil, b) }, bSyncAll, false},
	{"func(SpecContext,[]byte)", func(c internal.SpecContext, b []byte) { mark("func(SpecContext,[]byte)", c, b) }, bSyncAll, true},
	{"func(Context,[]byte)", func(c context.Context, b []byte) { mark("func(Context,[]byte)", c, b) }, bSyncAll, true},
	{"func([]byte,Context)", func(b []byte, c context.Context) { mark("func([]byte,Context)", c, b) }, 0, false},
	{"func(SpecReport)", func(r types.SpecReport) { mark("func(SpecReport)", nil, r.LeafNodeText) }, bEach, false},
	{"func(SpecContext,SpecReport)", func(c internal.SpecContext, r types.SpecReport) {
		mark("func(SpecContext,SpecReport)", c, r.LeafNodeText)
	}, bEach, true},
	{"func(Report)", func(r types.Report) { mark("func(Report)", nil, r.SuiteDescription) }, bSuite, false},
	{"func(SpecContext,Report)", func(c internal.SpecContext, r types.Report) { mark("func(SpecContext,Report)", c, r.SuiteDescription) }, bSuite, true},
	{"func(int)", func(int) {}, 0, false},
	{"func() int", func() int { return 1 }, 0, false},
	{"func() string", func() string { return "" }, 0, false},
	{"func() ([]byte, error)", func() ([]byte, error) { return nil, nil }, 0, false},
	{"func(SpecContext, int)", func(internal.SpecContext, int) {}, 0, false},
	{"func(SpecContext) error", func(internal.SpecContext) error { return nil }, 0, false},
	{"func(ownContext)", func(ownContext) {}, 0, false},
	{"func(wideContext)", func(wideContext) {}, 0, false},
	{"namedFunc", namedFunc(func() { mark("namedFunc", nil, nil) }), bContainer | bLeaf | bSync1 | bSyncAll, false},
	{"namedCtxFunc", namedCtxFunc(func(c internal.SpecContext) { mark("namedCtxFunc", c, nil) }), bLeaf | bSync1 | bSyncAll, true},
}

func slots(t types.NodeType) []int {
	switch {
	case t.Is(types.NodeTypeContainer):
		return []int{bContainer}
	case t.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
		return []int{bEach}
	case t.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
		return []int{bSuite}
	case t.Is(types.NodeTypeSynchronizedBeforeSuite):
		return []int{bSync1, bSyncAll}
	case t.Is(types.NodeTypeSynchronizedAfterSuite):
		return []int{bLeaf, bLeaf}
	}
	return []int{bLeaf}
}

var tracker = types.NewDeprecationTracker()

// newNode stands for the DSL function, so that the location is that of its caller.
func newNode(t types.NodeType, args []any) (n internal.Node, errs []error, panicked any) {
	defer func() { panicked = recover() }()
	n, errs = internal.NewNode(tracker, t, "text", args...)
	return
}

type c31case struct {
	t      types.NodeType
	decs   []int
	bodies []int
	pos    int // how many decorators come before the bodies
	shape  int
}

func (k c31case) String() string {
	var ds, bs []string
	for _, d := range k.decs {
		ds = append(ds, decorators[d].name)
	}
	for _, b := range k.bodies {
		bs = append(bs, bodies[b].name)
	}
	return fmt.Sprintf("node=%s decorators=[%s] bodies=[%s] body-after=%d nesting=%d", k.t, strings.Join(ds, " "), strings.Join(bs, " "), k.pos, k.shape)
}

// nest presents the arguments in different nestings of slices.
func nest(args []any, shape int) []any {
	switch shape {
	case 1:
		return []any{args}
	case 2:
		if len(args) < 2 {
			return []any{[]any{[]any{args}}}
		}
		return []any{args[0], []any{args[1:]}}
	case 3:
		out := []any{}
		for _, a := range args {
			out = append(out, []any{a})
		}
		return out
	}
	return args
}

func c31node(c *lib.Ctx, k c31case) {
	kase := k.String()
	if !c.Only(kase) {
		return
	}
	c.Add("evaluations", 1)
	c.Case(kase)
	var args []any
	e := &expect{pa: -1, pi: -1, gp: -1, errs: map[string]bool{}}
	for i, d := range k.decs {
		if i == k.pos {
			for _, b := range k.bodies {
				args = append(args, bodies[b].val)
			}
		}
		args = append(args, decorators[d].val)
		decorators[d].set(e)
		if !k.t.Is(decorators[d].on) {
			e.errs[eWhere] = true
		}
	}
	if k.pos >= len(k.decs) {
		for _, b := range k.bodies {
			args = append(args, bodies[b].val)
		}
	}
	masked := map[string]bool{} // rules whose violation need not be reported in addition
	sl := slots(k.t)
	ctx, badBody := false, false
	for i, b := range k.bodies {
		if i >= len(sl) {
			e.errs[eMulti] = true
			break
		}
		if bodies[b].for_&sl[i] == 0 {
			badBody = true
		} else {
			ctx = ctx || bodies[b].ctx
		}
	}
	if badBody {
		e.errs[eBody] = true
		masked[eMulti], masked[eMissing] = true, true
	} else if len(k.bodies) < len(sl) && !(e.pending && len(sl) == 1 && sl[0]&(bContainer|bLeaf) != 0) {
		e.errs[eMissing] = true
	}
	if e.focus && e.pending {
		e.errs[eFP] = true
	}
	if e.flake > 0 && e.mustPass > 0 {
		e.errs[eFM] = true
	}
	if e.cof && !e.ordered {
		e.errs[eCOF] = true
	}
	if !ctx && (e.nt > 0 || e.st > 0 || e.gp > 0) {
		masked[eTimeout] = len(e.errs) > 0
		e.errs[eTimeout] = true
	}
	if k.t.Is(types.NodeTypeReportBeforeEach|types.NodeTypeReportAfterEach|types.NodeTypeReportBeforeSuite|types.NodeTypeReportAfterSuite) && len(k.bodies) == 0 {
		return // the DSL functions have the body as a parameter
	}

	n, errs, p := newNode(k.t, nest(args, k.shape))
	if p != nil {
		c.Violation(fmt.Sprintf("making a node panics: %v", p), kase, "")
		return
	}
	got := map[string]bool{}
	for _, err := range errs {
		h := heading(err)
		got[h] = true
		if !e.errs[h] && !(masked[h] && badBody) {
			c.Violation("a node is rejected for a rule it does not break: "+h, kase, err.Error())
		}
		g, _ := err.(types.GinkgoError)
		if e.cl != nil && (g.CodeLocation.FileName != e.cl.FileName || g.CodeLocation.LineNumber != e.cl.LineNumber) {
			c.Violation("the error is not at the location of the node", kase, fmt.Sprintf("%s: %s", h, g.CodeLocation))
		} else if e.cl == nil && !strings.HasSuffix(g.CodeLocation.FileName, "c31_test.go") {
			c.Violation("the error is not at the location of the node", kase, fmt.Sprintf("%s: %s", h, g.CodeLocation))
		}
	}
	for h := range e.errs {
		if !got[h] && !masked[h] {
			c.Violation("the violation of a rule is not reported: "+h, kase, fmt.Sprint(lib.SortedKeys(got)))
		}
	}
	if len(errs) > 0 {
		c.Add("rejected", 1)
		if !n.IsZero() {
			c.Violation("a rejected node is returned all the same", kase, "")
		}
		return
	}
	c.Add("accepted", 1)
	if len(e.errs) > 0 {
		return // (reported above)
	}
	// what was accepted is in effect
	lab := &expect{}
	lab.addLabels(n.Labels...)
	have := fmt.Sprintf("%v %v %v %v %v %v flake=%d mustpass=%d labels=%q after=%v interval=%v nt=%v st=%v gp=%v ctx=%v text=%s type=%s", n.MarkedFocus, n.MarkedPending, n.MarkedSerial, n.MarkedOrdered, n.MarkedContinueOnFailure, n.MarkedOncePerOrdered, n.FlakeAttempts, n.MustPassRepeatedly, lab.labels, n.PollProgressAfter, n.PollProgressInterval, n.NodeTimeout, n.SpecTimeout, n.GracePeriod,
		n.HasContext || n.SynchronizedBeforeSuiteProc1BodyHasContext || n.SynchronizedBeforeSuiteAllProcsBodyHasContext || n.SynchronizedAfterSuiteAllProcsBodyHasContext || n.SynchronizedAfterSuiteProc1BodyHasContext, n.Text, n.NodeType)
	want := fmt.Sprintf("%v %v %v %v %v %v flake=%d mustpass=%d labels=%q after=%v interval=%v nt=%v st=%v gp=%v ctx=%v text=%s type=%s", e.focus, e.pending, e.serial, e.ordered, e.cof, e.opo, e.flake, e.mustPass, e.labels, e.pa, e.pi, e.nt, e.st, e.gp, ctx, "text", k.t)
	if have != want {
		c.Violation("a decorator is not in effect as given", kase, have+"\nwant "+want)
	}
	if e.cl != nil && (n.CodeLocation.FileName != e.cl.FileName || n.CodeLocation.LineNumber != e.cl.LineNumber) || e.cl == nil && !strings.HasSuffix(n.CodeLocation.FileName, "c31_test.go") {
		c.Violation("the node has another location", kase, n.CodeLocation.String())
	}
	// the bodies are the functions given, each in its place
	calls = calls[:0]
	sctx := internal.NewSpecContext(nil)
	wantCalls := []called{}
	var data any
	switch {
	case k.t.Is(types.NodeTypeReportBeforeEach | types.NodeTypeReportAfterEach):
		n.ReportEachBody(sctx, types.SpecReport{LeafNodeText: "rep"})
		data = "rep"
	case k.t.Is(types.NodeTypeReportBeforeSuite | types.NodeTypeReportAfterSuite):
		n.ReportSuiteBody(sctx, types.Report{SuiteDescription: "rep"})
		data = "rep"
	case k.t.Is(types.NodeTypeSynchronizedBeforeSuite):
		out := n.SynchronizedBeforeSuiteProc1Body(sctx)
		if w := strings.HasSuffix(bodies[k.bodies[0]].name, "[]byte"); w && string(out) != "out" || !w && len(out) > 0 {
			c.Violation("the result of a body is lost", kase, string(out))
		}
		n.SynchronizedBeforeSuiteAllProcsBody(sctx, []byte("in"))
	case k.t.Is(types.NodeTypeSynchronizedAfterSuite):
		n.SynchronizedAfterSuiteAllProcsBody(sctx)
		n.SynchronizedAfterSuiteProc1Body(sctx)
	case n.Body != nil:
		n.Body(sctx)
	}
	for _, b := range k.bodies {
		w := called{name: bodies[b].name}
		if bodies[b].ctx {
			w.ctx = sctx
		}
		w.data = data
		if strings.HasSuffix(w.name, "[]byte)") {
			w.data = []byte("in")
		}
		wantCalls = append(wantCalls, w)
	}
	if len(calls) != len(wantCalls) {
		c.Violation("the body is not the function given", kase, fmt.Sprint(calls))
		return
	}
	for i := range calls {
		if calls[i].name != wantCalls[i].name || calls[i].ctx != wantCalls[i].ctx || !reflect.DeepEqual(calls[i].data, wantCalls[i].data) {
			c.Violation("the body is not the function given, or not given what it takes", kase, fmt.Sprint(calls))
		}
	}
}

func c31(c *lib.Ctx) {
	c31names(c)
	c31running(c)
	c31pairs(c)
	c31contexts(c)
	c31cleanups(c)
	c31matrix(c)
}

func c31matrix(c *lib.Ctx) {
	nd, nb := len(decorators), len(bodies)
	c.Bound("node kinds", fmt.Sprint(len(nodeTypes)))
	c.Bound("decorators", fmt.Sprintf("%d values", nd))
	c.Bound("bodies", fmt.Sprintf("%d function types", nb))
	var decSets [][]int
	decSets = append(decSets, nil)
	for i := 0; i < nd; i++ {
		decSets = append(decSets, []int{i})
		for j := 0; j < nd; j++ {
			decSets = append(decSets, []int{i, j})
		}
	}
	some := []int{0, 1, 2} // the ordinary bodies
	for _, t := range nodeTypes {
		sl := slots(t)
		// up to two decorators in either order, every body or none, every position and nesting
		for _, ds := range decSets {
			if !c.Mine() {
				continue
			}
			if c.Stop() {
				return
			}
			var bsets [][]int
			bsets = append(bsets, nil)
			for b := 0; b < nb; b++ {
				if len(sl) == 2 {
					for _, b2 := range some {
						bsets = append(bsets, []int{b, b2}, []int{b2, b})
					}
				}
				bsets = append(bsets, []int{b})
			}
			for _, bs := range bsets {
				for pos := 0; pos <= len(ds); pos++ {
					for shape := 0; shape < 4; shape++ {
						if len(sl) == 2 && shape > 0 && len(ds) == 2 && !c.Thorough() {
							continue
						}
						c31node(c, c31case{t, ds, bs, pos, shape})
					}
				}
			}
		}
		// three decorators
		for i := 0; i < nd; i++ {
			for j := 0; j < nd; j++ {
				if !c.Mine() {
					continue
				}
				if c.Stop() {
					return
				}
				for l := 0; l < nd; l++ {
					if !c.Thorough() && (l < j || j < i) {
						continue // as sets
					}
					for b := -1; b < nb; b++ {
						if b >= 3 && bodies[b].for_&(bEach|bSuite) == 0 {
							continue
						}
						var bs []int
						if b >= 0 {
							bs = []int{b}
							if len(sl) == 2 {
								bs = []int{b, 2}
							}
						}
						c31node(c, c31case{t, []int{i, j, l}, bs, 0, 0})
						if c.Thorough() {
							c31node(c, c31case{t, []int{i, j, l}, bs, 3, 2})
						}
					}
				}
			}
		}
		// several bodies
		for b := 0; b < nb; b++ {
			for b2 := 0; b2 < nb; b2++ {
				if !c.Mine() {
					continue
				}
				if c.Stop() {
					return
				}
				for d := -1; d < nd; d++ {
					var ds []int
					if d >= 0 {
						ds = []int{d}
					}
					for pos := 0; pos <= len(ds); pos++ {
						for shape := 0; shape < 4; shape++ {
							c31node(c, c31case{t, ds, []int{b, b2}, pos, shape})
						}
					}
				}
				for b3 := 0; b3 < nb; b3++ {
					c31node(c, c31case{t, nil, []int{b, b2, b3}, 0, 0})
				}
			}
		}
	}
}
