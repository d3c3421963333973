package dsl

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C30"] = c30 }

/* ---------- what a table can be made of ---------- */

// a parameter and the types of parameters that take it
type param struct {
	name string
	val  any
	fits string
}

type stringy string
type errT struct{}

func (errT) Error() string { return "errT" }

var theErr = errors.New("an error")

var params = []param{
	{"string", "a", "string any"},
	{"string2", "b %d", "string any"},
	{"int", 7, "int any"},
	{"nil", nil, "string int any error *int []string Context stringy func()"},
	{"*int", &theInt, "*int any"},
	{"error", theErr, "error any"},
	{"errT", errT{}, "error any"},
	{"stringy", stringy("s"), "stringy any"},
	{"[]string", []string{"x", "y"}, "[]string any"},
	{"context", ownCtx, "Context any"},
}

func (p param) fitsType(t string) bool {
	for _, f := range strings.Fields(p.fits) {
		if f == t {
			return true
		}
	}
	return false
}

// a function with its parameters; rec is told what it was called with
type tableFn struct {
	name string
	in   []string
	vari bool
	ctx  string // "", "SpecContext" or "Context": takes a context first
	good []int  // parameters that suit it
	mk   func(rec func(ctx any, args ...any)) any
}

func anys[T any](xs []T) []any {
	out := []any{}
	for _, x := range xs {
		out = append(out, x)
	}
	return out
}

var tableFns = []tableFn{
	{"()", nil, false, "", nil, func(r func(any, ...any)) any { return func() { r(nil) } }},
	{"(string)", []string{"string"}, false, "", []int{0}, func(r func(any, ...any)) any { return func(s string) { r(nil, s) } }},
	{"(string,int)", []string{"string", "int"}, false, "", []int{0, 2}, func(r func(any, ...any)) any { return func(s string, i int) { r(nil, s, i) } }},
	{"(int,string,error)", []string{"int", "string", "error"}, false, "", []int{2, 0, 5}, func(r func(any, ...any)) any { return func(i int, s string, e error) { r(nil, i, s, e) } }},
	{"(...int)", []string{"int"}, true, "", []int{2, 2}, func(r func(any, ...any)) any { return func(x ...int) { r(nil, anys(x)...) } }},
	{"(string,...any)", []string{"string", "any"}, true, "", []int{0, 2, 3}, func(r func(any, ...any)) any {
		return func(s string, x ...any) { r(nil, append([]any{s}, x...)...) }
	}},
	{"(any)", []string{"any"}, false, "", []int{8}, func(r func(any, ...any)) any { return func(x any) { r(nil, x) } }},
	{"(error)", []string{"error"}, false, "", []int{6}, func(r func(any, ...any)) any { return func(x error) { r(nil, x) } }},
	{"(*int,stringy)", []string{"*int", "stringy"}, false, "", []int{4, 7}, func(r func(any, ...any)) any { return func(p *int, s stringy) { r(nil, p, s) } }},
	{"([]string)", []string{"[]string"}, false, "", []int{8}, func(r func(any, ...any)) any { return func(x []string) { r(nil, x) } }},
	{"(SpecContext)", nil, false, "SpecContext", nil, func(r func(any, ...any)) any { return func(c ginkgo.SpecContext) { r(c) } }},
	{"(SpecContext,string)", []string{"string"}, false, "SpecContext", []int{0}, func(r func(any, ...any)) any { return func(c ginkgo.SpecContext, s string) { r(c, s) } }},
	{"(Context)", nil, false, "Context", nil, func(r func(any, ...any)) any { return func(c context.Context) { r(c) } }},
	{"(Context,string)", []string{"string"}, false, "Context", []int{0}, func(r func(any, ...any)) any { return func(c context.Context, s string) { r(c, s) } }},
	{"(Context,...string)", []string{"string"}, true, "Context", []int{0, 1}, func(r func(any, ...any)) any { return func(c context.Context, s ...string) { r(c, anys(s)...) } }},
	{"(string,Context)", []string{"string", "Context"}, false, "", []int{0, 9}, func(r func(any, ...any)) any { return func(s string, c context.Context) { r(nil, s, c) } }},
	{"(...Context)", []string{"Context"}, true, "", []int{9}, func(r func(any, ...any)) any { return func(c ...context.Context) { r(nil, anys(c)...) } }},
}

// suits says whether fn can be called with the parameters, and whether it is given a context of Ginkgo's.
func (f tableFn) suits(ps []int) (ok, gctx bool) {
	rest := ps
	gctx = f.ctx != ""
	if f.ctx == "Context" && len(ps) > 0 && params[ps[0]].name == "context" {
		gctx, rest = false, ps[1:]
	}
	if !f.vari && len(rest) != len(f.in) || f.vari && len(rest) < len(f.in)-1 {
		return false, gctx
	}
	for i, p := range rest {
		if !params[p].fitsType(f.in[min(i, len(f.in)-1)]) {
			return false, gctx
		}
	}
	return true, gctx
}

func zeroOf(t string) any {
	switch t {
	case "string":
		return ""
	case "int":
		return 0
	case "stringy":
		return stringy("")
	case "*int":
		return (*int)(nil)
	case "[]string":
		return []string(nil)
	}
	return nil
}

// args are what the body is to be called with.
func (f tableFn) args(ps []int, gctx bool) []any {
	rest := ps
	if f.ctx != "" && !gctx {
		rest = ps[1:]
	}
	out := []any{}
	for i, p := range rest {
		v := params[p].val
		if v == nil {
			v = zeroOf(f.in[min(i, len(f.in)-1)])
		}
		out = append(out, v)
	}
	return out
}

// how an entry is described
type desc struct {
	name   string
	val    any
	render func(ps []any) (string, bool) // its text, or false if the description does not suit the entry
}

func defaultDesc(ps []any) (string, bool) {
	var out []string
	for _, p := range ps {
		out = append(out, fmt.Sprint(p))
	}
	return "Entry: " + strings.Join(out, ", "), true
}

func sprintf(f string) func(ps []any) (string, bool) {
	return func(ps []any) (string, bool) { return fmt.Sprintf(f, ps...), true }
}

func oneString(f func(string) string) func(ps []any) (string, bool) {
	return func(ps []any) (string, bool) {
		if len(ps) != 1 {
			return "", false
		}
		if ps[0] == nil {
			return f(""), true
		}
		s, ok := ps[0].(string)
		return f(s), ok
	}
}

var bracket = func(s string) string { return "<" + s + ">" }

var entryDescs = []desc{
	{"string", "an entry", func([]any) (string, bool) { return "an entry", true }},
	{"string with %", "100%d", func([]any) (string, bool) { return "100%d", true }},
	{"nil", nil, nil}, // as the table says
	{"EntryDescription", ginkgo.EntryDescription("%v|%v"), sprintf("%v|%v")},
	{"func(string)", bracket, oneString(bracket)},
	{"func(...any)", func(x ...any) string { return fmt.Sprint(len(x)) }, func(ps []any) (string, bool) { return fmt.Sprint(len(ps)), true }},
	{"int", 5, func([]any) (string, bool) { return "", false }},
	{"func() int", func() int { return 1 }, func([]any) (string, bool) { return "", false }},
	{"func()", func() {}, func([]any) (string, bool) { return "", false }},
}

var tableDescs = []desc{
	{"none", nil, defaultDesc},
	{"EntryDescription", ginkgo.EntryDescription("T %v-%v"), sprintf("T %v-%v")},
	{"func(string)", func(s string) string { return "T" + s }, oneString(func(s string) string { return "T" + s })},
}

// how an entry is decorated
type entryDec struct {
	name           string
	focus, pending bool
	mk             func(d any, args ...any) ginkgo.TableEntry
	decs           []any
	labels         []string
	serial         bool
	flake          int
	bad            bool // not allowed on a spec
	badSub         bool // not allowed on a container
}

var entryDecs = []entryDec{
	{name: "Entry", mk: ginkgo.Entry},
	{name: "FEntry", mk: ginkgo.FEntry, focus: true},
	{name: "PEntry", mk: ginkgo.PEntry, pending: true},
	{name: "XEntry", mk: ginkgo.XEntry, pending: true},
	{name: "Entry+Focus", mk: ginkgo.Entry, decs: []any{ginkgo.Focus}, focus: true},
	{name: "Entry+Pending", mk: ginkgo.Entry, decs: []any{ginkgo.Pending}, pending: true},
	{name: "Entry+Label", mk: ginkgo.Entry, decs: []any{ginkgo.Label("l1", "l2")}, labels: []string{"l1", "l2"}},
	{name: "Entry+[Label,Serial]", mk: ginkgo.Entry, decs: []any{[]any{ginkgo.Label("l1"), ginkgo.Serial}}, labels: []string{"l1", "Serial"}, serial: true},
	{name: "Entry+FlakeAttempts", mk: ginkgo.Entry, decs: []any{ginkgo.FlakeAttempts(3)}, flake: 3},
	{name: "Entry+PollProgressAfter", mk: ginkgo.Entry, decs: []any{ginkgo.PollProgressAfter(time.Hour)}, badSub: true},
	{name: "Entry+OncePerOrdered", mk: ginkgo.Entry, decs: []any{ginkgo.OncePerOrdered}, bad: true},
}

type tableEntry struct {
	ps     []int
	desc   int
	dec    int
	before bool // decorators before the parameters
}

type tableCase struct {
	fn      int
	entries []tableEntry
	tdesc   int
	subtree bool
	slices  int // how the entries are presented
	tdecs   int
	order   int // where body and description stand
}

type tableDec struct {
	name           string
	decs           []any
	focus, pending bool
	ordered        bool
	labels         []string
	f              func(string, ...any) bool
	sub            func(string, ...any) bool
}

var tableDecs = []tableDec{
	{name: "", f: ginkgo.DescribeTable, sub: ginkgo.DescribeTableSubtree},
	{name: "F", f: ginkgo.FDescribeTable, sub: ginkgo.FDescribeTableSubtree, focus: true},
	{name: "P", f: ginkgo.PDescribeTable, sub: ginkgo.PDescribeTableSubtree, pending: true},
	{name: "X", f: ginkgo.XDescribeTable, sub: ginkgo.XDescribeTableSubtree, pending: true},
	{name: "+Label", f: ginkgo.DescribeTable, sub: ginkgo.DescribeTableSubtree, decs: []any{ginkgo.Label("t")}, labels: []string{"t"}},
	{name: "+Ordered", f: ginkgo.DescribeTable, sub: ginkgo.DescribeTableSubtree, decs: []any{ginkgo.Ordered, ginkgo.ContinueOnFailure}, ordered: true},
	{name: "+[Focus,Label]", f: ginkgo.DescribeTable, sub: ginkgo.DescribeTableSubtree, decs: []any{[]any{ginkgo.Focus, ginkgo.Label("t")}}, focus: true, labels: []string{"t"}},
}

func psNames(ps []int) string {
	var out []string
	for _, p := range ps {
		out = append(out, params[p].name)
	}
	return strings.Join(out, ",")
}

func (k tableCase) String() string {
	s := fmt.Sprintf("table%s subtree=%v body=%s description=%s entries-as=%d order=%d", tableDecs[k.tdecs].name, k.subtree, tableFns[k.fn].name, tableDescs[k.tdesc].name, k.slices, k.order)
	for _, e := range k.entries {
		s += fmt.Sprintf(" %s(%s; %s; decorators first=%v)", entryDecs[e.dec].name, entryDescs[e.desc].name, psNames(e.ps), e.before)
	}
	return s
}

type tableCall struct {
	ctx  any
	args []any
}

func sameArgs(a, b []any) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func c30table(c *lib.Ctx, k tableCase) {
	kase := k.String()
	if !c.Only(kase) {
		return
	}
	c.Add("evaluations", 1)
	c.Add("states", 1)
	c.Case(kase)
	fn, td := tableFns[k.fn], tableDecs[k.tdecs]

	// what is expected of each entry
	type exp struct {
		text        string
		ok, gctx    bool
		args        []any
		focus, pend bool
		line        int
		dec         entryDec
	}
	var exps []exp
	var want []rejection
	anyFocus := false
	for i, e := range k.entries {
		d := entryDecs[e.dec]
		x := exp{dec: d, focus: d.focus, pend: d.pending || td.pending, line: 10 + i}
		var vals []any
		for _, p := range e.ps {
			vals = append(vals, params[p].val)
		}
		r := entryDescs[e.desc].render
		if entryDescs[e.desc].val == nil {
			r = tableDescs[k.tdesc].render
		}
		dok := true
		x.text, dok = r(vals)
		if !dok {
			x.text = ""
		}
		var pok bool
		pok, x.gctx = fn.suits(e.ps)
		x.ok = dok && pok
		if pok {
			x.args = fn.args(e.ps, x.gctx)
		}
		if want == nil {
			if d.bad || k.subtree && d.badSub {
				want = append(want, rejection{eWhere, loc(10 + i)})
			}
			if d.serial && td.ordered {
				want = append(want, rejection{eSerialOrd, loc(10 + i)})
			}
			if k.subtree && x.gctx {
				want = append(want, rejection{heading(ge.ContextsCannotBeUsedInSubtreeTables(nocl)), ""})
			}
			if k.subtree && !x.ok && want == nil {
				want = append(want, rejection{ePanic, loc(10 + i)}) // (the container of the entry cannot be built)
			}
		}
		anyFocus = anyFocus || (x.focus || td.focus && !c30focusInside(k)) && !x.pend
		exps = append(exps, x)
	}

	calls := map[int][]tableCall{}
	inside := 0
	var cur func() int
	bodyFn := fn.mk(func(ctx any, args ...any) {
		i := cur()
		calls[i] = append(calls[i], tableCall{ctx, args})
		if k.subtree {
			ginkgo.It("inside", func() { inside++ })
		}
	})
	building := 0
	cur = func() int { // which entry is it: by the location of the running spec, or in order of construction
		if k.subtree {
			building++
			return building - 1
		}
		return ginkgo.CurrentSpecReport().LeafNodeLocation.LineNumber - 10
	}
	other := 0
	o := program(func() {
		var args []any
		args = append(args, td.decs...)
		var es []ginkgo.TableEntry
		for i, e := range k.entries {
			d := entryDecs[e.dec]
			var a []any
			if e.before {
				a = append(a, d.decs...)
			}
			for _, p := range e.ps {
				a = append(a, params[p].val)
			}
			if !e.before {
				a = append(a, d.decs...)
			}
			es = append(es, d.mk(entryDescs[e.desc].val, append(a, at(10+i))...))
		}
		if k.order == 0 {
			args = append(args, bodyFn)
		}
		if v := tableDescs[k.tdesc].val; v != nil && k.order != 2 {
			args = append(args, v)
		}
		switch k.slices {
		case 0:
			args = append(args, anys(es)...)
		case 1:
			args = append(args, es)
		case 2:
			args = append(args, es[:len(es)/2], []ginkgo.TableEntry{})
			args = append(args, anys(es[len(es)/2:])...)
		case 3:
			args = append(args, anys(es[:1])...)
			args = append(args, es[1:])
		}
		if v := tableDescs[k.tdesc].val; v != nil && k.order == 2 {
			args = append(args, v)
		}
		if k.order != 0 {
			args = append(args, bodyFn)
		}
		if k.subtree {
			td.sub("the table", args...)
		} else {
			td.f("the table", args...)
		}
		ginkgo.It("other", at(5), func() { other++ })
	}, true)
	if !judge(c, kase, o, want) || want != nil {
		return
	}
	var got []types.SpecReport
	for _, s := range o.specs {
		if s.LeafNodeType.Is(types.NodeTypeIt) && s.LeafNodeText != "other" {
			got = append(got, s)
		}
	}
	if len(got) != len(exps) {
		c.Violation("a table does not have one spec per entry", kase, fmt.Sprintf("%d specs for %d entries", len(got), len(exps)))
		return
	}
	wantInside := 0
	success := true
	for i, x := range exps {
		s := got[i]
		depth := 1
		text, l, labels := s.LeafNodeText, s.LeafNodeLocation, s.LeafNodeLabels
		if k.subtree {
			depth = 2
			if len(s.ContainerHierarchyTexts) == 2 {
				text, l, labels = s.ContainerHierarchyTexts[1], s.ContainerHierarchyLocations[1], s.ContainerHierarchyLabels[1]
			}
		}
		if len(s.ContainerHierarchyTexts) != depth || s.ContainerHierarchyTexts[0] != "the table" || fmt.Sprint(s.ContainerHierarchyLabels[0]) != fmt.Sprint(td.labels) {
			c.Violation("the specs of a table are not in its container", kase, fmt.Sprint(s.ContainerHierarchyTexts, s.ContainerHierarchyLabels))
			return
		}
		if text != x.text || l.FileName != at(0).FileName || l.LineNumber != x.line {
			c.Violation("the spec of an entry has another description or place, or another position", kase, fmt.Sprintf("entry %d: %q at %s, want %q at line %d", i, text, l, x.text, x.line))
		}
		if fmt.Sprint(labels) != fmt.Sprint(append([]string{}, x.dec.labels...)) || s.IsSerial != x.dec.serial || s.MaxFlakeAttempts != x.dec.flake {
			c.Violation("the decorators of an entry are not those of its spec", kase, fmt.Sprintf("entry %d: %v serial=%v flake=%d", i, labels, s.IsSerial, s.MaxFlakeAttempts))
		}
		ws := types.SpecStatePassed
		focused := x.focus || td.focus && !c30focusInside(k)
		switch {
		case x.pend:
			ws = types.SpecStatePending
		case anyFocus && !focused:
			ws = types.SpecStateSkipped
		case !x.ok:
			ws = types.SpecStatePanicked
		}
		if s.State != ws {
			c.Violation("an entry ends in another state", kase, fmt.Sprintf("entry %d: %s, want %s: %s", i, s.State, ws, s.FailureMessage()))
		}
		if s.State == types.SpecStatePanicked {
			success = false
			if ws == s.State && !strings.Contains(s.Failure.ForwardedPanic, "parameter") {
				c.Violation("an entry whose parameters do not fit is not reported as such", kase, fmt.Sprintf("entry %d: %s", i, s.Failure.ForwardedPanic))
			}
		}
		n := 0
		if ws == types.SpecStatePassed {
			n = 1
		}
		if k.subtree {
			wantInside += n
			n = 1
		}
		if k.subtree && x.pend {
			n = len(calls[i]) // (whether the container of a pending entry is entered does not matter)
		}
		if len(calls[i]) != n {
			c.Violation("the body of a table is not called once for each entry", kase, fmt.Sprintf("entry %d: %d calls, want %d", i, len(calls[i]), n))
		} else if n == 1 {
			call := calls[i][0]
			sc, isSC := call.ctx.(ginkgo.SpecContext)
			okCtx := call.ctx == nil
			if x.gctx {
				okCtx = isSC && sc != nil
			} else if fn.ctx != "" {
				okCtx = call.ctx == ownCtx
			}
			if !okCtx || !sameArgs(call.args, x.args) {
				c.Violation("the body of a table gets other parameters", kase, fmt.Sprintf("entry %d: %v, want %v; context %v", i, call.args, x.args, call.ctx))
			}
		}
	}
	if inside != wantInside && k.subtree {
		c.Violation("the specs of a subtree do not run once each", kase, fmt.Sprint(inside, wantInside))
	}
	if (other == 1) == anyFocus {
		c.Violation("a table affects other specs", kase, fmt.Sprint(other))
	}
	if o.success != success {
		c.Violation("the verdict is another one", kase, fmt.Sprint(o.success))
	}
}

// c30focusInside: a focused container with focused specs inside is not itself focused.
func c30focusInside(k tableCase) bool {
	for _, e := range k.entries {
		if entryDecs[e.dec].focus {
			return true
		}
	}
	return false
}

func c30(c *lib.Ctx) {
	np := len(params)
	maxLen := 3
	c.Bound("bodies", fmt.Sprintf("%d signatures, among them variadic ones and ones that take a context", len(tableFns)))
	c.Bound("parameters", fmt.Sprintf("every list of up to %d of %d values, among them nil, in an entry", maxLen, np))
	c.Bound("descriptions", fmt.Sprintf("%d kinds per entry, %d per table", len(entryDescs), len(tableDescs)))
	c.Bound("decorators", fmt.Sprintf("%d kinds of entries, %d kinds of tables; every sequence of up to 3 entries of 7 kinds, presented one by one and in slices", len(entryDecs), len(tableDecs)))
	var lists [][]int
	var rec func(p []int)
	rec = func(p []int) {
		lists = append(lists, append([]int{}, p...))
		if len(p) < maxLen {
			for i := 0; i < np; i++ {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	c30invalid(c)
	// decorators
	for fi, fn := range tableFns {
		if fi%3 != 2 && !c.Thorough() {
			continue
		}
		for dec := range entryDecs {
			for td := range tableDecs {
				for _, sub := range []bool{false, true} {
					if !c.Mine() || c.Stop() {
						continue
					}
					for _, before := range []bool{false, true} {
						for bad := 0; bad < 2; bad++ {
							e := tableEntry{ps: fn.good, dec: dec, before: before}
							if bad == 1 {
								e.ps = append([]int{0, 0}, fn.good...)
								if fn.vari {
									continue
								}
							}
							for order := 0; order < 3; order++ {
								c30table(c, tableCase{fn: fi, entries: []tableEntry{e, {ps: fn.good}}, tdecs: td, subtree: sub, order: order, tdesc: order})
							}
						}
					}
				}
			}
		}
	}
	// several entries
	for _, fi := range []int{2, 13} {
		fn := tableFns[fi]
		kinds := []tableEntry{{ps: fn.good}, {ps: fn.good, desc: 2}, {ps: []int{2}}, {ps: fn.good, dec: 1}, {ps: fn.good, dec: 2}, {ps: fn.good, dec: 7}, {ps: []int{2}, dec: 2}}
		for n := 0; n <= 3; n++ {
			dims := make([]int, n)
			for i := range dims {
				dims[i] = len(kinds)
			}
			lib.Product(dims, func(x []int) bool {
				if !c.Mine() {
					return true
				}
				for td := range tableDecs {
					for _, sub := range []bool{false, true} {
						for sl := 0; sl < 4; sl++ {
							if n == 0 && (sl == 0 || sl == 3) {
								continue // (see c30invalid)
							}
							var es []tableEntry
							for _, i := range x {
								es = append(es, kinds[i])
							}
							c30table(c, tableCase{fn: fi, entries: es, tdecs: td, subtree: sub, slices: sl})
						}
					}
				}
				return !c.Stop()
			})
		}
	}
	// parameters and descriptions
	for fi := range tableFns {
		for _, l := range lists {
			if !c.Mine() {
				continue
			}
			if c.Stop() {
				return
			}
			for d := range entryDescs {
				for td := range tableDescs {
					if entryDescs[d].val != nil && td > 0 {
						continue
					}
					for _, sub := range []bool{false, true} {
						if sub && d > 2 && !c.Thorough() {
							continue
						}
						c30table(c, tableCase{fn: fi, entries: []tableEntry{{ps: l, desc: d}, {ps: tableFns[fi].good}}, tdesc: td, subtree: sub})
					}
				}
			}
		}
	}
}

// c30invalid: what is no table.
func c30invalid(c *lib.Ctx) {
	body := func(int) {}
	e := func() ginkgo.TableEntry { return ginkgo.Entry("e", 1) }
	for i, x := range []struct {
		name string
		args func() []any
		want []string
	}{
		{"a body only", func() []any { return []any{body} }, []string{heading(ge.MissingParametersForTableFunction(nocl))}},
		{"nil", func() []any { return []any{body, nil, e()} }, []string{heading(ge.IncorrectParameterTypeForTable(1, "nil", nocl))}},
		{"two bodies", func() []any { return []any{body, body, e()} }, []string{heading(ge.MultipleEntryBodyFunctionsForTable(nocl))}},
		{"two bodies, apart", func() []any { return []any{body, e(), func() {}} }, []string{heading(ge.MultipleEntryBodyFunctionsForTable(nocl))}},
		{"no body", func() []any { return []any{e(), e()} }, []string{heading(ge.MissingParametersForTableFunction(nocl)), ePanic}},
		{"an unknown decorator", func() []any { return []any{body, 5, e()} }, []string{eUnknown}},
		{"a decorator that is none of a container", func() []any { return []any{body, ginkgo.OncePerOrdered, e()} }, []string{eWhere}},
		{"focused and pending", func() []any { return []any{body, ginkgo.Focus, ginkgo.Pending, e()} }, []string{eFP}},
	} {
		for sub := 0; sub < 2; sub++ {
			if !c.Mine() {
				continue
			}
			kase := fmt.Sprintf("no table %d: %s, subtree %d", i, x.name, sub)
			if !c.Only(kase) {
				continue
			}
			c.Add("evaluations", 1)
			c.Add("states", 1)
			c.Case(kase)
			line := 0
			o := program(func() {
				args := x.args()
				if sub == 1 {
					line = here() + 1
					ginkgo.DescribeTableSubtree("t", args...)
					return
				}
				line = here() + 1
				ginkgo.DescribeTable("t", args...)
			}, true)
			var want []rejection
			for _, h := range x.want {
				want = append(want, rejection{h, fmt.Sprintf("c30_test.go:%d", line)})
			}
			judge(c, kase, o, want)
		}
	}
}
