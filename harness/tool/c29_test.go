package tool

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/ginkgo/command"
	"github.com/onsi/ginkgo/v2/ginkgo/outline"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C29"] = c29 }

type mark int

const (
	none mark = iota
	fPrefix
	pPrefix
	xPrefix
	focusDec
	pendingDec
)

func (m mark) focused() bool { return m == fPrefix || m == focusDec }
func (m mark) pending() bool { return m == pPrefix || m == xPrefix || m == pendingDec }

// A node of a program, and what is to be said about it.
type onode struct {
	name  string // without the prefix that its mark gives
	m     mark
	spec  bool
	text  otext
	label olabel
	kids  []*onode
	// filled in when the source is written
	Name           string
	start, end     int
	focus, pending bool
}

type otext struct{ src, val string }

type olabel struct {
	src  []string // decorators, with @ for the package
	vals []string
}

var texts = []otext{
	{`"plain"`, "plain"}, {"`raw \"q\", 'x'`", `raw "q", 'x'`}, {`"a, \"b\"\n\tc"`, "a, \"b\"\n\tc"}, {`"日本 ☃"`, "日本 ☃"}, {`""`, ""}, {`" lead "`, " lead "},
	{"`two\nlines`", "two\nlines"}, {"text", "undefined"}, {`"a" + "b"`, "undefined"}, {`fmt.Sprint("a")`, "undefined"}, {`"It(\"x\", Focus, func() {})"`, `It("x", Focus, func() {})`},
}

var labels = []olabel{
	{}, {[]string{`@Label("a")`}, []string{"a"}}, {[]string{`@Label("a", "b c")`}, []string{"a", "b c"}}, {[]string{`@Label(" a ")`, `@Label("a", "ü")`}, []string{"a", "a", "ü"}},
	{[]string{`@Label()`}, nil}, {[]string{`@Label(text, "x")`, `@Serial`}, []string{"x"}}, {[]string{"@FlakeAttempts(2)", "@Label(`r`)"}, []string{"r"}}, {[]string{`other.Label("z")`, `@Label("k:v")`}, []string{"k:v"}},
}

type ostyle struct{ name, imports, node, table, dec string }

var ostyles = []ostyle{
	{"dot", "import . \"github.com/onsi/ginkgo/v2\"\n", "", "", ""},
	{"plain", "import \"github.com/onsi/ginkgo/v2\"\n", "ginkgo.", "ginkgo.", "ginkgo."},
	{"alias", "import (\n\t\"fmt\"\n\tg \"github.com/onsi/ginkgo/v2\"\n)\n", "g.", "g.", "g."},
	{"types first", "import (\n\t\"github.com/onsi/ginkgo/v2/types\"\n\t. \"github.com/onsi/ginkgo/v2\"\n)\n", "", "", ""},
	{"reporters, then plain", "import (\n\t\"github.com/onsi/ginkgo/v2/reporters\"\n\t\"github.com/onsi/ginkgo/v2\"\n)\n", "ginkgo.", "ginkgo.", "ginkgo."},
	{"dot dsl", "import (\n\t. \"github.com/onsi/ginkgo/v2/dsl/core\"\n\t. \"github.com/onsi/ginkgo/v2/dsl/decorators\"\n\t. \"github.com/onsi/ginkgo/v2/dsl/table\"\n)\n", "", "", ""},
	{"dsl", "import (\n\t\"github.com/onsi/ginkgo/v2/dsl/decorators\"\n\t\"github.com/onsi/ginkgo/v2/dsl/table\"\n\t\"github.com/onsi/ginkgo/v2/dsl/core\"\n)\n", "core.", "table.", "decorators."},
	{"dot, and decorators on their own", "import (\n\t. \"github.com/onsi/ginkgo/v2\"\n\tdeco \"github.com/onsi/ginkgo/v2/dsl/decorators\"\n)\n", "", "", "deco."},
}

// ---- writing a program ----

type owriter struct {
	b bytes.Buffer
	s ostyle
}

func isTable(n string) bool { return strings.HasPrefix(n, "DescribeTable") }

func (w *owriter) node(n *onode, depth int) {
	ind := strings.Repeat("\t", depth)
	p := w.s.node
	if isTable(n.name) || n.name == "Entry" {
		p = w.s.table
	}
	n.Name = n.name
	switch n.m {
	case fPrefix:
		n.Name = "F" + n.name
	case pPrefix:
		n.Name = "P" + n.name
	case xPrefix:
		n.Name = "X" + n.name
	}
	if depth == 0 {
		w.b.WriteString("var _ = ")
	}
	n.start = w.b.Len()
	w.b.WriteString(p + n.Name + "(")
	var args []string
	if n.text.src != "" {
		args = append(args, n.text.src)
	}
	for _, d := range n.label.src {
		args = append(args, strings.ReplaceAll(d, "@", w.s.dec))
	}
	switch n.m {
	case focusDec:
		args = append(args, w.s.dec+"Focus")
	case pendingDec:
		args = append(args, w.s.dec+"Pending")
	}
	w.b.WriteString(strings.Join(args, ", "))
	if n.name == "Entry" {
		w.b.WriteString(", 1)")
		n.end = w.b.Len()
		return
	}
	sep := ""
	if len(args) > 0 {
		sep = ", "
	}
	switch {
	case n.name == "By":
		w.b.WriteString(")")
	case isTable(n.name):
		w.b.WriteString(sep + "func(int) {\n")
		for _, k := range n.kids {
			if k.name != "Entry" {
				w.stmt(k, depth+1)
			}
		}
		w.b.WriteString(ind + "}")
		for _, k := range n.kids {
			if k.name == "Entry" {
				w.b.WriteString(",\n" + ind + "\t")
				w.node(k, depth+1)
			}
		}
		w.b.WriteString(")")
	default:
		w.b.WriteString(sep + "func() {\n")
		for _, k := range n.kids {
			w.stmt(k, depth+1)
		}
		w.b.WriteString(ind + "})")
	}
	n.end = w.b.Len()
}

func (w *owriter) stmt(n *onode, depth int) {
	w.b.WriteString(strings.Repeat("\t", depth))
	w.node(n, depth)
	w.b.WriteString("\n")
}

// noise is what looks like nodes but is none.
const noise = "\n// It(\"x\", func() {})\nvar _ = own.It(\"x\", other.Describe(\"y\"))\n\nfunc helper(It func(string), own struct{ Context func(string) }) { It(\"x\"); own.Context(\"y\"); _ = \"By(`z`)\" }\n\n"

func writeProgram(s ostyle, ns []*onode, noisy bool) string {
	w := &owriter{s: s}
	w.b.WriteString("package p\n\n" + s.imports + "\n")
	if noisy {
		w.b.WriteString(noise)
	}
	for _, n := range ns {
		w.node(n, 0)
		w.b.WriteString("\n\n")
	}
	if noisy {
		w.b.WriteString(noise)
	}
	return w.b.String()
}

// judgeMarks works out focus and pending from the rules: what is pending stays so all the way down; a mark of focus
// counts unless it is within something pending or has another one that counts below it; everything at or below one
// that counts is focused.
func judgeMarks(ns []*onode) {
	var counts func(n *onode) bool // some mark at or below n counts
	counts = func(n *onode) bool {
		if n.m.pending() {
			return false
		}
		below := false
		for _, k := range n.kids {
			if counts(k) {
				below = true
			}
		}
		return below || n.m.focused()
	}
	var down func(n *onode, focus, pending bool)
	down = func(n *onode, focus, pending bool) {
		pending = pending || n.m.pending()
		if n.m.focused() {
			own := true
			for _, k := range n.kids {
				if counts(k) {
					own = false
				}
			}
			focus = focus || own
		}
		n.pending, n.focus = pending, focus && !pending
		for _, k := range n.kids {
			down(k, focus, pending)
		}
	}
	for _, n := range ns {
		down(n, false, false)
	}
}

// ---- checking ----

type ojson struct {
	Name, Text             string
	Start, End             int
	Spec, Focused, Pending bool
	Labels                 []string
	Nodes                  []ojson
}

func ostring(ns []ojson) string {
	var b strings.Builder
	var rec func(n ojson, d int)
	rec = func(n ojson, d int) {
		fmt.Fprintf(&b, "%s%s %q %d-%d spec=%v focused=%v pending=%v %q\n", strings.Repeat("  ", d), n.Name, n.Text, n.Start, n.End, n.Spec, n.Focused, n.Pending, n.Labels)
		for _, k := range n.Nodes {
			rec(k, d+1)
		}
	}
	for _, n := range ns {
		rec(n, 0)
	}
	return b.String()
}

func (n *onode) expected() ojson {
	o := ojson{Name: n.Name, Text: n.text.val, Start: n.start, End: n.end, Spec: n.spec, Focused: n.focus, Pending: n.pending, Labels: n.label.vals}
	for _, k := range n.kids {
		if k.name != "Entry" {
			o.Nodes = append(o.Nodes, k.expected())
		}
	}
	for _, k := range n.kids {
		if k.name == "Entry" {
			o.Nodes = append(o.Nodes, k.expected())
		}
	}
	return o
}

func ocsv(ns []ojson, width int) string {
	var b strings.Builder
	b.WriteString("Name,Text,Start,End,Spec,Focused,Pending,Labels\n")
	var rec func(n ojson, d int)
	rec = func(n ojson, d int) {
		b.WriteString(strings.Repeat(" ", width*d))
		w := csv.NewWriter(&b)
		w.Write([]string{n.Name, n.Text, strconv.Itoa(n.Start), strconv.Itoa(n.End), strconv.FormatBool(n.Spec), strconv.FormatBool(n.Focused), strconv.FormatBool(n.Pending), strings.Join(n.Labels, ", ")})
		w.Flush()
		for _, k := range n.Nodes {
			rec(k, d+1)
		}
	}
	for _, n := range ns {
		rec(n, 0)
	}
	return b.String()
}

func checkOutline(c *lib.Ctx, dir string, s ostyle, ns []*onode, noisy, viaCommand bool) {
	src := writeProgram(s, ns, noisy)
	if !c.Only(src) {
		return
	}
	c.Case(src)
	c.Add("evaluations", 1)
	c.Add("transitions", 1)
	judgeMarks(ns)
	var want []ojson
	for _, n := range ns {
		want = append(want, n.expected())
	}
	ws := ostring(want)
	c.Distinct("states", ws)
	compare := func(what string, j []byte, plain, indented string, width int) {
		var got []ojson
		if err := json.Unmarshal(j, &got); err != nil {
			c.Violation("the outline is no JSON", src, err.Error())
			return
		}
		if gs := ostring(got); gs != ws {
			c.Violation("the outline differs from the program", src, what+"\n"+diff(ws, gs)+"\n\nwant\n"+ws+"\ngot\n"+gs)
			return
		}
		if w := ocsv(want, 0); plain != w {
			c.Violation("the CSV form differs from the program", src, what+"\n"+diff(w, plain))
		}
		if w := ocsv(want, width); indented != w {
			c.Violation("the indented form differs from the program", src, what+"\n"+diff(w, indented))
		}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "p_test.go", src, 0)
	if err != nil {
		panic(err.Error() + "\n" + src)
	}
	o, err := outline.FromASTFile(fset, f)
	if err != nil {
		c.Violation("a program gets no outline", src, err.Error())
		return
	}
	j, err := o.MarshalJSON()
	if err != nil {
		c.Violation("the outline is no JSON", src, err.Error())
		return
	}
	compare("FromASTFile", j, o.String(), o.StringIndent(3), 3)
	if !viaCommand {
		return
	}
	file := filepath.Join(dir, "p_test.go")
	os.WriteFile(file, []byte(src), 0o644)
	for _, from := range []string{file, "-"} {
		in, err := os.Open(file)
		if err != nil {
			panic(err)
		}
		old := os.Stdin
		out := map[string]string{}
		for _, f := range []string{"csv", "indent", "json"} {
			in.Seek(0, 0)
			os.Stdin = in
			var failure any
			out[f] = stdout(dir, func() {
				defer func() { failure = recover() }()
				cmd := outline.BuildOutlineCommand()
				cmd.Flags.Parse([]string{"--format=" + f})
				cmd.Command([]string{from}, nil)
			})
			if failure != nil {
				d, _ := failure.(command.AbortDetails)
				c.Violation("the command fails", src, fmt.Sprint(failure, d.Error))
			}
		}
		os.Stdin = old
		in.Close()
		compare("ginkgo outline "+filepath.Base(from), []byte(out["json"]), out["csv"], out["indent"], 4)
	}
}

// ---- the programs ----

// forests calls f with every sequence of nodes of the given total size and depth, over the options for leaves and
// containers.
func forests(size, depth int, mk func(leaf int, m mark, kids []*onode) *onode, leaves [][2]int, cmarks []mark, f func([]*onode)) {
	if size == 0 {
		f(nil)
		return
	}
	for first := 1; first <= size; first++ {
		rest := func(n *onode) {
			forests(size-first, depth, mk, leaves, cmarks, func(more []*onode) { f(append([]*onode{n}, more...)) })
		}
		if first == 1 {
			for _, l := range leaves {
				rest(mk(l[0], mark(l[1]), nil))
			}
		}
		if depth > 1 || first == 1 {
			forests(first-1, depth-1, mk, leaves, cmarks, func(kids []*onode) {
				for _, m := range cmarks {
					rest(mk(-1, m, kids))
				}
			})
		}
	}
}

func lit(s string) otext { return otext{strconv.Quote(s), s} }

func c29(c *lib.Ctx, dir string) {
	size := c.Pick(5, 6)
	c.Bound("marks", fmt.Sprintf("every forest of up to %d nodes of at most 3 levels, of containers and specs that are focused, pending or neither, steps and setup nodes; each also declared and run for real", size))
	c.Bound("names", "every container, subject, table, entry and setup node with every mark that it can have, in two-level programs, with every style of imports")
	c.Bound("imports", fmt.Sprintf("%d styles", len(ostyles)))
	c.Bound("texts and labels", fmt.Sprintf("%d texts, %d lists of labels", len(texts), len(labels)))
	// every name and mark
	conts := []string{"Describe", "Context", "When", "DescribeTable", "DescribeTableSubtree"}
	subjects := []string{"It", "Specify"}
	setups := []string{"BeforeEach", "AfterEach", "JustBeforeEach", "JustAfterEach", "BeforeAll", "AfterAll", "BeforeSuite", "AfterSuite", "SynchronizedBeforeSuite", "SynchronizedAfterSuite"}
	marks := []mark{none, fPrefix, pPrefix, xPrefix, focusDec, pendingDec}
	var inner func(cont string, m mark) []*onode
	inner = func(cont string, m mark) (out []*onode) {
		if cont != "DescribeTable" {
			for _, s := range subjects {
				out = append(out, &onode{name: s, m: m, spec: true, text: lit("s"), kids: []*onode{{name: "By", text: lit("by")}}})
			}
			for _, s := range setups {
				out = append(out, &onode{name: s})
			}
		} else {
			out = append(out, &onode{name: "By", text: lit("by")})
		}
		if isTable(cont) {
			out = append(out, &onode{name: "Entry", m: m, spec: true, text: lit("e")})
		} else {
			for _, k := range conts {
				x := &onode{name: k, m: m, text: lit("c")}
				if isTable(k) {
					x.kids = []*onode{{name: "Entry", spec: true, text: lit("e")}}
				}
				out = append(out, x)
			}
		}
		return
	}
	for _, s := range ostyles {
		for _, k := range append(append([]string{}, conts...), append(subjects, setups...)...) {
			for _, m := range marks {
				isCont := false
				for _, x := range conts {
					isCont = isCont || x == k
				}
				if len(setups) > 0 && m != none && !isCont && k != "It" && k != "Specify" {
					continue
				}
				if !c.Mine() {
					continue
				}
				top := &onode{name: k, m: m, text: lit("t")}
				if !isCont {
					if k == "It" || k == "Specify" {
						top.spec = true
					} else {
						top.text = otext{}
					}
					checkOutline(c, dir, s, []*onode{top}, false, true)
					continue
				}
				for _, m2 := range marks {
					for i := range inner(k, m2) {
						for j := range inner(k, none) {
							top.kids = []*onode{inner(k, m2)[i], inner(k, none)[j]}
							if isTable(k) && i >= j && top.kids[0].name == "Entry" && top.kids[1].name != "Entry" {
								continue
							}
							checkOutline(c, dir, s, []*onode{top}, (i+j)%2 == 0, i == j)
						}
					}
				}
				if c.Stop() {
					return
				}
			}
		}
		// texts and labels
		for _, k := range []string{"Describe", "DescribeTable", "It", "Entry", "By"} {
			for _, t := range texts {
				for _, l := range labels {
					for _, m := range marks {
						if k == "By" && (len(l.src) > 0 || m != none) {
							continue
						}
						if !c.Mine() {
							continue
						}
						n := &onode{name: k, m: m, text: t, label: l, spec: k == "It" || k == "Entry"}
						top := n
						switch k {
						case "Entry":
							top = &onode{name: "DescribeTable", text: lit("t"), kids: []*onode{n}}
						case "By":
							top = &onode{name: "It", spec: true, text: lit("t"), kids: []*onode{n}}
						}
						checkOutline(c, dir, s, []*onode{top}, true, true)
					}
				}
			}
		}
	}
	c29rejects(c, dir)
	// marks, and what they do
	n := 0
	mk := func(leaf int, m mark, kids []*onode) *onode {
		n++
		t := lit(fmt.Sprintf("n%d", n))
		switch leaf {
		case -1:
			return &onode{name: "Describe", m: m, text: t, kids: kids}
		case 0:
			return &onode{name: "It", m: m, spec: true, text: t}
		case 1:
			return &onode{name: "It", m: m, spec: true, text: t, kids: []*onode{{name: "By", text: t}, {name: "By", text: t}}}
		}
		return &onode{name: "BeforeEach"}
	}
	leaves := [][2]int{{0, int(none)}, {0, int(fPrefix)}, {0, int(pPrefix)}, {1, int(none)}, {2, 0}}
	for sz := 1; sz <= size; sz++ {
		n = 0
		stop := false
		forests(sz, 3, mk, leaves, []mark{none, focusDec, pendingDec}, func(ns []*onode) {
			if stop || !c.Mine() {
				return
			}
			stop = c.Stop()
			for i, x := range ns { // (setup nodes stand in containers)
				if x.name == "BeforeEach" && i >= 0 {
					return
				}
			}
			checkOutline(c, dir, ostyles[0], ns, false, false)
			runProgram(c, ns)
		})
	}
}

// c29rejects: what gets no outline.
func c29rejects(c *lib.Ctx, dir string) {
	for i, src := range []string{
		"package p\n\nimport \"fmt\"\n\nvar _ = Describe(\"x\", func() {})\n",
		"package p\n\nimport _ \"github.com/onsi/ginkgo/v2\"\n\nvar _ = Describe(\"x\", func() {})\n",
		"package p\n\nimport . \"github.com/onsi/ginkgo/v2/types\"\n\nvar _ = Describe(\"x\", func() {})\n",
		"package p\n\nimport . \"github.com/onsi/ginkgo/v2other\"\n\nvar _ = Describe(\"x\", func() {})\n",
		"package p\n",
	} {
		if !c.Mine() || !c.Only(src) {
			continue
		}
		c.Case(src)
		c.Add("evaluations", 1)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, "p_test.go", src, 0)
		if err != nil {
			panic(err)
		}
		if o, err := outline.FromASTFile(fset, f); err == nil {
			c.Violation("a file that does not import Ginkgo gets an outline", src, fmt.Sprint(i, o))
		}
	}
}

// ---- running it ----

type orec struct {
	reporters.NoopReporter
	states map[string]types.SpecState
}

func (r *orec) DidRun(s types.SpecReport) {
	if s.LeafNodeType.Is(types.NodeTypeIt) {
		r.states[s.LeafNodeText] = s.State
	}
}

type noInterrupts struct{}

func (noInterrupts) Status() interrupt_handler.InterruptStatus {
	return interrupt_handler.InterruptStatus{Channel: make(chan any)}
}

func declare(n *onode) {
	var args []any
	switch n.m {
	case fPrefix, focusDec:
		args = append(args, ginkgo.Focus)
	case pPrefix, xPrefix, pendingDec:
		args = append(args, ginkgo.Pending)
	}
	switch n.name {
	case "Describe":
		ginkgo.Describe(n.text.val, append(args, func() {
			for _, k := range n.kids {
				declare(k)
			}
		})...)
	case "It":
		ginkgo.It(n.text.val, append(args, func() {})...)
	case "BeforeEach":
		ginkgo.BeforeEach(func() {})
	}
}

// runProgram has the program run, which must agree with what its outline was expected to say.
func runProgram(c *lib.Ctx, ns []*onode) {
	old, oldF := global.Suite, global.Failer
	global.InitializeGlobals()
	suite, failer := global.Suite, global.Failer
	for _, n := range ns {
		declare(n)
	}
	rec := &orec{states: map[string]types.SpecState{}}
	err := suite.BuildTree()
	if err == nil {
		w := internal.NewWriter(io.Discard)
		suite.Run("suite", nil, "/path", failer, rec, w, internal.NoopOutputInterceptor{}, noInterrupts{}, nil,
			func(func()) context.CancelFunc { return func() {} }, types.SuiteConfig{RandomSeed: 1, ParallelTotal: 1, ParallelProcess: 1, GracePeriod: 30 * time.Second})
	}
	global.Suite, global.Failer = old, oldF
	src := writeProgram(ostyles[0], ns, false)
	if err != nil {
		panic(err.Error() + src)
	}
	c.Add("programs_run", 1)
	any := false
	var specs []*onode
	var walk func(n *onode)
	walk = func(n *onode) {
		if n.spec {
			specs = append(specs, n)
			any = any || n.focus
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, n := range ns {
		walk(n)
	}
	for _, n := range specs {
		want := types.SpecStatePassed
		if n.pending {
			want = types.SpecStatePending
		} else if any && !n.focus {
			want = types.SpecStateSkipped
		}
		if got := rec.states[n.text.val]; got != want {
			c.Violation("the outline disagrees with what runs", src, fmt.Sprintf("%s: %s, want %s", n.text.val, got, want))
		}
	}
}
