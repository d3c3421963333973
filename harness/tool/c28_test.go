package tool

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/onsi/ginkgo/v2/ginkgo/unfocus"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

func init() { checks["C28"] = c28 }

// A snippet is a piece of source in which what is to be removed is marked: «F», «Focus, ». $ stands for the package
// that containers, subjects and entries come from, @ for that of the decorators.
var snippets = []string{
	"$«F»Describe(\"x\", func() {})",
	"$«F»Context(\"x\", func() {})",
	"$«F»When(\"x\", func() {})",
	"$«F»It(\"x\", func() {})",
	"$«F»Specify(\"x\", func() {})",
	"$«F»DescribeTable(\"x\", func() {}, $«F»Entry(\"y\"), $Entry(\"z\"))",
	"$«F»DescribeTableSubtree(\"x\", func() {}, $Entry(\"y\"), $«F»Entry(\"z\"))",
	"$«F»Describe(\"x\", func() {\n\t$«F»Context(\"y\", func() {\n\t\t$«F»It(\"z\", func() {})\n\t})\n\t$It(\"w\", func() {})\n})",
	"$It(\"x\", «@Focus, »func() {})",
	"$It(\"x\", «@Focus, @Focus, »func() {})",
	"$It(\"x\", @Serial, «@Focus, »@Label(\"a\", \"b\"), func() {})",
	"$It(\"x\", func() {}«, @Focus»)",
	"$It(\"x\", func() {}«, @Focus, @Focus»)",
	"$It(\"x\", func() {\n},\n\t«@Focus,»\n)",
	"$It(\"x\",\n\t«@Focus,»\n\tfunc() {\n\t})",
	"$It(\"x\", func() {\n}«,\n\t@Focus»)",
	"$It(\"x\", []any{«@Focus»}, func() {})",
	"$It(\"x\", []any{@Serial«, @Focus»}, func() {})",
	"$It(\"x\", []any{«@Focus, »@Serial}, func() {})",
	"$It(\"x\", []any{\n\t@Serial,\n\t«@Focus,»\n\t@Label(\"a\"),\n}, func() {})",
	"$It(\"x\", /* a, b */ «@Focus» /* Focus, */ «,» /* c, d */ func() {})",
	"$It(\"x\", // why, Focus,\n\t«@Focus,» // FDescribe(\n\tfunc() {})",
	"$It(\"x\", func() {}, // why,\n\t«@Focus»)",
	"$It(\"x\", func() {}, /* FIt( */ «@Focus» /* Focus */)",
	"$«F»It ( \"x\" , «@Focus , » func ( ) { } )",
	"$DescribeTable(\"x\", func(int) {}, $Entry(\"日本, Focus\", «@Focus, »1), $Entry(\"e\", 1«, @Focus»), $«F»Entry(\"f\", 2))",
	"$DescribeTable(\"x\", «@Focus, »func(int) {},\n\t$«F»Entry(nil, 1), // FEntry(nil, 1)\n\t$Entry(nil, 2),\n)",
	"$Describe(\"x\", «@Focus, »@Ordered, func() {\n\t$BeforeAll(func() {})\n\t$«F»It(\"y\", «@Focus, »func() { $By(\"FIt\") })\n})",
	"$It(\"FIt(\\\"x\\\", Focus, func() {})\", func() {})",
	"$It(`FDescribe(\nFocus,\nFIt(`, func() {})",
	"// FIt(\"x\", Focus, func() {})\n\t/* FDescribe(\"x\", Focus) */",
	"own.FIt(\"x\")",
	"own.FDescribe(own.Focus, 1)",
	"own.FEntry(\"x\", own.Focus, func() {})",
	"_ = settings{Focus: 1}.Focus",
	"func(FIt func(string), Focus int) { FIt(\"x\"); own.take(Focus, 1) }(nil, 1)",
	"{ FDescribe, Focus := func(...int) {}, 2; FDescribe(Focus, Focus); _ = []int{Focus, 1} }",
	"_ = func() (Focus int) { Focus = 1; return Focus }()",
	"$It(\"x\", func() {\n\tvar s settings\n\ts.Focus = 1\n\town.take(s.Focus, s.Focus)\n})",
	"_ = $It(\"x\", @Pending)",
	"$It(\"日本\", «@Focus, »func() { _ = '»' })",
	"$«F»It(\"x\", func() { $Fail(\"y\") }, @Label(\"Focus\"), «@Focus, »@Serial)",
	"$«F»Describe(\"x\", func() {\n\t$«F»It(\"y\", func() {}«, @Focus»)\n}, «@Focus, »@Serial, @Label(\"a\")«, @Focus»)",
	"$It(\"x\", append([]any{@Serial}, []any{«@Focus»}...), func() {})",
	"$PIt(\"x\", func() {})",
	"$XDescribe(\"x\", func() { $«F»It(\"y\", func() {}) })",
	"{ type FIt struct{ Focus int }; _ = FIt{Focus: 2} }",
}

var styles = []struct{ name, imports, node, dec string }{
	{"dot", "import . \"github.com/onsi/ginkgo/v2\"", "", ""},
	{"plain", "import (\n\t\"github.com/onsi/ginkgo/v2\"\n)", "ginkgo.", "ginkgo."},
	{"alias", "import Focus \"github.com/onsi/ginkgo/v2\"", "Focus.", "Focus."},
	{"dsl", "import (\n\t. \"github.com/onsi/ginkgo/v2/dsl/core\"\n\t. \"github.com/onsi/ginkgo/v2/dsl/decorators\"\n\t. \"github.com/onsi/ginkgo/v2/dsl/table\"\n)", "", ""},
	{"mixed", "import (\n\t. \"github.com/onsi/ginkgo/v2\"\n\tdeco \"github.com/onsi/ginkgo/v2/dsl/decorators\"\n)", "", "deco."},
	{"both", "import (\n\t. \"github.com/onsi/ginkgo/v2\"\n\tcore \"github.com/onsi/ginkgo/v2\"\n\t\"github.com/onsi/ginkgo/v2/types\"\n)\n\nvar _ types.SpecState\n", "core.", ""},
	{"own", "import (\n\tgkg \"github.com/onsi/ginkgo/v2\"\n)\n\nconst Focus = 1\n\nfunc FIt(...any) {}\n\nfunc init() { FIt(Focus, 2) }\n", "gkg.", "gkg."},
}

var layouts = []struct {
	name string
	f    func(string) string
}{
	{"lf", func(s string) string { return s }},
	{"crlf", func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }},
	{"bom", func(s string) string { return "\ufeff" + s }},
	{"unterminated", func(s string) string { return strings.TrimSuffix(s, "\n") }},
	{"build tag and line directive", func(s string) string {
		return "//go:build !zz\n\n// FIt(\"x\", Focus, 1) ☃\n//line other.go:1000\n" + s
	}},
}

const support = `
type settings struct{ Focus int }

type ownT struct{ Focus int }

func (ownT) FIt(...any)       {}
func (ownT) FDescribe(...any) {}
func (ownT) FEntry(...any)    {}
func (ownT) take(int, int)    {}

var own ownT

var _ = own.Focus
`

type source struct {
	kase      string
	orig, exp string
	name      string
	keep      []string // the lines from which nothing is removed
}

func makeSource(style, layout int, nested bool, which []int) source {
	st := styles[style]
	var b strings.Builder
	b.WriteString("package p\n\n" + st.imports + "\n" + support + "\n")
	if nested {
		b.WriteString("var _ = " + st.node + "«F»Describe(\"日本\", func() {\n")
	} else {
		b.WriteString("func _() {\n")
	}
	kase := fmt.Sprintf("import=%s layout=%s nested=%v", st.name, layouts[layout].name, nested)
	for _, w := range which {
		s := strings.ReplaceAll(strings.ReplaceAll(snippets[w], "$", st.node), "@", st.dec)
		b.WriteString("\t" + s + "\n")
		kase += fmt.Sprintf(" [%s]", strings.ReplaceAll(snippets[w], "\n", "⏎"))
	}
	b.WriteString("}")
	if nested {
		b.WriteString(")")
	}
	b.WriteString("\n")
	src := layouts[layout].f(b.String())
	s := source{kase: kase}
	s.orig = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(src, "'»'", "'\x00'"), "«", ""), "»", "")
	s.orig = strings.ReplaceAll(s.orig, "'\x00'", "'»'")
	src = strings.ReplaceAll(src, "'»'", "'\x00'")
	for {
		i := strings.Index(src, "«")
		if i < 0 {
			break
		}
		j := strings.Index(src[i:], "»")
		src = src[:i] + "\x01" + src[i+j+len("»"):]
	}
	src = strings.ReplaceAll(src, "'\x00'", "'»'")
	s.exp = strings.ReplaceAll(src, "\x01", "")
	for _, l := range strings.Split(src, "\n") {
		if !strings.Contains(l, "\x01") {
			s.keep = append(s.keep, l)
		}
	}
	return s
}

// tokens returns the tokens of a source, comments among them, without commas that end a list and without the
// semicolons that the scanner inserts.
func tokens(src string) []string {
	fset := token.NewFileSet()
	var s scanner.Scanner
	s.Init(fset.AddFile("", -1, len(src)), []byte(src), func(token.Position, string) {}, scanner.ScanComments)
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON && lit == "\n" {
			continue
		}
		if t == token.RPAREN || t == token.RBRACE {
			k := len(out) - 1
			for k >= 0 && (strings.HasPrefix(out[k], "//") || strings.HasPrefix(out[k], "/*")) {
				k--
			}
			if k >= 0 && out[k] == "," {
				out = append(out[:k], out[k+1:]...)
			}
		}
		if lit == "" || t.IsOperator() {
			lit = t.String()
		}
		out = append(out, lit)
	}
	return out
}

const stub = `package NAME
func Describe(...any) bool { return true }
var FDescribe, PDescribe, XDescribe, Context, FContext, When, FWhen = Describe, Describe, Describe, Describe, Describe, Describe, Describe
var It, FIt, PIt, XIt, Specify, FSpecify, BeforeAll = Describe, Describe, Describe, Describe, Describe, Describe, Describe
var DescribeTable, FDescribeTable, DescribeTableSubtree, FDescribeTableSubtree, Entry, FEntry = Describe, Describe, Describe, Describe, Describe, Describe
func By(string, ...func()) {}
func Fail(string, ...int) {}
`

const stubDec = `
type D int
const Focus, Serial, Ordered, Pending = D(0), D(1), D(2), D(3)
func Label(...string) D { return 0 }
`

type importer struct{ known map[string]*types.Package }

func (i importer) Import(path string) (*types.Package, error) {
	if p, ok := i.known[path]; ok {
		return p, nil
	}
	name := filepath.Base(path)
	if name == "v2" {
		name = "ginkgo"
	}
	var src string
	switch name {
	case "ginkgo":
		src = strings.Replace(stub, "NAME", name, 1) + stubDec
	case "core":
		src = strings.Replace(stub, "NAME", name, 1)
		a, b := strings.Index(src, "var DescribeTable"), strings.Index(src, "func By")
		src = src[:a] + src[b:]
	case "table":
		src = "package table\nfunc DescribeTable(...any) bool { return true }\nvar FDescribeTable, DescribeTableSubtree, FDescribeTableSubtree, Entry, FEntry = DescribeTable, DescribeTable, DescribeTable, DescribeTable, DescribeTable\n"
	case "decorators":
		src = "package decorators\n" + stubDec
	case "types":
		src = "package types\ntype SpecState int\n"
	default:
		return nil, fmt.Errorf("unknown package %s", path)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, 0)
	if err != nil {
		panic(err)
	}
	p, err := (&types.Config{}).Check(path, fset, []*ast.File{f}, nil)
	if err != nil {
		panic(err)
	}
	i.known[path] = p
	return p, nil
}

var imp = importer{map[string]*types.Package{}}

// compiles says why a source does not compile; imports that are no longer needed do not count.
func compiles(src string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "p.go", src, 0)
	if err != nil {
		return err.Error()
	}
	out := ""
	conf := types.Config{Importer: imp, Error: func(err error) {
		if s := err.Error(); !strings.Contains(s, "imported and not used") && !strings.Contains(s, "imported as") {
			out += s + "\n"
		}
	}}
	conf.Check("p", fset, []*ast.File{f}, nil)
	return out
}

// subsequence returns the first of the lines that is not found, in order, among others.
func subsequence(of, in []string) (string, bool) {
	for _, l := range of {
		for {
			if len(in) == 0 {
				return l, false
			}
			x := in[0]
			in = in[1:]
			if x == l {
				break
			}
		}
	}
	return "", true
}

func c28(c *lib.Ctx, dir string) {
	n := len(snippets)
	length := c.Pick(2, 3)
	c.Bound("pieces of source", fmt.Sprintf("%d, with focus as prefixes and decorators in all positions, next to comments, and look-alikes: strings, comments, fields, parameters, variables, methods", n))
	c.Bound("imports", fmt.Sprintf("%d styles", len(styles)))
	c.Bound("layouts", fmt.Sprintf("%d of the file", len(layouts)))
	c.Bound("programs", fmt.Sprintf("every sequence of up to %d pieces (of 3: dot and plain imports only)", length))
	var batch []source
	flush := func() {
		if len(batch) > 0 {
			c28run(c, dir, batch)
		}
		batch = nil
	}
	for l := 0; l <= length; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = n
		}
		lib.Product(dims, func(x []int) bool {
			if !c.Mine() {
				return true
			}
			for st := range styles {
				for lay := range layouts {
					for _, nested := range []bool{false, true} {
						if l == 3 && (st > 1 || lay > 0 || nested) {
							continue
						}
						s := makeSource(st, lay, nested, x)
						if c.Only(s.kase) {
							batch = append(batch, s)
						}
					}
				}
			}
			if len(batch) > 300 {
				flush()
			}
			return !c.Stop()
		})
	}
	flush()
}

// compilable caches what compiles: it depends on the pieces but not on their layout
var reasons = map[string]string{}

func c28run(c *lib.Ctx, dir string, batch []source) {
	c.Case(batch[0].kase + " and others")
	root := filepath.Join(dir, "w")
	os.RemoveAll(root)
	where := []string{".", "a", "a/b", "_c"}
	for _, d := range append(where, "vendor/v", ".git", "a/vendor") {
		os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	for i := range batch {
		s := &batch[i]
		s.name = filepath.Join(root, where[i%len(where)], fmt.Sprintf("f%d_test.go", i))
		if i%5 == 4 {
			s.name = strings.Replace(s.name, "_test.go", ".go", 1)
		}
		os.WriteFile(s.name, []byte(s.orig), 0o640)
	}
	// files that stay as they are
	rest := map[string]string{}
	for _, f := range []string{"README.md", "x_test.go.orig", "vendor/v/v_test.go", ".git/g_test.go", "a/vendor/v_test.go", "a/go"} {
		rest[f] = "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n\nvar _ = FIt(\"x\", Focus, func() {})\n"
	}
	rest["a/bad_test.go"] = "package p\n\nimport . \"github.com/onsi/ginkgo/v2\"\n\nvar _ = FIt(\"x\", Focus, func() {}\n"
	rest["a/empty_test.go"] = ""
	for f, s := range rest {
		os.WriteFile(filepath.Join(root, f), []byte(s), 0o644)
	}
	list := func() string {
		var out []string
		filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error { out = append(out, p); return nil })
		return strings.Join(out, "\n")
	}
	before := list()
	os.Chdir(root)
	the := unfocus.BuildUnfocusCommand()
	stdout(dir, func() { the.Command(nil, nil) })
	first := map[string]string{}
	for _, s := range batch {
		c.Add("evaluations", 1)
		c.Add("transitions", 1)
		b, err := os.ReadFile(s.name)
		if err != nil {
			c.Violation("a file is gone", s.kase, err.Error())
			continue
		}
		got := string(b)
		first[s.name] = got
		c.Distinct("states", got)
		if s.orig == s.exp && got != s.orig {
			c.Violation("a file without focus is changed", s.kase, diff(s.orig, got))
			continue
		}
		if g, w := strings.Join(tokens(got), " "), strings.Join(tokens(s.exp), " "); g != w {
			c.Violation("focus is not removed, or something else is", s.kase, diff(w, g))
			continue
		}
		if l, ok := subsequence(s.keep, strings.Split(got, "\n")); !ok {
			c.Violation("a line without focus is changed", s.kase, fmt.Sprintf("%q\n%s", l, got))
			continue
		}
		key := strings.ReplaceAll(s.kase, "layout=", "")
		if _, ok := reasons[s.exp]; !ok && !strings.Contains(key, "crlf") && !strings.Contains(key, "bom") {
			reasons[s.exp] = compiles(s.orig)
			if reasons[s.exp] != "" {
				panic("the original does not compile: " + s.kase + "\n" + reasons[s.exp] + s.orig)
			}
			if r := compiles(got); r != "" {
				c.Violation("the result does not compile", s.kase, r+got)
			}
		}
		if st, err := os.Stat(s.name); err != nil || st.Mode().Perm() != 0o640 {
			c.Violation("the mode of a file is changed", s.kase, fmt.Sprint(st.Mode()))
		}
	}
	if len(reasons) > 200000 {
		reasons = map[string]string{}
	}
	for f, s := range rest {
		if b, _ := os.ReadFile(filepath.Join(root, f)); string(b) != s {
			c.Violation("a file that is no source of the program is changed", batch[0].kase, f+"\n"+diff(s, string(b)))
		}
	}
	if after := list(); after != before {
		c.Violation("files appear or disappear", batch[0].kase, diff(before, after))
	}
	out := stdout(dir, func() { the.Command(nil, nil) })
	if strings.Contains(out, "updating") {
		c.Violation("running it again changes something", batch[0].kase, out)
	}
	for _, s := range batch {
		if b, _ := os.ReadFile(s.name); string(b) != first[s.name] {
			c.Violation("running it again changes something", s.kase, diff(first[s.name], string(b)))
		}
	}
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	from := max(0, i-60)
	cut := func(s string) string { return s[min(from, len(s)):min(len(s), i+120)] }
	return fmt.Sprintf("want ...%s...\ngot  ...%s...", cut(want), cut(got))
}
