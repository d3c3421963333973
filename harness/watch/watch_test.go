// Package watch decides what the watch command runs: the real command is given a small tree of packages that changes
// under it, in virtual time; only compiling and running suites, and waiting for signals, are stand-ins.
package watch

import (
	"bytes"
	"fmt"
	"go/build"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/onsi/ginkgo/v2/formatter"
	"github.com/onsi/ginkgo/v2/ginkgo/command"
	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/ginkgo/watch"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vwatch"
)

func TestProperty(t *testing.T) {
	c := lib.New(os.Getenv("VERIF_PROPERTY"))
	if c.R.Property != "C32" {
		t.Fatalf("unknown property %q", c.R.Property)
	}
	root, err := os.MkdirTemp(lib.Env("VERIF_TMP", ""), "watch")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = root
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	c32(t, c, root)
	os.Stdout = stdout
	c.Write()
}

// ---- the tree ----

// A file of the model: what it imports, and a number that is never used again.
type file struct {
	imports []string
	ver     int
	broken  bool // its head does not parse
	xtest   bool // in the external test package
}

type tree struct {
	dir   string           // the directory
	files map[string]*file // by path relative to it
	dirs  map[string]bool
	next  int
}

func (w *tree) write(name string, f file) {
	w.next++
	f.ver = w.next
	w.files[name] = &f
	pkg := filepath.Dir(name)
	w.mkdir(pkg)
	pk := filepath.Base(pkg)
	var b strings.Builder
	head := "package "
	if f.broken {
		head = "pakcage "
	}
	if f.xtest {
		pk += "_test"
	}
	fmt.Fprintf(&b, "%s%s\n\n", head, pk)
	for _, i := range f.imports {
		fmt.Fprintf(&b, "import _ %q\n", i)
	}
	fmt.Fprintf(&b, "// %s\n", strings.Repeat("x", f.ver%7))
	p := filepath.Join(w.dir, name)
	if err := os.WriteFile(p, []byte(b.String()), 0o644); err != nil {
		panic(err)
	}
	w.stamp(p, 0)
}

// stamp sets the time of modification to the (virtual) present, or to a time before.
func (w *tree) stamp(p string, ago time.Duration) {
	t := time.Now().Add(-ago)
	if err := os.Chtimes(p, t, t); err != nil {
		panic(err)
	}
}

func (w *tree) mkdir(d string) {
	if !w.dirs[d] {
		os.MkdirAll(filepath.Join(w.dir, d), 0o755)
		w.dirs[d] = true
	}
}

func (w *tree) remove(name string) {
	delete(w.files, name)
	os.Remove(filepath.Join(w.dir, name))
}

func (w *tree) removeDir(d string) {
	os.RemoveAll(filepath.Join(w.dir, d))
	delete(w.dirs, d)
	for n := range w.files {
		if filepath.Dir(n) == d {
			delete(w.files, n)
		}
	}
}

func hidden(n string) bool { return strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") }

// listing is what of a package's code, and of its tests, is watched.
func (w *tree) listing(pkg string, re *regexp.Regexp) (code, tests string) {
	if !w.dirs[pkg] {
		return "gone", "gone"
	}
	var cs, ts []string
	for n, f := range w.files {
		if b := filepath.Base(n); filepath.Dir(n) == pkg && !hidden(b) {
			s := fmt.Sprintf("%s:%d", b, f.ver)
			if strings.HasSuffix(b, "_test.go") {
				ts = append(ts, s)
			} else if re.MatchString(b) {
				cs = append(cs, s)
			}
		}
	}
	sort.Strings(cs)
	sort.Strings(ts)
	return strings.Join(cs, " "), strings.Join(ts, " ")
}

// imports returns what a package imports; ok is false if it cannot be told.
func (w *tree) imports(pkg string, tests bool) (out []string, ok bool) {
	n := 0
	for name, f := range w.files {
		b := filepath.Base(name)
		if filepath.Dir(name) != pkg || hidden(b) || !strings.HasSuffix(b, ".go") {
			continue
		}
		n++
		if f.broken {
			return nil, false
		}
		if tests || !strings.HasSuffix(b, "_test.go") {
			for _, i := range f.imports {
				if strings.HasPrefix(i, "m/") {
					out = append(out, strings.TrimPrefix(i, "m/"))
				}
			}
		}
	}
	return out, n > 0
}

// deps returns the packages that a suite depends on, to the given depth.
func (w *tree) deps(suite string, depth int) (map[string]bool, bool) {
	out := map[string]bool{}
	if depth == 0 {
		return out, true
	}
	at, ok := w.imports(suite, true)
	if !ok {
		return nil, false
	}
	for d := 1; d <= depth; d++ {
		var next []string
		for _, p := range at {
			if w.dirs[p] && !out[p] {
				out[p] = true
				if is, ok := w.imports(p, false); ok {
					next = append(next, is...)
				}
			}
		}
		at = next
	}
	delete(out, suite)
	return out, true
}

func (w *tree) suites() (out []string) {
	for d := range w.dirs {
		for n := range w.files {
			if b := filepath.Base(n); filepath.Dir(n) == d && !hidden(b) && strings.HasSuffix(b, "_test.go") && len(b) > len("_test.go") {
				out = append(out, d)
				break
			}
		}
	}
	sort.Strings(out)
	return out
}

func (w *tree) String() string {
	var s []string
	for n, f := range w.files {
		s = append(s, fmt.Sprintf("%s:%d%v", n, f.ver, f.imports))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// ---- what happens to it ----

type op struct {
	name string
	do   func(w *tree)
}

func (w *tree) modify(n string) {
	if f := w.files[n]; f != nil {
		w.write(n, *f)
	} else {
		w.write(n, file{})
	}
}

func modify(n string) op { return op{"modify " + n, func(w *tree) { w.modify(n) }} }

// toggle deletes a file that exists, and creates one that does not
func toggle(n string, f file) op {
	return op{"create/delete " + n, func(w *tree) {
		if w.files[n] != nil {
			w.remove(n)
		} else {
			w.write(n, f)
		}
	}}
}

// alternate changes a file between two versions
func alternate(what, n string, a, b file) op {
	return op{what + " " + n, func(w *tree) {
		if f := w.files[n]; f != nil && slices.Equal(f.imports, a.imports) && f.broken == a.broken {
			w.write(n, b)
		} else {
			w.write(n, a)
		}
	}}
}

func old(n string) op {
	return op{"replace with an older " + n, func(w *tree) {
		w.modify(n)
		w.stamp(filepath.Join(w.dir, n), time.Hour+time.Duration(w.next)*time.Second)
	}}
}

func dir(d string, fs map[string]file) op {
	return op{"create/delete " + d, func(w *tree) {
		if w.dirs[d] {
			w.removeDir(d)
			return
		}
		for _, n := range sorted(fs) {
			w.write(d+"/"+n, fs[n])
		}
	}}
}

func sorted[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func imp(s ...string) file { return file{imports: s} }

var initial = map[string]map[string]file{
	"a": {"a.go": imp("m/b"), "a_test.go": imp("testing"), "e_test.go": {}},
	"b": {"b.go": imp("m/c"), "b_test.go": imp("testing", "m/b", "m/g")},
	"c": {"c.go": imp("fmt", "m/f"), "e.go": {}, "c.json": {}},
	"d": {"d_test.go": imp("testing")},
	"f": {"f.go": {}},
	"g": {"g.go": {}},
}

func init() { // (b's tests are in its external test package)
	f := initial["b"]["b_test.go"]
	f.xtest = true
	initial["b"]["b_test.go"] = f
}

var ops = []op{
	modify("a/a.go"), modify("a/a_test.go"), modify("b/b.go"), modify("b/b_test.go"), modify("c/c.go"), modify("c/c.json"), modify("f/f.go"), modify("g/g.go"),
	toggle("c/e.go", file{}), toggle("a/e_test.go", file{}), toggle("a/.hidden_test.go", file{}), toggle("c/_ignored.go", file{}),
	toggle("c/c_test.go", imp("testing")), toggle("b/b_test.go", initial["b"]["b_test.go"]), toggle("b/n.go", file{}),
	old("c/c.go"), old("d/d_test.go"),
	alternate("change imports", "a/a.go", imp("m/b"), imp()),
	alternate("change imports", "d/d_test.go", imp("testing"), imp("testing", "m/c")),
	alternate("break/repair", "b/b.go", imp("m/c"), file{broken: true}),
	alternate("break/repair", "d/d_test.go", imp("testing"), file{broken: true}),
	dir("d", initial["d"]), dir("c", initial["c"]), dir("n", map[string]file{"n.go": imp("m/b"), "n_test.go": imp("testing")}),
}

// ---- the model of what is watched ----

type state struct{ code, tests string }

type watched struct {
	deps map[string]bool
	last map[string]state // of itself and of its dependencies, when it was run last or became known
}

type model struct {
	w     *tree
	depth int
	re    *regexp.Regexp
	known map[string]*watched
	look  map[string]state // as of the last look
}

func (m *model) state(pkg string) state {
	c, t := m.w.listing(pkg, m.re)
	return state{c, t}
}

func (m *model) all() map[string]state {
	out := map[string]state{}
	for _, d := range []string{"a", "b", "c", "d", "f", "g", "n"} {
		out[d] = m.state(d)
	}
	return out
}

// seen has a suite and its dependencies known as they are.
func (m *model) seen(suite string) bool {
	deps, ok := m.w.deps(suite, m.depth)
	x := m.known[suite]
	if x == nil {
		if !ok {
			return false
		}
		x = &watched{}
		m.known[suite] = x
	}
	if ok {
		x.deps = deps
	}
	x.last = m.all()
	return true
}

// changed reports whether what a suite watches differs from a former state.
func (m *model) changed(suite string, from map[string]state) bool {
	if m.state(suite) != from[suite] {
		return true
	}
	for d := range m.known[suite].deps {
		if m.state(d).code != from[d].code {
			return true
		}
	}
	return false
}

// atLook returns which suites must be run now and which may be besides, the new ones among them, and forgets suites
// that are gone.
func (m *model) atLook() (must, may, fresh []string) {
	ss := m.w.suites()
	for s := range m.known {
		if !slices.Contains(ss, s) {
			delete(m.known, s)
		}
	}
	for _, s := range ss {
		if m.known[s] == nil {
			if m.seen(s) {
				must, fresh = append(must, s), append(fresh, s)
			}
			continue
		}
		if m.changed(s, m.known[s].last) {
			must = append(must, s)
		} else if m.changed(s, m.look) {
			may = append(may, s) // it changed before the last run took notice of it
		}
	}
	return
}

// ---- one history ----

type step struct {
	ops    []int // before the look
	during []int // while the first suite of this look runs
}

type history struct {
	depth  int
	json   bool
	single bool
	steps  []step
}

func (h history) String() string {
	s := fmt.Sprintf("depth=%d", h.depth)
	if h.json {
		s += " watch-regexp=json"
	}
	if h.single {
		s += " suite=a"
	}
	for _, x := range h.steps {
		s += ";"
		for _, o := range x.ops {
			s += " " + ops[o].name + ","
		}
		for _, o := range x.during {
			s += " during the run: " + ops[o].name + ","
		}
		s = strings.TrimSuffix(s, ",")
	}
	return s
}

var cmds = map[string]command.Command{}

func cmd(h history) command.Command {
	key := fmt.Sprint(h.depth, h.json)
	if c, ok := cmds[key]; ok {
		return c
	}
	c := watch.BuildWatchCommand()
	args := []string{"-r", fmt.Sprintf("--depth=%d", h.depth)}
	if h.json {
		args = append(args, `--watch-regexp=\.json$`)
	}
	if _, err := c.Flags.Parse(args); err != nil {
		panic(err)
	}
	cmds[key] = c
	return c
}

func run(t *testing.T, c *lib.Ctx, root string, h history) {
	kase := h.String()
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("evaluations", 1)
	dir := filepath.Join(root, "src", "m")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	os.Chdir(dir)
	w := &tree{dir: dir, files: map[string]*file{}, dirs: map[string]bool{}}
	re := regexp.MustCompile(`\.go$`)
	if h.json {
		re = regexp.MustCompile(`\.json$`)
	}
	the := cmd(h)
	handler := vwatch.Handler
	_ = handler
	bad := false
	violation := func(sig, detail string) {
		bad = true
		c.Violation(sig, kase, detail)
	}
	real := time.Now()
	synctest.Test(t, func(t *testing.T) {
		time.Sleep(time.Until(real) + time.Hour)
		for _, d := range sorted(initial) {
			for _, n := range sorted(initial[d]) {
				w.write(d+"/"+n, initial[d][n])
			}
		}
		m := &model{w: w, depth: h.depth, re: re, known: map[string]*watched{}}
		for _, x := range []*vwatch.InterruptHandler{handlers[fmt.Sprint(h.depth, h.json)]} {
			x.Reset()
		}
		var ran []string
		var during []int
		vwatch.Compile = func(s any) any {
			suite := s.(internal.TestSuite)
			name := strings.TrimPrefix(suite.Path, "./")
			ran = append(ran, name)
			time.Sleep(time.Millisecond)
			suite.State = internal.TestSuiteStateCompiled
			if _, ok := w.imports(name, true); !ok {
				suite.State, suite.CompilationError = internal.TestSuiteStateFailedToCompile, fmt.Errorf("it does not compile")
			}
			return suite
		}
		vwatch.Run = func(s any) any {
			suite := s.(internal.TestSuite)
			time.Sleep(10 * time.Millisecond)
			for _, o := range during {
				ops[o].do(w)
			}
			during = nil
			time.Sleep(10 * time.Millisecond)
			suite.State = internal.TestSuiteStatePassed
			return suite
		}
		var out bytes.Buffer
		formatter.ColorableStdOut = &out
		ended, panicked := false, any(nil)
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() { panicked, ended = recover(), true }()
			args := []string(nil)
			if h.single {
				args = []string{"./a"}
			}
			the.Command(args, nil)
		}()
		time.Sleep(100 * time.Millisecond)
		synctest.Wait()
		for _, s := range w.suites() {
			m.seen(s)
		}
		if h.single {
			m.known = map[string]*watched{"a": m.known["a"]}
			if fmt.Sprint(ran) != "[a]" {
				violation("a single suite is not run at once", fmt.Sprint(ran))
			}
		} else if len(ran) > 0 {
			violation("suites are run before anything changes", fmt.Sprint(ran))
		}
		m.look = m.all()
		for i := 0; i <= len(h.steps) && !ended && !bad; i++ { // (the last look sees no change but those during the run)
			if i < len(h.steps) {
				for _, o := range h.steps[i].ops {
					ops[o].do(w)
					time.Sleep(time.Millisecond)
				}
				during = h.steps[i].during
			}
			must, may, fresh := m.atLook()
			if h.single {
				only := func(s []string) (out []string) {
					if slices.Contains(s, "a") {
						out = append(out, "a")
					}
					return
				}
				must, may, fresh = only(must), only(may), only(fresh)
				for s := range m.known {
					if s != "a" {
						delete(m.known, s)
					}
				}
			}
			prev := m.look
			m.look = m.all()
			// what is reported as changed: at least what makes a suite run, at most what changed
			need, can := map[string]bool{}, map[string]bool{}
			for _, s := range must {
				if slices.Contains(fresh, s) {
					continue
				}
				if m.look[s] != prev[s] {
					need[s] = true
				}
				for d := range m.known[s].deps {
					if m.look[d].code != prev[d].code {
						need[d] = true
					}
				}
			}
			for p := range m.look {
				if m.look[p] != prev[p] {
					can[p] = true
				}
			}
			before := len(during)
			ran = nil
			out.Reset()
			// the suites that run are known as they are when their run begins
			pending := map[string]bool{}
			inner := vwatch.Compile
			vwatch.Compile = func(s any) any {
				name := strings.TrimPrefix(s.(internal.TestSuite).Path, "./")
				if m.known[name] != nil {
					m.seen(name)
				}
				pending[name] = true
				return inner(s)
			}
			time.Sleep(time.Second)
			synctest.Wait()
			vwatch.Compile = inner
			c.Add("transitions", 1)
			if ended {
				violation("the watcher ends", fmt.Sprintf("look %d: %v", i+1, panicked))
				break
			}
			got := slices.Clone(ran)
			sort.Strings(got)
			for _, s := range must {
				if !slices.Contains(got, s) {
					violation("a suite is not run though what it watches changed", fmt.Sprintf("look %d: ran %v, must run %v (may run %v), new: %v", i+1, got, must, may, fresh))
				}
			}
			for j, s := range got {
				if j > 0 && got[j-1] == s {
					violation("a suite is run twice for one change", fmt.Sprintf("look %d: ran %v", i+1, got))
				} else if !slices.Contains(must, s) && !slices.Contains(may, s) {
					violation("a suite is run though nothing that it watches changed", fmt.Sprintf("look %d: ran %v, must run %v (may run %v)", i+1, got, must, may))
				}
			}
			reported := strings.Split(out.String(), "\n")
			news, changes := []string{}, []string{}
			for at, mode := 0, ""; at < len(reported); at++ {
				l := strings.TrimSpace(ansi.ReplaceAllString(reported[at], ""))
				switch {
				case strings.HasPrefix(l, "Detected") && strings.Contains(l, "new suite"):
					mode = "new"
				case strings.HasPrefix(l, "Detected changes in"):
					mode = "changes"
				case strings.HasPrefix(l, "Will run"), strings.HasPrefix(l, "Done."):
					mode = ""
				case l != "" && mode == "new":
					news = append(news, strings.TrimPrefix(strings.Fields(l)[0], "./"))
				case l != "" && mode == "changes":
					p, err := filepath.Rel(dir, l)
					if err != nil {
						p = l
					}
					changes = append(changes, p)
				}
			}
			sort.Strings(news)
			if !slices.Equal(news, fresh) && len(news)+len(fresh) > 0 {
				violation("new suites are not reported as such", fmt.Sprintf("look %d: reported %v, new %v", i+1, news, fresh))
			}
			sort.Strings(changes)
			for j, p := range changes {
				if !can[p] || j > 0 && changes[j-1] == p {
					violation("a package is reported as changed though it did not change", fmt.Sprintf("look %d: %v, changed %v", i+1, changes, sorted(can)))
				}
			}
			for p := range need {
				if !slices.Contains(changes, p) {
					violation("a package that changed is not reported as such", fmt.Sprintf("look %d: %v, changed %v", i+1, changes, sorted(need)))
				}
			}
			if before > 0 && len(ran) == 0 { // there was no run during which to change anything
				during = nil
			}
			c.Distinct("states", fmt.Sprint(h.depth, h.json, h.single, w, must, may))
		}
		during = nil
		handlers[fmt.Sprint(h.depth, h.json)].Interrupt()
		<-done
	})
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var handlers = map[string]*vwatch.InterruptHandler{}

func c32(t *testing.T, c *lib.Ctx, root string) {
	depths := []int{0, 1, 2, 3}
	c.Bound("packages", "two suites in a chain of imports that ends in two packages without tests, one that only an external test package imports, and a suite on its own; one more suite can be added and removed")
	c.Bound("operations", fmt.Sprintf("%d: modifying, creating, deleting and replacing files and directories, changing imports, breaking and repairing", len(ops)))
	c.Bound("depth of dependencies", fmt.Sprint(depths))
	for _, d := range depths {
		for _, j := range []bool{false, true} {
			h := history{depth: d, json: j}
			cmd(h)
			handlers[fmt.Sprint(d, j)] = vwatch.Handler
		}
	}
	length := 3
	c.Bound("histories", fmt.Sprintf("every sequence of up to %d operations (quick: those of %d at depth 2 only), each before a look of its own or (quick: not those of %d) joined with the one before, or during the run that the one before brings about", length, length, length))
	n := len(ops)
	for l := 0; l <= length; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = n
		}
		lib.Product(dims, func(x []int) bool {
			if !c.Mine() {
				return true
			}
			kinds := make([]int, 0, l)
			for i := 1; i < l; i++ {
				kinds = append(kinds, 3)
			}
			lib.Product(kinds, func(k []int) bool {
				var steps []step
				for i, o := range x {
					switch {
					case i == 0 || k[i-1] == 0:
						steps = append(steps, step{ops: []int{o}})
					case k[i-1] == 1:
						s := &steps[len(steps)-1]
						if len(s.during) > 0 {
							return true
						}
						s.ops = append(s.ops, o)
					case k[i-1] == 2:
						s := &steps[len(steps)-1]
						s.during = append(s.during, o)
					}
				}
				for _, d := range depths {
					if !c.Thorough() && (d == 3 || l == 3 && (d != 2 || k[0]+k[1] > 0)) {
						continue
					}
					run(t, c, root, history{depth: d, steps: steps})
				}
				if l <= 2 {
					run(t, c, root, history{depth: 2, json: true, steps: steps})
					run(t, c, root, history{depth: 1, single: true, steps: steps})
				}
				return !c.Stop()
			})
			return !c.Stop()
		})
	}
}
