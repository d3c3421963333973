package pure

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	. "github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C06"] = c06 }

// the fixture: A{ B{ s1 s2 } BE s3 } s4, in three files
func c06tree(marks []int) *N {
	at := func(n *N, file string, line int, labels ...string) *N {
		n.File, n.Line, n.Labels = file, line, labels
		return n
	}
	A := at(C("alpha"), "/x/a_test.go", 10, "L1")
	B := at(C("beta"), "/x/a_test.go", 20)
	s1 := at(L(KIt, "one"), "/x/a_test.go", 30, "L2", "k:v")
	s2 := at(L(KIt, "two"), "/x/b_test.go", 10)
	be := at(L(KBE, "be"), "/x/helper.go", 5)
	s3 := at(L(KIt, "three"), "/x/b_test.go", 20, "l2", "L1")
	s4 := at(L(KIt, "four one"), "/x/c_test.go", 40, "K:w")
	B.Kids = []*N{s1, s2}
	A.Kids = []*N{B, be, s3}
	for i, n := range []*N{A, B, s1, s2, s3, s4} {
		n.Focus = marks[i]&1 == 1
		n.Pending = marks[i]&2 == 2
	}
	return C("", A, s4)
}

type c06filters struct {
	focus, skip  []string
	label        string
	ffile, sfile []string
	suite        []string
	failOnPend   bool
	failOnEmpty  bool
}

func (f c06filters) String() string {
	return fmt.Sprintf("focus=%q skip=%q label=%q focus-file=%q skip-file=%q suite-labels=%q fail-on-pending=%v fail-on-empty=%v", f.focus, f.skip, f.label, f.ffile, f.sfile, f.suite, f.failOnPend, f.failOnEmpty)
}

// the oracle for one file filter at one location
func fileFilterMatches(filter, file string, line int) bool {
	name, lines := filter, ""
	if i := strings.IndexByte(filter, ':'); i >= 0 {
		name, lines = filter[:i], filter[i+1:]
	}
	if !regexp.MustCompile(name).MatchString(file) {
		return false
	}
	if lines == "" {
		return true
	}
	for _, l := range strings.Split(lines, ",") {
		if i := strings.IndexByte(l, '-'); i >= 0 {
			a, _ := strconv.Atoi(strings.TrimSpace(l[:i]))
			b, _ := strconv.Atoi(strings.TrimSpace(l[i+1:]))
			if line >= a && line < b {
				return true
			}
		} else if a, _ := strconv.Atoi(strings.TrimSpace(l)); a == line {
			return true
		}
	}
	return false
}

// the oracle: which specs run, which are pending, and whether there is programmatic focus
func c06expect(f *Fix, desc string, fl c06filters) (run, pending map[string]bool, focus bool) {
	run, pending = map[string]bool{}, map[string]bool{}
	inPending := func(n *N) bool {
		for ; n != nil; n = n.Parent {
			if n.Pending {
				return true
			}
		}
		return false
	}
	var focusBelow func(n *N) bool
	focusBelow = func(n *N) bool {
		for _, k := range n.Kids {
			if !k.Pending && (k.Focus || focusBelow(k)) {
				return true
			}
		}
		return false
	}
	focused := func(s *N) bool {
		for n := s; n != nil && n.Parent != nil; n = n.Parent {
			if n.Focus && !focusBelow(n) {
				return true
			}
		}
		return false
	}
	for _, s := range f.Specs {
		if !inPending(s) && focused(s) {
			focus = true
		}
	}
	lf, err := types.ParseLabelFilter(fl.label)
	if err != nil {
		panic(err)
	}
	for _, s := range f.Specs {
		if inPending(s) {
			pending[s.Name] = true
			continue
		}
		ok := !focus || focused(s)
		text := desc
		labels := append([]string{}, fl.suite...)
		nodes := append(s.Path(), s)
		for _, n := range nodes {
			text += " " + n.Name
			labels = append(labels, n.Labels...)
		}
		// setup nodes of the enclosing containers belong to the spec too
		for _, p := range append([]*N{f.Root}, s.Path()...) {
			for _, k := range p.Kids {
				if k.K != KC && k.K != KIt {
					nodes = append(nodes, k)
				}
			}
		}
		any := func(res []string, m func(string) bool) bool {
			for _, r := range res {
				if m(r) {
					return true
				}
			}
			return false
		}
		txt := func(r string) bool { return regexp.MustCompile(r).MatchString(text) }
		loc := func(r string) bool {
			for _, n := range nodes {
				if fileFilterMatches(r, n.File, n.Line) {
					return true
				}
			}
			return false
		}
		ok = ok && (len(fl.focus) == 0 || any(fl.focus, txt)) && !any(fl.skip, txt)
		ok = ok && (len(fl.ffile) == 0 || any(fl.ffile, loc)) && !any(fl.sfile, loc)
		ok = ok && lf(labels)
		if ok {
			run[s.Name] = true
		}
	}
	return
}

func names(m map[string]bool) string {
	var s []string
	for k, v := range m {
		if v {
			s = append(s, k)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func c06one(c *lib.Ctx, root *N, fl c06filters) {
	f := Prepare(root)
	cfg := DefaultCfg()
	cfg.FocusStrings, cfg.SkipStrings, cfg.LabelFilter, cfg.FocusFiles, cfg.SkipFiles = fl.focus, fl.skip, fl.label, fl.ffile, fl.sfile
	cfg.FailOnPending, cfg.FailOnEmpty = fl.failOnPend, fl.failOnEmpty
	kase := root.String() + " " + fl.String()
	c.Case(kase)
	r := &Runner{Cfg: cfg, Decide: func(Inv) Act { return Act{} }, SuiteLbl: fl.suite, Desc: "my suite"}
	o := r.Run(f)
	c.Add("executions", 1)
	c.Add("steps", int64(len(o.Events)))
	if o.Panicked != "" {
		c.Violation("selection: panic", kase, o.Panicked)
		return
	}
	run, pending, focus := c06expect(f, "my suite", fl)
	ran := map[string]bool{}
	for k := range r.Obs().Decisions {
		n := strings.SplitN(k, "#", 2)[0]
		if n != "be" {
			if ran[n] {
				c.Violation("selection: ran twice", kase, n)
			}
			ran[n] = true
		}
	}
	bad := func(what string, got, want any) {
		c.Violation("selection: "+what, kase, fmt.Sprintf("got %v, want %v", got, want))
	}
	if names(ran) != names(run) {
		bad("specs run", names(ran), names(run))
		return
	}
	c.Distinct("states", names(run)+"|"+names(pending)+fmt.Sprint(focus))
	if o.Focus != focus || o.Begin.SuiteHasProgrammaticFocus != focus || o.End.SuiteHasProgrammaticFocus != focus {
		bad("programmatic focus", fmt.Sprint(o.Focus, o.Begin.SuiteHasProgrammaticFocus, o.End.SuiteHasProgrammaticFocus), focus)
	}
	if o.Begin.PreRunStats.TotalSpecs != len(f.Specs) || o.Begin.PreRunStats.SpecsThatWillRun != len(run) || o.End.PreRunStats != o.Begin.PreRunStats {
		bad("counts", o.Begin.PreRunStats, fmt.Sprint(len(f.Specs), len(run)))
	}
	n := 0
	for _, d := range o.DidRaw {
		if d.LeafNodeType != types.NodeTypeIt {
			continue
		}
		n++
		want := types.SpecStateSkipped
		if run[d.LeafNodeText] {
			want = types.SpecStatePassed
		} else if pending[d.LeafNodeText] {
			want = types.SpecStatePending
		}
		if d.State != want {
			bad("state of "+d.LeafNodeText, d.State, want)
		}
	}
	if n != len(f.Specs) {
		bad("number of reports", n, len(f.Specs))
	}
	wantOK := true
	if fl.failOnPend && len(pending) > 0 || fl.failOnEmpty && len(run) == 0 {
		wantOK = false
	}
	if o.Success != wantOK || o.End.SuiteSucceeded != wantOK {
		bad("suite verdict", o.Success, wantOK)
	}
	if c.R.Counters["executions"]%9001 == 3 {
		c.Sample(map[string]any{"tree": root.String(), "filters": fl.String(), "specs_run": names(run)})
	}
}

func c06(c *lib.Ctx) {
	focus := [][]string{nil, {"one"}, {"beta t", "^my suite four"}, {"three|o$"}, {"suite"}, {"nothing"}, {"alpha three$"}, {"(?i)ALPHA", "ONE"}}
	skip := [][]string{nil, {"two"}, {"beta one"}, {"one", "three"}, {"alpha"}}
	labels := []string{"", "L1", "l2 && !L1", "L1 && !k:V", "S", "!S && k: isEmpty", "K: containsAny {v, w}"}
	ffile := [][]string{nil, {"b_test"}, {"a_test.go:10"}, {`b_test\.go:10-20`}, {"helper"}, {"c_test:1,40", "b_test:20-21"}, {"a_test:30 - 31, 7"}, {"^a"}, {"_test.go:40"}}
	sfile := [][]string{nil, {"c_test"}, {"a_test:20-30"}, {"b_test:10", "c_test.go:39-40"}, {"helper.go:5"}}
	suite := [][]string{nil, {"S"}}

	// 1. every assignment of marks, with a few filters
	few := []c06filters{{}, {focus: focus[1]}, {skip: skip[2]}, {label: labels[2]}, {ffile: ffile[3]}, {sfile: sfile[2], failOnPend: true}, {failOnPend: true, failOnEmpty: true}, {focus: focus[1], failOnEmpty: true}}
	dims := []int{3, 3, 3, 3, 3, 3}
	lib.Product(dims, func(m []int) bool {
		if !c.Mine() {
			return true
		}
		for _, fl := range few {
			c06one(c, c06tree(m), fl)
		}
		return !c.Stop()
	})
	// 2. every combination of filters, with a few assignments of marks
	marks := [][]int{{0, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 0, 2, 0, 0}}
	{
		marks = append(marks, []int{1, 0, 0, 1, 0, 0}, []int{0, 2, 1, 0, 0, 1}, []int{0, 0, 0, 0, 2, 0}, []int{1, 0, 2, 0, 0, 0}, []int{0, 0, 0, 0, 0, 2}, []int{0, 0, 0, 0, 1, 1})
	}
	c.Bound("marks", "all 3^6 assignments of {none, focus, pending} to 6 nodes x 8 filter settings")
	c.Bound("filters", fmt.Sprintf("all combinations of %d focus, %d skip, %d label, %d focus-file, %d skip-file filters and %d suite-label settings x %d marked trees", len(focus), len(skip), len(labels), len(ffile), len(sfile), len(suite), len(marks)))
	for _, m := range marks {
		lib.Product([]int{len(focus), len(skip), len(labels), len(ffile), len(sfile), len(suite)}, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			c06one(c, c06tree(m), c06filters{focus: focus[ix[0]], skip: skip[ix[1]], label: labels[ix[2]], ffile: ffile[ix[3]], sfile: sfile[ix[4]], suite: suite[ix[5]], failOnEmpty: ix[0]%2 == 1})
			return !c.Stop()
		})
	}
	// 3. which file filters are accepted
	if c.Shard == 0 {
		for s, ok := range map[string]bool{"": false, "a": true, "a:1": true, "a:1:2": false, "a:": false, "a:x": false, "a:1-2": true, "a:1-": false, "a:-1": false, "a:1-2-3": false, "a:1,,2": false, "a:1,2-3,4": true, "[": false, "a:1-x": false, "a: 1 , 2 - 3 ": true} {
			_, err := types.ParseFileFilters([]string{"ok", s})
			c.Add("executions", 1)
			if (err == nil) != ok {
				c.Violation("file filter: acceptance", fmt.Sprintf("filter %q", s), fmt.Sprintf("err=%v, want accepted=%v", err, ok))
			}
		}
	}
}
