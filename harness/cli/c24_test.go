package cli

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C24"] = c24 }

// What becomes of a suite: p passes, P passes with a pending spec, f fails, F passes with a focused spec, x exits
// before it runs, X exits within a spec, k is killed, n has no tests, c does not compile, e has no test files, g and G
// are no ginkgo suites and pass or fail, i is interrupted (with the tool), I has the tool interrupted while it
// compiles, T runs into the timeout, z is filtered out. Precompiled suites are marked with a '.'.
type invocation struct {
	plans    []string
	keep     bool // --keep-going
	procs    int
	repeat   int // --repeat
	until    bool
	shuffle  bool
	require  bool // --require-suite
	outdir   bool
	separate bool // --keep-separate-reports
	editor   bool // GINKGO_EDITOR_INTEGRATION
	recurse  bool
	cover    bool
	blocking bool // --blockprofile
	sepcov   bool // --keep-separate-coverprofiles
	hook     bool // an after-run hook that interrupts the tool
}

func (v invocation) String() string {
	s := strings.Join(v.plans, " ")
	for _, f := range []struct {
		on bool
		s  string
	}{{v.keep, "keep-going"}, {v.procs > 1, fmt.Sprintf("procs=%d", v.procs)}, {v.repeat > 0, fmt.Sprintf("repeat=%d", v.repeat)}, {v.until, "until-it-fails"}, {v.shuffle, "randomize-suites"},
		{v.require, "require-suite"}, {v.outdir, "output-dir"}, {v.separate, "keep-separate-reports"}, {v.editor, "editor"}, {v.recurse, "-r"}, {v.cover, "cover"}, {v.blocking, "block-profile"}, {v.hook, "interrupting hook"}} {
		if f.on {
			s += " " + f.s
		}
	}
	return s
}

func c24(c *lib.Ctx) {
	var vs []invocation
	add := func(v invocation) { vs = append(vs, v) }
	product := func(alpha string, n int, f func(plans []string)) {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(alpha)
		}
		lib.Product(dims, func(x []int) bool {
			p := make([]string, n)
			for i := range p {
				p[i] = alpha[x[i] : x[i]+1]
			}
			f(p)
			return true
		})
	}
	both := func(f func(keep bool)) { f(false); f(true) }
	// outcomes, serial
	for n := 1; n <= 2; n++ {
		product("pPfFxXkncegG", n, func(p []string) {
			both(func(k bool) { add(invocation{plans: p, keep: k}) })
		})
	}
	product("pfcFxe", 3, func(p []string) { both(func(k bool) { add(invocation{plans: p, keep: k}) }) })
	if c.Thorough() {
		product("pfce", 4, func(p []string) { both(func(k bool) { add(invocation{plans: p, keep: k}) }) })
		product("pfFxcegXk", 3, func(p []string) { both(func(k bool) { add(invocation{plans: p, keep: k}) }) })
	}
	// in parallel
	product("pfFXxceg", 1, func(p []string) { add(invocation{plans: p, procs: 2}) })
	product("pfFXc", 2, func(p []string) { both(func(k bool) { add(invocation{plans: p, keep: k, procs: 2}) }) })
	if c.Thorough() {
		product("pfFXxcegk", 2, func(p []string) { both(func(k bool) { add(invocation{plans: p, keep: k, procs: 3}) }) })
	}
	// further flags
	for n := 1; n <= 2; n++ {
		product("pn", n, func(p []string) { add(invocation{plans: p, require: true}) })
		product("pF", n, func(p []string) { add(invocation{plans: p, editor: true}) })
		product("pfcez", n, func(p []string) {
			both(func(k bool) {
				add(invocation{plans: p, keep: k, outdir: true})
				add(invocation{plans: p, keep: k, separate: true})
				add(invocation{plans: p, keep: k, outdir: true, separate: true})
				add(invocation{plans: p, keep: k, recurse: true})
			})
		})
		product("pfF", n, func(p []string) {
			q := slices.Clone(p)
			q[0] += "."
			both(func(k bool) { add(invocation{plans: q, keep: k}) })
		})
	}
	product("pfc", 3, func(p []string) {
		both(func(k bool) { add(invocation{plans: p, keep: k, shuffle: true}) })
	})
	for n := 1; n <= 2; n++ {
		product("pfFxXce", n, func(p []string) {
			both(func(k bool) {
				add(invocation{plans: p, keep: k, cover: true})
				if !strings.Contains(strings.Join(p, ""), "x") {
					add(invocation{plans: p, keep: k, blocking: true, procs: 2})
					add(invocation{plans: p, keep: k, cover: true, procs: 2})
				}
			})
		})
	}
	// repeated
	for _, p := range [][]string{{"p"}, {"pf"}, {"fp"}, {"ppf"}, {"px"}, {"pX"}, {"F"}, {"e"}, {"c"}, {"pn"}, {"pp", "pf"}, {"pf", "p"}, {"pf", "pf"}, {"px", "p"}, {"p", "px"}, {"p", "ppf"}, {"pf", "e"}, {"e", "pf"}, {"p", "c"}, {"ppf", "pf"}, {"p", "pf", "p"}} {
		both(func(k bool) {
			for r := 1; r <= 2; r++ {
				add(invocation{plans: p, keep: k, repeat: r})
				add(invocation{plans: p, keep: k, repeat: r, shuffle: true})
			}
			for _, q := range p {
				if strings.ContainsAny(q[len(q)-1:], "fxXc") { // it ends
					add(invocation{plans: p, keep: k, until: true})
					break
				}
			}
			add(invocation{plans: p, keep: k, repeat: 1, procs: 2})
		})
	}
	// interrupts and timeouts
	for _, p := range [][]string{{"i"}, {"i", "p"}, {"p", "i"}, {"p", "i", "p"}, {"I"}, {"I", "p"}, {"p", "I"}, {"p", "I", "p"}, {"c", "I"}, {"f", "I"}, {"T"}, {"T", "p"}, {"p", "T"}, {"T", "c"}, {"T", "p", "p"}} {
		both(func(k bool) {
			add(invocation{plans: p, keep: k})
			if len(p) <= 2 {
				add(invocation{plans: p, keep: k, procs: 2})
			}
		})
	}
	for _, p := range [][]string{{"p", "p"}, {"p", "p", "p"}, {"f", "p"}, {"p", "f"}, {"p", "e", "p"}} {
		both(func(k bool) { add(invocation{plans: p, keep: k, hook: true}) })
	}
	seen := map[string]bool{}
	for _, v := range vs {
		if seen[v.String()] || !c.Mine() || c.Stop() || !c.Only(v.String()) {
			continue
		}
		seen[v.String()] = true
		c.Case(v.String())
		sig, detail := "", ""
		// what depends on a signal's being seen in time, or on real timeouts, is tried again with more patience
		for _, p := range []string{"300ms", "3000ms"} {
			if sig, detail = v.check(c, p); sig == "" || !v.timed() {
				break
			}
		}
		c.Add("executions", 1)
		if sig != "" {
			c.Violation(sig, v.String(), detail)
		}
	}
	c.Bound("invocations", "1-2 suites with any of 12 outcomes, 3 with any of 6 (thorough: 9; 4 with any of 4), with and without --keep-going; in 2 or 3 processes; precompiled; output-dir, keep-separate-reports, randomize-suites, require-suite, editor integration, -r and --skip-package, up to 3 rounds of --repeat and --until-it-fails; interrupts during compilation, a suite or between suites, and timeouts")
}

func (v invocation) timed() bool {
	s := strings.Join(v.plans, "")
	return v.hook || strings.ContainsAny(s, "iIT")
}

func (v invocation) check(c *lib.Ctx, patience string) (string, string) {
	names := []string{"a", "b", "c", "d"}[:len(v.plans)]
	plans := map[string]string{}
	at := map[string]int{}
	for i, n := range names {
		plans[n] = strings.TrimSuffix(v.plans[i], ".")
		at[n] = i
	}
	w := suitesIn(plans)
	args := []string{"--json-report=r.json", "--junit-report=r.xml", "--teamcity-report=r.tc", "--no-color", "--seed=17"}
	env := []string{"ZZ_PATIENCE=" + patience}
	flag := func(on bool, s string) {
		if on {
			args = append(args, s)
		}
	}
	flag(v.keep, "--keep-going")
	flag(v.procs > 1, fmt.Sprintf("--procs=%d", v.procs))
	flag(v.repeat > 0, fmt.Sprintf("--repeat=%d", v.repeat))
	flag(v.until, "--until-it-fails")
	flag(v.shuffle, "--randomize-suites")
	flag(v.cover, "--cover")
	flag(v.blocking, "--blockprofile=block.out")
	flag(v.sepcov, "--keep-separate-coverprofiles")
	flag(v.require, "--require-suite")
	flag(v.outdir, "--output-dir=out")
	flag(v.separate, "--keep-separate-reports")
	flag(strings.Contains(strings.Join(v.plans, ""), "T"), "--timeout=2s")
	if v.editor {
		env = append(env, "GINKGO_EDITOR_INTEGRATION=true")
	}
	if v.hook {
		must(os.WriteFile(filepath.Join(w, "hook"), []byte("kill -INT $PPID; sleep ${ZZ_PATIENCE%ms}e-3\n"), 0o755))
		args = append(args, "--after-run-hook=sh "+filepath.Join(w, "hook"))
	}
	var filtered []string
	for i, n := range names {
		if v.plans[i] == "z" {
			filtered = append(filtered, "/"+n, "./"+n)
		}
	}
	flag(len(filtered) > 0, "--skip-package="+strings.Join(filtered, ","))
	if v.recurse {
		args = append(args, "-r")
	} else {
		for i, n := range names {
			if strings.HasSuffix(v.plans[i], ".") {
				must(os.Link(self, filepath.Join(w, n, "p.test")))
				args = append(args, "./"+n+"/p.test")
			} else {
				args = append(args, "./"+n)
			}
		}
	}
	if v.outdir {
		must(os.MkdirAll(filepath.Join(w, "out"), 0o755))
	}
	o := run(w, env, args...)
	c.Add("suite processes", int64(o.ranTotal()))
	bad := func(f string, a ...any) (string, string) {
		return fmt.Sprintf(f, a...), fmt.Sprintf("ginkgo %s\nexit status %d; %s\n%s", strings.Join(args, " "), o.exit, strings.Join(o.log, ", "), brief(o.out))
	}
	if o.exit < 0 || o.exit == 2 {
		return bad("the tool crashes or does not end")
	}

	// what should happen
	order := slices.Clone(names)
	if v.shuffle && len(names) > 1 { // whatever the order, it is the one in which they ran; here only the sets matter
		order = nil
	}
	_ = order
	e := v.expect(names, o)
	if e.bad != "" {
		return bad("%s", e.bad)
	}
	if !slices.Contains(e.exit, o.exit) {
		return bad("the exit status is %d, not %v", o.exit, e.exit)
	}
	if !e.nothing {
		says := strings.Contains(o.out, "Test Suite Passed")
		if says == strings.Contains(o.out, "Test Suite Failed") || says != (o.exit == 0 || o.exit == types.GINKGO_FOCUS_EXIT_CODE) {
			return bad("what the tool says does not agree with its exit status")
		}
	}
	if e.nothing {
		return "", ""
	}
	c.Distinct("states", fmt.Sprint(v.keep, v.procs, e, o.exit))
	// suites run one after the other
	open := ""
	for _, l := range o.log {
		f := strings.Fields(l)
		if len(f) != 3 {
			continue
		}
		if f[0] == "run" && open != "" && open != f[1] {
			return bad("suites %s and %s run at the same time", open, f[1])
		}
		if f[0] == "run" {
			open = f[1]
		} else if v.procs <= 1 {
			open = ""
		}
		if strings.ContainsAny(plans[f[1]], "XkF") || v.procs > 1 {
			open = ""
		}
	}
	if v.cover && c.R.Property == "C26" {
		if sig := v.profiles(w, names, e); sig != "" {
			return bad("%s", sig)
		}
		return "", ""
	}
	if v.hook || strings.Contains(strings.Join(v.plans, ""), "I") || strings.Contains(strings.Join(v.plans, ""), "i") {
		return "", "" // reports of interrupted runs are not pinned down
	}
	if sig := v.reports(w, names, e); sig != "" {
		return bad("%s", sig)
	}
	// the summary names each suite that failed
	if len(names)-len(filtered)/2 > 1 && o.exit == 1 {
		_, sum, _ := strings.Cut(o.out, "There were failures detected in the following suites:")
		for _, n := range names {
			failed := slices.Contains([]string{"failed", "compile", "timeout"}, e.final[n])
			if e.final[n] != "?" && failed != strings.Contains(sum, " ./"+n) {
				return bad("the summary of suites that failed is wrong about %s (%s)", n, e.final[n])
			}
		}
	}
	return "", ""
}

func (o outcome) ranTotal() int {
	n := 0
	for _, l := range o.log {
		if strings.HasPrefix(l, "run ") {
			n++
		}
	}
	return n
}

// expectation: how the run should end, given the order in which suites were seen to run
type expectation struct {
	bad     string
	exit    []int
	final   map[string]string // per suite: passed failed compile timeout skipped empty filtered; ? open
	last    map[string]byte   // what the suite did the last time it ran, or was to run
	plain   map[string]bool   // no ginkgo suite
	nothing bool              // no suite was to be run at all
}

func (v invocation) expect(names []string, o outcome) expectation {
	e := expectation{final: map[string]string{}, last: map[string]byte{}, plain: map[string]bool{}}
	for i, n := range names {
		e.plain[n] = strings.ContainsAny(v.plans[i], "gG")
	}
	procs := 1
	if v.procs > 1 {
		procs = v.procs
	}
	// the order of suites: as given, or, when shuffled, as the log shows (suites that never ran may be anywhere)
	var steps []string // runs of suites, in order
	for _, l := range o.log {
		f := strings.Fields(l)
		if len(f) == 3 && f[0] == "run" && f[2] == "1" {
			steps = append(steps, f[1])
		}
	}
	all := true
	for _, p := range v.plans {
		all = all && p == "z"
	}
	if all {
		e.exit, e.nothing = []int{0}, true
		if len(steps) > 0 {
			e.bad = "a suite that is filtered out runs"
		}
		return e
	}
	joined := strings.Join(v.plans, "")
	runs := map[string]int{}
	next := 0
	took := func(n string) bool {
		if next < len(steps) && steps[next] == n {
			next++
			return true
		}
		return false
	}
	plan := func(n string) (byte, bool) { // what it does this time
		i := slices.Index(names, n)
		p := strings.TrimSuffix(v.plans[i], ".")
		k := min(runs[n], len(p)-1)
		return p[k], true
	}
	rounds := 1 + v.repeat
	if v.until {
		rounds = 1000
	}
	failed, interrupted, focus := false, false, false
	for round := 0; round < rounds && !failed && !interrupted; round++ {
		order := slices.Clone(names)
		if v.shuffle && len(names) > 1 {
			// suites seen to run in this round, in that order; the others where they make sense
			ran := []string{}
			for i := next; i < len(steps) && !slices.Contains(ran, steps[i]); i++ {
				ran = append(ran, steps[i])
			}
			var ce, rest []string
			for _, n := range names {
				if slices.Contains(ran, n) {
					continue
				}
				if k, _ := plan(n); strings.ContainsRune("cez", rune(k)) {
					ce = append(ce, n)
				} else {
					rest = append(rest, n)
				}
			}
			// a suite that failed to compile stops the others unless it is the last
			order = append(append(append([]string{}, ran...), ce...), rest...)
		}
		focus = false
		for idx, n := range order {
			k, _ := plan(n)
			if k == 'z' {
				e.final[n] = "filtered"
				continue
			}
			if interrupted {
				e.final[n] = "not run"
				continue
			}
			if k == 'I' {
				interrupted = true
				e.final[n] = "not run"
				continue
			}
			if k == 'c' || k == 'e' {
				was := failed
				e.final[n], e.last[n] = map[byte]string{'c': "compile", 'e': "empty"}[k], k
				if k == 'c' {
					failed = true
				}
				if was && !v.keep {
					e.final[n] = "?" // it may have been skipped, and not compiled
				}
				continue
			}
			if failed && !v.keep {
				e.final[n] = "skipped"
				continue
			}
			if strings.Contains(joined, "T") && e.timedOut(order[:idx]) {
				e.final[n] = "timeout"
				failed = true
				continue
			}
			// it has to run now
			if strings.Contains(joined, "I") && idx < slices.Index(v.plans, "I") && next >= len(steps) {
				e.final[n] = "not run" // the interrupt came first
				interrupted = true
				continue
			}
			if !took(n) {
				e.bad = fmt.Sprintf("suite %s does not run when it should", n)
				return e
			}
			runs[n]++
			e.last[n] = k
			switch {
			case strings.ContainsRune("fxXkGiT", rune(k)), k == 'n' && v.require:
				e.final[n] = "failed"
				failed = true
				if k == 'i' {
					interrupted = true
				}
			default:
				e.final[n] = "passed"
				focus = focus || k == 'F'
			}
			if v.hook {
				interrupted = true
				if idx == len(order)-1 {
					interrupted = false
				}
			}
		}
	}
	if next != len(steps) {
		e.bad = fmt.Sprintf("suite %s runs when it should not", steps[next])
		return e
	}
	for n, r := range runs {
		if o.ran(n) != r*procs && !(strings.ContainsAny(joined, "gG")) {
			e.bad = fmt.Sprintf("suite %s runs in %d processes, not %d", n, o.ran(n), r*procs)
		}
	}
	switch {
	case failed || interrupted:
		e.exit = []int{1}
	case focus && !v.editor:
		e.exit = []int{types.GINKGO_FOCUS_EXIT_CODE}
	default:
		e.exit = []int{0}
	}
	return e
}

func (e expectation) timedOut(before []string) bool {
	for _, n := range before {
		if e.last[n] == 'T' {
			return true
		}
	}
	return false
}

// reports compares the report files with what became of each suite.
func (v invocation) reports(w string, names []string, e expectation) string {
	dir := w
	if v.outdir {
		dir = filepath.Join(w, "out")
	}
	if !v.separate {
		return v.reportsIn(w, names, e, func(string) string { return dir + "/r" })
	}
	for _, n := range names {
		at := filepath.Join(w, n, "r")
		if v.outdir {
			at = filepath.Join(dir, n+"_r")
		}
		if s := v.reportsIn(w, []string{n}, e, func(string) string { return at }); s != "" {
			return s
		}
	}
	return ""
}

func (v invocation) reportsIn(w string, names []string, e expectation, at func(string) string) string {
	base := at("")
	reported := map[string]types.Report{}
	want := 0
	for _, n := range names {
		if e.wantsReport(n) == 1 {
			want++
		}
	}
	b, err := os.ReadFile(base + ".json")
	if err != nil {
		if want > 0 {
			return "there is no JSON report"
		}
		return ""
	}
	var rs []types.Report
	if err := json.Unmarshal(b, &rs); err != nil {
		return "the JSON report cannot be read: " + err.Error()
	}
	for _, r := range rs {
		n := filepath.Base(r.SuitePath)
		if _, dup := reported[n]; dup {
			return "the JSON report has suite " + n + " twice"
		}
		reported[n] = r
		if !slices.Contains(names, n) {
			return "the JSON report has a suite " + r.SuitePath
		}
	}
	for _, n := range names {
		r, got := reported[n]
		switch wants := e.wantsReport(n); {
		case wants == 1 && !got:
			return "the JSON report lacks suite " + n + " (" + e.final[n] + ")"
		case wants == -1 && got:
			return "the JSON report has suite " + n + " (" + e.final[n] + ")"
		case !got:
			continue
		}
		reason := strings.Join(r.SpecialSuiteFailureReasons, "; ")
		states := map[string]string{}
		for _, s := range r.SpecReports {
			if s.LeafNodeText != "" {
				states[s.LeafNodeText] = s.State.String()
			}
		}
		got2 := fmt.Sprint(r.SuiteSucceeded, " ", r.SuiteHasProgrammaticFocus, " ", states["one"], " ", states["two"])
		exp := ""
		switch e.final[n] {
		case "passed":
			exp = map[byte]string{'p': "true false passed passed", 'P': "true false passed passed", 'F': "true true skipped passed"}[e.last[n]]
		case "failed":
			switch e.last[n] {
			case 'f':
				exp = "false false passed failed"
			case 'x', 'X', 'k', 'G':
				if r.SuiteSucceeded {
					return "the JSON report says that suite " + n + ", which crashed, succeeded"
				}
			case 'T':
				if r.SuiteSucceeded {
					return "the JSON report says that suite " + n + ", which timed out, succeeded"
				}
			}
		case "compile":
			if r.SuiteSucceeded || !strings.Contains(reason, "does not compile") {
				return "the JSON report does not say that suite " + n + " did not compile: " + reason
			}
		case "skipped":
			if r.SuiteSucceeded || !strings.Contains(reason, "prior suites failed") {
				return "the JSON report does not say that suite " + n + " was skipped: " + reason
			}
		case "timeout":
			if r.SuiteSucceeded || !strings.Contains(reason, "timeout elapsed") {
				return "the JSON report does not say that suite " + n + " was not run because of the timeout: " + reason
			}
		case "empty":
			if !r.SuiteSucceeded || !strings.Contains(reason, "no test files") {
				return "the JSON report does not say that suite " + n + " has no tests: " + reason
			}
		}
		if exp != "" && exp != got2 {
			return fmt.Sprintf("the JSON report about suite %s: %q, should be %q", n, got2, exp)
		}
	}
	// the other two have the same suites
	b, err = os.ReadFile(base + ".xml")
	if err != nil {
		return "there is no JUnit report"
	}
	var x reporters.JUnitTestSuites
	if err := xml.Unmarshal(b, &x); err != nil {
		return "the JUnit report cannot be read: " + err.Error()
	}
	var have, wantX []string
	bad := 0
	for _, s := range x.TestSuites {
		have = append(have, filepath.Base(s.Package))
		bad += s.Failures + s.Errors
	}
	for n := range reported {
		wantX = append(wantX, n)
	}
	slices.Sort(have)
	slices.Sort(wantX)
	if !slices.Equal(have, wantX) {
		return fmt.Sprintf("the JUnit report has suites %v, the JSON report %v", have, wantX)
	}
	b, err = os.ReadFile(base + ".tc")
	if err != nil {
		return "there is no TeamCity report"
	}
	if a, z := strings.Count(string(b), "##teamcity[testSuiteStarted "), strings.Count(string(b), "##teamcity[testSuiteFinished "); a != len(reported) || z != len(reported) {
		return fmt.Sprintf("the TeamCity report has %d suites begin and %d end, the JSON report has %d", a, z, len(reported))
	}
	return ""
}

// wantsReport: 1 yes, -1 no, 0 either
func (e expectation) wantsReport(n string) int {
	if e.plain[n] {
		return -1
	}
	switch e.final[n] {
	case "passed", "failed":
		switch e.last[n] {
		case 'n':
			return -1
		case 'x', 'X', 'k':
			return 0
		}
		return 1
	case "compile", "skipped", "timeout", "empty":
		return 1
	case "filtered", "not run":
		return -1
	}
	return 0
}
