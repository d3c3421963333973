package pure

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C27"] = c27 }

// The documented settings: the flag, the field it sets, and where it is accepted.
type c27flag struct {
	name string
	path string // S.x R.x C.x Go.x
	dep  string // deprecated spelling
	exp  string // name of the go flag, if it differs
}

var c27suite = []c27flag{
	{"seed", "S.RandomSeed", "", ""}, {"randomize-all", "S.RandomizeAllSpecs", "randomizeAllSpecs", ""},
	{"fail-on-pending", "S.FailOnPending", "failOnPending", ""}, {"fail-fast", "S.FailFast", "failFast", ""},
	{"flake-attempts", "S.FlakeAttempts", "flakeAttempts", ""}, {"fail-on-empty", "S.FailOnEmpty", "", ""},
	{"dry-run", "S.DryRun", "dryRun", ""}, {"poll-progress-after", "S.PollProgressAfter", "", ""},
	{"poll-progress-interval", "S.PollProgressInterval", "", ""}, {"source-root", "S.SourceRoots", "", ""},
	{"timeout", "S.Timeout", "", ""}, {"grace-period", "S.GracePeriod", "", ""},
	{"output-interceptor-mode", "S.OutputInterceptorMode", "", ""}, {"label-filter", "S.LabelFilter", "", ""},
	{"focus", "S.FocusStrings", "", ""}, {"skip", "S.SkipStrings", "", ""},
	{"focus-file", "S.FocusFiles", "", ""}, {"skip-file", "S.SkipFiles", "", ""},
}
var c27reporter = []c27flag{
	{"no-color", "R.NoColor", "noColor", ""}, {"v", "R.Verbose", "", ""}, {"vv", "R.VeryVerbose", "", ""},
	{"succinct", "R.Succinct", "", ""}, {"trace", "R.FullTrace", "", ""}, {"show-node-events", "R.ShowNodeEvents", "", ""},
	{"github-output", "R.GithubOutput", "", ""}, {"silence-skips", "R.SilenceSkips", "", ""}, {"force-newlines", "R.ForceNewlines", "", ""},
	{"json-report", "R.JSONReport", "", ""}, {"junit-report", "R.JUnitReport", "reportFile", ""}, {"teamcity-report", "R.TeamcityReport", "", ""},
}
var c27parallel = []c27flag{
	{"parallel.process", "S.ParallelProcess", "", ""}, {"parallel.total", "S.ParallelTotal", "", ""}, {"parallel.host", "S.ParallelHost", "", ""},
}
var c27shared = []c27flag{
	{"r", "C.Recurse", "", ""}, {"skip-package", "C.SkipPackage", "skipPackage", ""},
	{"require-suite", "C.RequireSuite", "requireSuite", ""}, {"compilers", "C.NumCompilers", "", ""},
}
var c27runwatch = []c27flag{
	{"procs", "C.Procs", "", ""}, {"nodes", "C.Procs", "", ""}, {"p", "C.Parallel", "", ""},
	{"after-run-hook", "C.AfterRunHook", "afterSuiteHook", ""}, {"output-dir", "C.OutputDir", "outputdir", ""},
	{"keep-separate-coverprofiles", "C.KeepSeparateCoverprofiles", "", ""}, {"keep-separate-reports", "C.KeepSeparateReports", "", ""},
}
var c27runonly = []c27flag{
	{"keep-going", "C.KeepGoing", "keepGoing", ""}, {"until-it-fails", "C.UntilItFails", "untilItFails", ""},
	{"repeat", "C.Repeat", "", ""}, {"randomize-suites", "C.RandomizeSuites", "randomizeSuites", ""},
}
var c27watchonly = []c27flag{{"depth", "C.Depth", "", ""}, {"watch-regexp", "C.WatchRegExp", "watchRegExp", ""}}
var c27gobuild = []c27flag{
	{"race", "Go.Race", "", ""}, {"vet", "Go.Vet", "", ""}, {"cover", "Go.Cover", "", ""}, {"covermode", "Go.CoverMode", "", ""},
	{"coverpkg", "Go.CoverPkg", "", ""}, {"a", "Go.A", "", ""}, {"asmflags", "Go.ASMFlags", "", ""}, {"buildmode", "Go.BuildMode", "", ""},
	{"buildvcs", "Go.BuildVCS", "", ""}, {"compiler", "Go.Compiler", "", ""}, {"gccgoflags", "Go.GCCGoFlags", "", ""}, {"gcflags", "Go.GCFlags", "", ""},
	{"installsuffix", "Go.InstallSuffix", "", ""}, {"ldflags", "Go.LDFlags", "", ""}, {"linkshared", "Go.LinkShared", "", ""}, {"mod", "Go.Mod", "", ""},
	{"modcacherw", "Go.ModCacheRW", "", ""}, {"modfile", "Go.ModFile", "", ""}, {"msan", "Go.MSan", "", ""}, {"n", "Go.N", "", ""},
	{"pkgdir", "Go.PkgDir", "", ""}, {"tags", "Go.Tags", "", ""}, {"trimpath", "Go.TrimPath", "", ""}, {"toolexec", "Go.ToolExec", "", ""},
	{"work", "Go.Work", "", ""}, {"x", "Go.X", "", ""}, {"o", "Go.O", "", ""},
}
var c27gorun = []c27flag{
	{"coverprofile", "Go.CoverProfile", "", ""}, {"blockprofile", "Go.BlockProfile", "", ""}, {"blockprofilerate", "Go.BlockProfileRate", "", ""},
	{"cpuprofile", "Go.CPUProfile", "", ""}, {"memprofile", "Go.MemProfile", "", ""}, {"memprofilerate", "Go.MemProfileRate", "", ""},
	{"mutexprofile", "Go.MutexProfile", "", ""}, {"mutexprofilefraction", "Go.MutexProfileFraction", "", ""}, {"execution-trace", "Go.Trace", "", "trace"},
}

// settings that have no flag
var c27noflag = map[string]bool{"S.MustPassRepeatedly": true, "S.EmitSpecProgress": true}

func cat(fs ...[]c27flag) (out []c27flag) {
	for _, f := range fs {
		out = append(out, f...)
	}
	return
}

type c27cfg struct {
	S  types.SuiteConfig
	R  types.ReporterConfig
	C  types.CLIConfig
	Go types.GoFlagsConfig
}

func c27default() *c27cfg {
	c := &c27cfg{S: types.NewDefaultSuiteConfig(), R: types.NewDefaultReporterConfig(), C: types.NewDefaultCLIConfig(), Go: types.NewDefaultGoFlagsConfig()}
	c.S.RandomSeed = 4711
	return c
}

func (c *c27cfg) at(path string) reflect.Value {
	p := strings.SplitN(path, ".", 2)
	v := reflect.ValueOf(c).Elem().FieldByName(p[0]).FieldByName(p[1])
	if !v.IsValid() {
		panic("no field " + path)
	}
	return v
}

// flat lists all values that differ between two configurations
func c27diff(got, want *c27cfg) string {
	var out []string
	g, w := reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem()
	for i := 0; i < g.NumField(); i++ {
		for j := 0; j < g.Field(i).NumField(); j++ {
			a, b := g.Field(i).Field(j), w.Field(i).Field(j)
			if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
				continue
			}
			if !reflect.DeepEqual(a.Interface(), b.Interface()) {
				out = append(out, fmt.Sprintf("%s.%s: got %#v, want %#v", g.Type().Field(i).Name, g.Field(i).Type().Field(j).Name, a.Interface(), b.Interface()))
			}
		}
	}
	return strings.Join(out, "; ")
}

var c27strings = []string{"", "a", "a b", "--x", "=", "k=v=w", "{}'\"\\\n\t", "ünï", "-", "%s %d", " lead", "/a/b.json"}

func c27values(v reflect.Value) []any {
	switch v.Interface().(type) {
	case bool:
		return []any{true, false}
	case string:
		var o []any
		for _, s := range c27strings {
			o = append(o, s)
		}
		return o
	case int:
		return []any{0, 1, -1, 2, 1000000007}
	case int64:
		return []any{int64(0), int64(1), int64(-1), int64(1) << 62, int64(4711)}
	case time.Duration:
		return []any{time.Duration(0), time.Nanosecond, 1500 * time.Millisecond, 90*time.Minute + 3, -time.Second, 100 * time.Hour, 30 * time.Second}
	case []string:
		return []any{[]string(nil), []string{""}, []string{"a"}, []string{"a", "a"}, []string{"b", "a", "b"}, []string{"x,y", " "}, []string{"--focus=z", "-"}, []string{"a\nb", "\"q\"", "(?i)ü"}}
	}
	panic(fmt.Sprintf("type %T", v.Interface()))
}

func c27render(v any) []string {
	switch x := v.(type) {
	case []string:
		return x
	case bool:
		return []string{strconv.FormatBool(x)}
	case time.Duration:
		return []string{x.String()}
	default:
		return []string{fmt.Sprint(x)}
	}
}

// what the suite process understands
func c27parseSuite(args []string) (*c27cfg, error) {
	cfg := c27default()
	cfg.S.RandomSeed = -99
	fs := flag.NewFlagSet("suite", flag.ContinueOnError)
	fs.SetOutput(nopWriter{})
	for _, f := range c27gorun {
		n := f.name
		if f.exp != "" {
			n = f.exp
		}
		switch p := cfg.at(f.path).Addr().Interface().(type) {
		case *string:
			fs.StringVar(p, "test."+n, "", "")
		case *int:
			fs.IntVar(p, "test."+n, 0, "")
		}
	}
	old := flag.CommandLine
	flag.CommandLine = fs
	set, err := types.BuildTestSuiteFlagSet(&cfg.S, &cfg.R)
	flag.CommandLine = old
	if err != nil {
		return nil, err
	}
	rest, err := set.Parse(args)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("arguments left over: %q", rest)
	}
	return cfg, nil
}

type nopWriter struct{}

func (nopWriter) Write(b []byte) (int, error) { return len(b), nil }

func c27handoff(c *lib.Ctx, kase string, want *c27cfg) {
	if want.S.GracePeriod <= 0 || want.S.ParallelProcess < 1 || want.S.ParallelTotal < 1 {
		return // rejected by the CLI's validation
	}
	kase = "hand-off to the suite: " + kase
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	args, err := types.GenerateGinkgoTestRunArgs(want.S, want.R, want.Go)
	if err != nil {
		c.Violation("arguments are not generated", kase, err.Error())
		return
	}
	c.Distinct("states", strings.Join(args, "\x00"))
	c.Add("steps", int64(len(args)))
	got, err := c27parseSuite(args)
	if err != nil {
		c.Violation("the suite does not accept the generated arguments", kase, fmt.Sprintf("%v\n%q", err, args))
		return
	}
	exp := *want
	// only the run-time go flags reach the suite
	exp.C = types.NewDefaultCLIConfig()
	exp.Go = types.GoFlagsConfig{}
	for _, f := range c27gorun {
		exp.at(f.path).Set(want.at(f.path))
	}
	exp.S.MustPassRepeatedly, exp.S.EmitSpecProgress = 0, false
	if d := c27diff(got, &exp); d != "" {
		c.Violation("a setting does not reach the suite", kase, fmt.Sprintf("%s\nargs: %q", d, args))
	}
}

type c27set struct {
	f c27flag
	v any
}

func c27all(fs []c27flag) (out []c27set) {
	def := c27default()
	for _, f := range fs {
		for _, v := range c27values(def.at(f.path)) {
			out = append(out, c27set{f, v})
		}
	}
	return
}

func c27cli(c *lib.Ctx, command string, fs []c27flag, sets []c27set, spelling int) {
	// spelling: 0 --n=v, 1 -n=v, 2 --n v, 3 deprecated --n=v
	var args []string
	want := c27default()
	for _, s := range sets {
		name := s.f.name
		if spelling == 3 {
			name = s.f.dep
			if name == "" {
				return
			}
		}
		if command == "suite" {
			name = "ginkgo." + name
		}
		vals := c27render(s.v)
		_, isBool := s.v.(bool)
		dst := want.at(s.f.path)
		if x, ok := s.v.([]string); ok {
			dst.Set(reflect.AppendSlice(dst, reflect.ValueOf(x)))
		} else {
			dst.Set(reflect.ValueOf(s.v))
		}
		for _, v := range vals {
			switch {
			case isBool && v == "true" && spelling == 2:
				args = append(args, "--"+name)
			case isBool || spelling == 0 || spelling == 3:
				args = append(args, "--"+name+"="+v)
			case spelling == 1:
				args = append(args, "-"+name+"="+v)
			default:
				args = append(args, "--"+name, v)
			}
		}
	}
	kase := fmt.Sprintf("ginkgo %s %q", command, args)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	c.Add("steps", int64(len(args)))
	c.Distinct("states", kase)
	got := c27default()
	var set types.GinkgoFlagSet
	var err error
	switch command {
	case "run":
		set, err = types.BuildRunCommandFlagSet(&got.S, &got.R, &got.C, &got.Go)
	case "watch":
		set, err = types.BuildWatchCommandFlagSet(&got.S, &got.R, &got.C, &got.Go)
	case "build":
		set, err = types.BuildBuildCommandFlagSet(&got.C, &got.Go)
	case "labels":
		set, err = types.BuildLabelsCommandFlagSet(&got.C)
	case "suite":
		old := flag.CommandLine
		flag.CommandLine = flag.NewFlagSet("suite", flag.ContinueOnError)
		set, err = types.BuildTestSuiteFlagSet(&got.S, &got.R)
		flag.CommandLine = old
	}
	if err != nil {
		c.Violation("the flag set cannot be built", kase, err.Error())
		return
	}
	rest, err := set.Parse(append(append([]string{}, args...), "pkg", "--", "x"))
	if err != nil {
		c.Violation("a documented flag is rejected", kase, err.Error())
		return
	}
	if strings.Join(rest, "|") != "pkg|--|x" {
		c.Violation("positional arguments are lost", kase, fmt.Sprintf("%q", rest))
	}
	if d := c27diff(got, want); d != "" {
		c.Violation("a flag does not set its setting", kase, d)
		return
	}
	for _, s := range sets {
		n := s.f.name
		if spelling == 3 {
			n = s.f.dep
		}
		if command == "suite" {
			n = "ginkgo." + n
		}
		if l, ok := s.v.([]string); ok && len(l) == 0 {
			continue
		}
		if !set.WasSet(n) {
			c.Violation("WasSet misses a flag", kase, n)
		}
	}
	// whatever the CLI was given has to reach the suite
	if command == "run" || command == "watch" {
		c27handoff(c, kase, got)
	}
}

/* ---------- go build flags ---------- */

// parse go-style flags: a map from name to value
func goFlagsOf(args []string) map[string][]string {
	m := map[string][]string{}
	for _, a := range args {
		n := strings.TrimLeft(a, "-")
		v := "true"
		if i := strings.IndexByte(n, '='); i >= 0 {
			n, v = n[:i], n[i+1:]
		}
		m[n] = append(m[n], v)
	}
	return m
}

func c27compile(c *lib.Ctx, sets []c27set, pkg, path string, keep bool) {
	cfg := types.GoFlagsConfig{}
	var desc []string
	for _, s := range sets {
		(&c27cfg{}).at(s.f.path)
		reflect.ValueOf(&cfg).Elem().FieldByName(strings.TrimPrefix(s.f.path, "Go.")).Set(reflect.ValueOf(s.v))
		desc = append(desc, fmt.Sprintf("%s=%q", s.f.name, c27render(s.v)))
	}
	kase := fmt.Sprintf("go test -c %s for %v, path %s, preserve symbols %v", pkg, desc, path, keep)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	args, err := types.GenerateGoTestCompileArgs(cfg, pkg, path, keep)
	if err != nil {
		c.Violation("compile arguments are not generated", kase, err.Error())
		return
	}
	c.Add("steps", int64(len(args)))
	c.Distinct("states", strings.Join(args, "\x00"))
	if len(args) < 3 || args[0] != "test" || args[1] != "-c" || args[2] != pkg {
		c.Violation("not a 'go test -c' command for the package", kase, fmt.Sprintf("%q", args))
		return
	}
	got := goFlagsOf(args[3:])
	want := map[string][]string{}
	for _, f := range c27gobuild {
		switch v := reflect.ValueOf(cfg).FieldByName(strings.TrimPrefix(f.path, "Go.")).Interface().(type) {
		case bool:
			if v {
				want[f.name] = []string{"true"}
			}
		case string:
			if v != "" {
				want[f.name] = []string{v}
			}
		}
	}
	if cfg.CoverProfile != "" {
		want["cover"] = []string{"true"}
	}
	if cfg.CoverPkg != "" {
		var ps []string
		for _, p := range strings.Split(cfg.CoverPkg, ",") {
			p = strings.Trim(p, " ")
			if strings.HasPrefix(p, "./") {
				p = "./" + filepath.Clean(path+"/"+p[2:])
			}
			ps = append(ps, p)
		}
		want["coverpkg"] = []string{strings.Join(ps, ",")}
	}
	profiles := cfg.BlockProfile + cfg.CPUProfile + cfg.MemProfile + cfg.MutexProfile
	if cfg.LDFlags == "" && profiles == "" && !keep {
		want["ldflags"] = []string{"-w -s"}
	}
	var out []string
	for _, k := range lib.SortedKeys(want) {
		if !reflect.DeepEqual(got[k], want[k]) {
			out = append(out, fmt.Sprintf("-%s: got %q, want %q", k, got[k], want[k]))
		}
	}
	for _, k := range lib.SortedKeys(got) {
		if want[k] == nil {
			out = append(out, fmt.Sprintf("-%s=%q was not asked for", k, got[k]))
		}
	}
	if out != nil {
		c.Violation("build flags are not passed as given", kase, strings.Join(out, "\n"))
	}
}

func c27gotestrun(c *lib.Ctx, sets []c27set) {
	cfg := &c27cfg{}
	for _, s := range sets {
		cfg.at(s.f.path).Set(reflect.ValueOf(s.v))
	}
	args, err := types.GenerateGoTestRunArgs(cfg.Go)
	kase := fmt.Sprintf("plain go test %q", args)
	if !c.Only(kase) {
		return
	}
	c.Add("executions", 1)
	if err != nil {
		c.Violation("arguments are not generated", kase, err.Error())
		return
	}
	got := goFlagsOf(args)
	want := map[string][]string{"test.v": {"true"}}
	for _, f := range c27gorun {
		n := "test." + f.name
		if f.exp != "" {
			n = "test." + f.exp
		}
		v := cfg.at(f.path)
		if !v.IsZero() {
			want[n] = []string{fmt.Sprint(v.Interface())}
		}
	}
	if !reflect.DeepEqual(got, want) {
		c.Violation("run flags are not passed as given", kase, fmt.Sprintf("got %q\nwant %q", got, want))
	}
}

/* ---------- validation ---------- */

func errKeys(errs []error) []string {
	var o []string
	for _, e := range errs {
		if g, ok := e.(types.GinkgoError); ok {
			o = append(o, g.Heading+"|"+g.Message)
		} else {
			o = append(o, e.Error())
		}
	}
	sort.Strings(o)
	return o
}

func c27vet(c *lib.Ctx) {
	E := types.GinkgoErrors
	counts := []string{"", "1", "2", "0", "x"}
	bad := map[string]bool{"2": true, "0": true, "x": true}
	modes := []string{"", "dup", "SWAP", "none", "pipe"}
	hosts := []string{"", "127.0.0.1:1"}
	graces := []time.Duration{30 * time.Second, 0, -1, 1}
	type ff struct {
		v  []string
		ok bool
	}
	files := []ff{{nil, true}, {[]string{"a_test.go"}, true}, {[]string{"a_test.go:10", "b:2-7,9"}, true}, {[]string{"a:x"}, false}, {[]string{"ok", "b:q-2"}, false}, {[]string{"["}, false}}
	type lf struct {
		v  string
		ok bool
	}
	labels := []lf{{"", true}, {"a && !b", true}, {"a &&", false}}
	dims := []int{3, 4, 2, 2, len(graces), len(files), len(files), len(labels), len(modes), 8, len(counts), 2}
	maxdev := c.Pick(3, 4)
	// every point with at most maxdev settings away from the default, plus the full product of the parallel settings
	lib.Explore(maxdev, func(ch *lib.Chooser) bool {
		t := make([]int, len(dims))
		for i, d := range dims {
			t[i] = ch.Choose(d)
		}
		if !c.Mine() {
			return true
		}
		s := types.NewDefaultSuiteConfig()
		r := types.ReporterConfig{}
		s.ParallelTotal = []int{1, 0, 2}[t[0]]
		s.ParallelProcess = []int{1, 0, 2, 3}[t[1]]
		s.ParallelHost = hosts[t[2]]
		s.DryRun = t[3] == 1
		s.GracePeriod = graces[t[4]]
		s.FocusFiles, s.SkipFiles = files[t[5]].v, files[t[6]].v
		s.LabelFilter = labels[t[7]].v
		s.OutputInterceptorMode = modes[t[8]]
		r.Succinct, r.Verbose, r.VeryVerbose = t[9]&1 != 0, t[9]&2 != 0, t[9]&4 != 0
		kase := fmt.Sprintf("validate total=%d process=%d host=%q dry=%v grace=%v focus-file=%q skip-file=%q label=%q mode=%q succinct=%v v=%v vv=%v count=%q parallel=%v", s.ParallelTotal, s.ParallelProcess, s.ParallelHost, s.DryRun, s.GracePeriod, s.FocusFiles, s.SkipFiles, s.LabelFilter, s.OutputInterceptorMode, r.Succinct, r.Verbose, r.VeryVerbose, counts[t[10]], t[11] == 1)
		if !c.Only(kase) {
			return true
		}
		for _, prefix := range []string{"", "test."} {
			fs := flag.NewFlagSet("x", flag.ContinueOnError)
			fs.SetOutput(nopWriter{})
			fs.String(prefix+"count", "1", "")
			fs.Int(prefix+"parallel", 4, "")
			old := flag.CommandLine
			flag.CommandLine = fs
			var s0 types.SuiteConfig
			var r0 types.ReporterConfig
			set, err := types.BuildTestSuiteFlagSet(&s0, &r0)
			flag.CommandLine = old
			if err != nil {
				c.Violation("the flag set cannot be built", kase, err.Error())
				return true
			}
			var args []string
			if counts[t[10]] != "" {
				args = append(args, "--"+prefix+"count="+counts[t[10]])
			}
			if t[11] == 1 {
				args = append(args, "--"+prefix+"parallel=2")
			}
			if _, err := set.Parse(args); err != nil {
				panic(err)
			}
			c.Case(kase)
			c.Add("executions", 1)
			c.Add("steps", int64(len(dims)))
			got := errKeys(types.VetConfig(set, s, r))
			var want []error
			free := 0 // errors whose text is that of a parser
			if bad[counts[t[10]]] {
				want = append(want, E.InvalidGoFlagCount())
			}
			if t[11] == 1 {
				want = append(want, E.InvalidGoFlagParallel())
			}
			if s.ParallelTotal < 1 {
				want = append(want, E.InvalidParallelTotalConfiguration())
			}
			if s.ParallelProcess < 1 || s.ParallelProcess > s.ParallelTotal {
				want = append(want, E.InvalidParallelProcessConfiguration())
			}
			if s.ParallelTotal > 1 && s.ParallelHost == "" {
				want = append(want, E.MissingParallelHostConfiguration())
			}
			if s.ParallelTotal > 1 && s.DryRun {
				want = append(want, E.DryRunInParallelConfiguration())
			}
			if s.GracePeriod <= 0 {
				want = append(want, E.GracePeriodCannotBeZero())
			}
			for _, ok := range []bool{files[t[5]].ok, files[t[6]].ok, labels[t[7]].ok} {
				if !ok {
					free++
				}
			}
			if t[8] == 4 {
				want = append(want, E.InvalidOutputInterceptorModeConfiguration("pipe"))
			}
			if b2i(r.Succinct)+b2i(r.Verbose)+b2i(r.VeryVerbose) > 1 {
				want = append(want, E.ConflictingVerbosityConfiguration())
			}
			c.Distinct("states", fmt.Sprint(got))
			wk := errKeys(want)
			var missing []string
			for _, w := range wk {
				found := false
				for _, g := range got {
					found = found || g == w
				}
				if !found {
					missing = append(missing, w)
				}
			}
			// two identical parse errors may appear as two errors
			if missing != nil || len(got) != len(wk)+free {
				c.Violation("validation accepts what it must reject or rejects what it must accept", kase, fmt.Sprintf("got %d errors: %q\nwant: %q and %d parse errors; missing %q", len(got), got, wk, free, missing))
			}
		}
		return !c.Stop()
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c27vetcli(c *lib.Ctx) {
	E := types.GinkgoErrors
	dir, err := os.MkdirTemp("", "c27")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.WriteFile(dir+"/file", nil, 0o644)
	paths := []string{"", "p.out", "d/p.out", "/abs"}
	outdirs := []string{"", dir + "/new/deep", dir, dir + "/file/x"}
	dims := []int{3, 2, 4, 4, 4, 4, 4, 4, 2, 3, 2}
	lib.Explore(c.Pick(3, 5), func(ch *lib.Chooser) bool {
		t := make([]int, len(dims))
		for i, d := range dims {
			t[i] = ch.Choose(d)
		}
		if !c.Mine() {
			return true
		}
		cli, g := types.NewDefaultCLIConfig(), types.GoFlagsConfig{}
		cli.Repeat = []int{0, 1, -1}[t[0]]
		cli.UntilItFails = t[1] == 1
		g.CoverProfile, g.CPUProfile, g.MemProfile, g.BlockProfile, g.MutexProfile = paths[t[2]], paths[t[3]], paths[t[4]], paths[t[5]], paths[t[6]]
		cli.OutputDir = outdirs[t[7]]
		g.Cover = t[8] == 1
		g.CoverMode = []string{"", "atomic", "set"}[t[9]]
		g.CoverPkg = []string{"", "./..."}[t[10]]
		kase := fmt.Sprintf("validate the CLI's settings %+v %+v", cli, g)
		kase = strings.ReplaceAll(kase, dir, "DIR")
		if !c.Only(kase) {
			return true
		}
		c.Case(kase)
		c.Add("executions", 1)
		var want []error
		free := 0
		if cli.Repeat > 0 && cli.UntilItFails {
			want = append(want, E.BothRepeatAndUntilItFails())
		}
		for i, p := range []struct{ n, v string }{{"--coverprofile", g.CoverProfile}, {"--cpuprofile", g.CPUProfile}, {"--memprofile", g.MemProfile}, {"--blockprofile", g.BlockProfile}, {"--mutexprofile", g.MutexProfile}} {
			_ = i
			if strings.Contains(p.v, "/") {
				want = append(want, E.ExpectFilenameNotPath(p.n, p.v))
			}
		}
		if t[7] == 3 {
			free++
		}
		c2, g2, errs := types.VetAndInitializeCLIAndGoConfig(cli, g)
		got, wk := errKeys(errs), errKeys(want)
		c.Distinct("states", strings.ReplaceAll(fmt.Sprint(got, g2), dir, "DIR"))
		missing := 0
		for _, w := range wk {
			f := false
			for _, x := range got {
				f = f || x == w
			}
			if !f {
				missing++
			}
		}
		if missing > 0 || len(got) != len(wk)+free {
			c.Violation("validation accepts what it must reject or rejects what it must accept", kase, fmt.Sprintf("got %q\nwant %q and %d others", got, wk, free))
		}
		if t[7] == 1 {
			if st, err := os.Stat(outdirs[1]); err != nil || !st.IsDir() {
				c.Violation("the output directory is not created", kase, fmt.Sprint(err))
			}
			os.RemoveAll(dir + "/new")
		}
		wg := g
		if g.CoverMode != "" || g.CoverPkg != "" || g.CoverProfile != "" {
			wg.Cover = true
		}
		if wg.Cover && wg.CoverProfile == "" {
			wg.CoverProfile = "coverprofile.out"
		}
		if g2 != wg || c2 != cli {
			c.Violation("initialisation changes a setting", kase, fmt.Sprintf("got %+v %+v\nwant %+v %+v", c2, g2, cli, wg))
		}
		return !c.Stop()
	})
}

func c27(c *lib.Ctx) {
	suite := cat(c27suite, c27reporter, c27parallel, c27gorun)
	// the tables must cover every field there is
	have := map[string]bool{}
	for _, f := range cat(suite, c27gobuild, c27shared, c27runwatch, c27runonly, c27watchonly) {
		have[f.path] = true
	}
	def := reflect.ValueOf(c27default()).Elem()
	for i := 0; i < def.NumField(); i++ {
		for j := 0; j < def.Field(i).NumField(); j++ {
			p := def.Type().Field(i).Name + "." + def.Field(i).Type().Field(j).Name
			if !have[p] && !c27noflag[p] {
				c.Note("the setting " + p + " is not in the tables of this check")
			}
		}
	}
	if c.Shard == 0 {
		for _, e := range []struct {
			cmd string
			bad []string
		}{
			{"run", []string{"--no-such-flag", "--depth=2", "--watch-regexp=x", "--parallel.total=2", "--seed=x", "--timeout=5", "--flake-attempts=1.5", "--v=maybe", "--ginkgo.seed=1"}},
			{"watch", []string{"--keep-going", "--until-it-fails", "--repeat=2", "--randomize-suites", "--nope"}},
			{"build", []string{"--focus=x", "--procs=2", "--coverprofile=x", "--v", "--seed=1"}},
			{"labels", []string{"--procs=2", "--race", "--focus=x"}},
		} {
			for _, b := range e.bad {
				cfg := c27default()
				set := c27flagset(e.cmd, cfg)
				c.Add("executions", 1)
				if _, err := set.Parse([]string{b}); err == nil {
					c.Violation("a flag or value that is not allowed is accepted", "ginkgo "+e.cmd+" "+b, "no error")
				}
			}
		}
	}

	// 1. hand-off
	sets := c27all(suite)
	mustpass := []int{0, 3}
	for i, a := range sets {
		if !c.Mine() {
			continue
		}
		for j := i; j < len(sets); j++ {
			b := sets[j]
			if b.f.path == a.f.path && j != i {
				continue
			}
			w := c27default()
			w.at(a.f.path).Set(reflect.ValueOf(a.v))
			w.at(b.f.path).Set(reflect.ValueOf(b.v))
			w.S.MustPassRepeatedly = mustpass[(i+j)%2]
			c27handoff(c, fmt.Sprintf("%s=%q %s=%q", a.f.name, c27render(a.v), b.f.name, c27render(b.v)), w)
			if c.Thorough() {
				for k := j + 1; k < len(sets); k++ {
					d := sets[k]
					if d.f.path == b.f.path || (k+j+i)%3 != 0 && len(c27render(d.v)) < 2 {
						continue
					}
					w2 := *w
					w2.at(d.f.path).Set(reflect.ValueOf(d.v))
					c27handoff(c, fmt.Sprintf("%s=%q %s=%q %s=%q", a.f.name, c27render(a.v), b.f.name, c27render(b.v), d.f.name, c27render(d.v)), &w2)
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	// all settings away from their defaults at once
	for n := 0; n < 12; n++ {
		w := c27default()
		for _, f := range suite {
			vs := c27values(w.at(f.path))
			w.at(f.path).Set(reflect.ValueOf(vs[n%len(vs)]))
		}
		c27handoff(c, fmt.Sprintf("all settings at once, values no. %d", n), w)
	}

	// 2. the command lines
	cmds := []struct {
		name string
		fs   []c27flag
	}{
		{"run", cat(c27suite, c27reporter, c27shared, c27runwatch, c27runonly, c27gobuild, c27gorun)},
		{"watch", cat(c27suite, c27reporter, c27shared, c27runwatch, c27watchonly, c27gobuild, c27gorun)},
		{"build", cat(c27shared, c27gobuild)},
		{"labels", c27shared[:2]},
		{"suite", cat(c27suite, c27parallel, c27reporter)},
	}
	for _, cmd := range cmds {
		all := c27all(cmd.fs)
		for _, a := range all {
			if !c.Mine() {
				continue
			}
			for sp := 0; sp < 4; sp++ {
				c27cli(c, cmd.name, cmd.fs, []c27set{a}, sp)
			}
			// with every other flag (all values for flags of the same field: repeated flags accumulate or the last one wins)
			for _, b := range all {
				same := a.f.path == b.f.path
				vals := c27render(b.v)
				if !same && !c.Thorough() && len(vals) > 0 && vals[0] != "true" && vals[0] != "a b" && vals[0] != "2" && vals[0] != "1.5s" && vals[0] != "b" {
					continue
				}
				c27cli(c, cmd.name, cmd.fs, []c27set{a, b}, 0)
			}
			if c.Stop() {
				return
			}
		}
	}

	// 3. build flags
	gb := append(c27all(c27gobuild), c27all(c27gorun)...)
	for _, s := range []string{"./...", "./a, ./b/c", "x/y,./z", "./", "./a/../b", "example.com/..."} {
		gb = append(gb, c27set{c27flag{"coverpkg", "Go.CoverPkg", "", ""}, s})
	}
	for i, a := range gb {
		if !c.Mine() {
			continue
		}
		for j := i; j < len(gb); j++ {
			for k := 0; k < 4; k++ {
				c27compile(c, []c27set{a, gb[j]}, []string{".", "./p"}[k&1], []string{".", "../.."}[k&1], k&2 != 0)
			}
			if c.Stop() {
				return
			}
		}
	}
	gr := c27all(c27gorun)
	for i, a := range gr {
		if !c.Mine() {
			continue
		}
		for j := i; j < len(gr); j++ {
			c27gotestrun(c, []c27set{a, gr[j]})
		}
	}

	// 4. validation
	c27vet(c)
	c27vetcli(c)

	// an explicit false where go's own default is not false
	if c.Shard == 0 {
		cfg := c27default()
		set := c27flagset("run", cfg)
		kase := "ginkgo run --buildvcs=false"
		if _, err := set.Parse([]string{"--buildvcs=false"}); err != nil {
			c.Violation("a documented flag is rejected", kase, err.Error())
		} else if args, err := types.GenerateGoTestCompileArgs(cfg.Go, ".", ".", false); err != nil || goFlagsOf(args[3:])["buildvcs"] == nil {
			c.Violation("an explicit --buildvcs=false is not passed to the go tool", kase, fmt.Sprintf("%q %v", args, err))
		}
	}
	c.Bound("values", "every setting x up to 12 values, alone and in pairs (thorough: triples), 4 spellings")
	c.Bound("validation", fmt.Sprintf("up to %d settings away from their defaults, of 12", c.Pick(3, 4)))
	c.Sample(map[string]any{"case": "focus=[\"--focus=z\" \"-\"] timeout=90m", "args": "--ginkgo.focus=--focus=z --ginkgo.focus=- --ginkgo.timeout=1h30m0s"})
}

func c27flagset(cmd string, got *c27cfg) types.GinkgoFlagSet {
	var set types.GinkgoFlagSet
	switch cmd {
	case "run":
		set, _ = types.BuildRunCommandFlagSet(&got.S, &got.R, &got.C, &got.Go)
	case "watch":
		set, _ = types.BuildWatchCommandFlagSet(&got.S, &got.R, &got.C, &got.Go)
	case "build":
		set, _ = types.BuildBuildCommandFlagSet(&got.C, &got.Go)
	case "labels":
		set, _ = types.BuildLabelsCommandFlagSet(&got.C)
	}
	return set
}
