package pure

import (
	"bytes"
	"context"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal"
	. "github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C36"] = c36 }

type c36cfg struct {
	v                                                      types.VerbosityLevel
	parallel, noColor, silence, github, nodes, nls, traces bool
}

func (k c36cfg) String() string {
	return fmt.Sprintf("verbosity=%d parallel=%v no-color=%v silence-skips=%v github=%v node-events=%v newlines=%v trace=%v", k.v, k.parallel, k.noColor, k.silence, k.github, k.nodes, k.nls, k.traces)
}

func (k c36cfg) conf() types.ReporterConfig {
	r := types.NewDefaultReporterConfig()
	r.Succinct, r.Verbose, r.VeryVerbose = k.v == types.VerbosityLevelSuccinct, k.v == types.VerbosityLevelVerbose, k.v == types.VerbosityLevelVeryVerbose
	r.NoColor, r.SilenceSkips, r.GithubOutput, r.ShowNodeEvents, r.ForceNewlines, r.FullTrace = k.noColor, k.silence, k.github, k.nodes, k.nls, k.traces
	return r
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func c36norm(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(ansi.ReplaceAllString(s, ""), "{{red}}", ""), "\r", "")
}

// inOrder says whether all lines of all texts occur in this order in out
func inOrder(out string, texts ...string) (int, string) {
	pos := 0
	for _, text := range texts {
		for _, l := range strings.Split(c36norm(text), "\n") {
			l = strings.TrimSpace(l)
			if l == "" {
				continue
			}
			i := strings.Index(out[pos:], l)
			if i < 0 {
				return -1, l
			}
			pos += i + len(l)
		}
	}
	return pos, ""
}

var (
	ranRE     = regexp.MustCompile(`(?m)^Ran (\d+) of (\d+) Specs in ([0-9.]+) seconds$`)
	countsRE  = regexp.MustCompile(`(\d+) Passed \| (\d+) Failed \| (?:(\d+) Flaked \| )?(?:(\d+) Repeated \| )?(\d+) Pending \| (\d+) Skipped\n`)
	attemptRE = regexp.MustCompile(`^Failure recorded during attempt \d+:\n`)
	headings  = map[types.SpecState]string{types.SpecStateFailed: "[FAIL]", types.SpecStatePanicked: "[PANICKED!]", types.SpecStateAborted: "[ABORTED]", types.SpecStateTimedout: "[TIMEDOUT]", types.SpecStateInterrupted: "[INTERRUPTED]"}
)

// c36judge compares the console output of a run with its report.
func c36judge(c *lib.Ctx, kase string, k c36cfg, raw string, rep types.Report) {
	bad := func(sig, f string, a ...any) {
		c.Violation("console: "+sig, kase, fmt.Sprintf(f, a...)+"\n"+raw)
	}
	if k.noColor && strings.Contains(strings.ReplaceAll(raw, "x\x00\x1b[31m\x0b", ""), "\x1b") {
		bad("escape sequences despite no-color", "")
	}
	out := c36norm(raw)
	var np, nf, nflaked, nrepeated, npend, nskip int
	var failed []types.SpecReport
	its := 0
	bsFailed := false
	for _, s := range rep.SpecReports {
		fails := s.State.Is(types.SpecStateFailed | types.SpecStatePanicked | types.SpecStateAborted | types.SpecStateTimedout | types.SpecStateInterrupted)
		if fails {
			failed = append(failed, s)
			if s.LeafNodeType.Is(types.NodeTypeBeforeSuite | types.NodeTypeSynchronizedBeforeSuite) {
				bsFailed = true
			}
		}
		if s.LeafNodeType != types.NodeTypeIt {
			continue
		}
		its++
		switch {
		case fails:
			nf++
			if s.MaxMustPassRepeatedly > 1 && s.NumAttempts > 1 {
				nrepeated++
			}
		case s.State == types.SpecStatePassed:
			np++
			if s.MaxFlakeAttempts > 1 && s.NumAttempts > 1 {
				nflaked++
			}
		case s.State == types.SpecStatePending:
			npend++
		case s.State == types.SpecStateSkipped:
			nskip++
		}
	}

	// 1. the verdict is the end of the output
	body := out
	if k.v == types.VerbosityLevelSuccinct && rep.SuiteSucceeded {
		end := fmt.Sprintf(" SUCCESS! %s ", rep.RunTime)
		if !strings.HasSuffix(out, end) {
			bad("the output does not end with the verdict", "%q", end)
			return
		}
		body = strings.TrimSuffix(out, end)
		if strings.Contains(body, "FAIL!") {
			bad("two verdicts", "")
		}
	} else {
		m := ranRE.FindAllStringSubmatchIndex(out, -1)
		if len(m) != 1 {
			bad("not exactly one line 'Ran x of y Specs'", "%d", len(m))
			return
		}
		tail := out[m[0][1]:]
		body = out[:m[0][0]]
		g := ranRE.FindStringSubmatch(out)
		if g[1] != strconv.Itoa(np+nf) || g[2] != strconv.Itoa(rep.PreRunStats.TotalSpecs) || g[3] != fmt.Sprintf("%.3f", rep.RunTime.Seconds()) {
			bad("wrong line 'Ran x of y Specs'", "%q: %d passed, %d failed, %d in total", g[0], np, nf, rep.PreRunStats.TotalSpecs)
		}
		verdict := "FAIL!"
		if rep.SuiteSucceeded {
			verdict = "SUCCESS!"
		}
		if p, l := inOrder(tail, append([]string{verdict}, rep.SpecialSuiteFailureReasons...)...); p < 0 {
			bad("wrong verdict or the reasons are missing", "lacks %q", l)
		}
		if rep.SuiteSucceeded && strings.Contains(tail, "FAIL!") || !rep.SuiteSucceeded && strings.Contains(tail, "SUCCESS!") {
			bad("two verdicts", "")
		}
		if its == 0 && bsFailed {
			if !strings.Contains(tail, "A BeforeSuite node failed so all tests were skipped.") {
				bad("the failed BeforeSuite is not mentioned", "%q", tail)
			}
		} else {
			cm := countsRE.FindStringSubmatch(tail)
			n := func(s string) int { v, _ := strconv.Atoi(s); return v }
			if cm == nil || n(cm[1]) != np || n(cm[2]) != nf || n(cm[3]) != nflaked || n(cm[4]) != nrepeated || n(cm[5]) != npend || n(cm[6]) != nskip {
				bad("the counts do not agree with the spec reports", "%q: passed %d failed %d flaked %d repeated %d pending %d skipped %d", cm, np, nf, nflaked, nrepeated, npend, nskip)
			} else if !strings.HasSuffix(tail, cm[0]) {
				bad("the output does not end with the counts", "%q", tail)
			}
		}
	}

	// 2. the summary of failures
	sum := ""
	if i := strings.LastIndex(body, "Summarizing "); i >= 0 && len(failed) > 0 {
		body, sum = body[:i], body[i:]
	}
	if len(failed) == 0 && strings.Contains(body, "Summarizing ") || len(failed) > 0 && sum == "" {
		bad("a summary of failures without failures, or none", "")
		return
	}
	if len(failed) > 0 {
		want := "Summarizing 1 Failure:"
		if len(failed) > 1 {
			want = fmt.Sprintf("Summarizing %d Failures:", len(failed))
		}
		texts := []string{want}
		for _, s := range failed {
			texts = append(texts, headings[s.State])
			texts = append(texts, s.ContainerHierarchyTexts...)
			texts = append(texts, s.LeafNodeText, fmt.Sprintf("%s:%d", s.Failure.Location.FileName, s.Failure.Location.LineNumber))
		}
		if p, l := inOrder(sum, texts...); p < 0 {
			bad("the summary lacks a failure", "lacks %q", l)
		}
		n := 0
		for _, h := range headings {
			n += strings.Count(sum, h+" ")
		}
		if n != len(failed) {
			bad("the summary lists something that did not fail, or twice", "%d entries for %d failures", n, len(failed))
		}
	}

	// 3. each spec
	at := func(f types.Failure) string {
		if k.github {
			return fmt.Sprintf("file=%s,line=%d", f.Location.FileName, f.Location.LineNumber)
		}
		return fmt.Sprintf("%s:%d", f.Location.FileName, f.Location.LineNumber)
	}
	vv := k.v == types.VerbosityLevelVeryVerbose
	verbose := k.v >= types.VerbosityLevelVerbose
	pos := 0
	for _, s := range rep.SpecReports {
		if s.State == types.SpecStateSkipped && k.silence {
			continue
		}
		isFail := s.State.Is(types.SpecStateFailureStates)
		texts := append(append([]string{}, s.ContainerHierarchyTexts...), s.LeafNodeText)
		if !s.LeafNodeType.Is(types.NodeTypesForSuiteLevelNodes) && (isFail || vv || verbose && s.State != types.SpecStateSkipped || s.State == types.SpecStatePending && k.v > types.VerbosityLevelSuccinct) || isFail {
			p, l := inOrder(body[pos:], texts...)
			if p < 0 {
				bad("a spec's text is missing", "%s: lacks %q", s.LeafNodeText, l)
				return
			}
			if k.v < types.VerbosityLevelVerbose || k.parallel { // otherwise failures are printed between header and result
				pos += p
			}
		}
		if isFail {
			check := func(f types.Failure, count int, what string) {
				if p, l := inOrder(body, f.Message, at(f)); count > 0 && (p < 0 || !strings.Contains(body, at(f))) {
					bad("the message or location of a failure is missing", "%s of %s: lacks %q", what, s.LeafNodeText, l)
				}
				marker := strings.TrimSpace(strings.SplitN(c36norm(f.Message), "\n", 2)[0])
				if f.ForwardedPanic != "" {
					marker = strings.TrimSpace(strings.SplitN(c36norm(f.ForwardedPanic), "\n", 2)[0])
				}
				if n := linesEnding(body, marker); n != count && marker != "" {
					bad("a failure is not printed exactly as often as it should", "%s of %s: %q is there %d times, want %d", what, s.LeafNodeText, marker, n, count)
				}
				if f.ForwardedPanic != "" && count > 0 {
					if p, l := inOrder(body, f.ForwardedPanic, f.Location.FullStackTrace); p < 0 {
						bad("a panic's value or stack trace is missing", "lacks %q", l)
					}
				}
			}
			check(s.Failure, 1, "failure")
			if s.Failure.AdditionalFailure != nil {
				check(s.Failure.AdditionalFailure.Failure, 1, "nested failure")
			}
			for _, a := range s.AdditionalFailures {
				// (the heading of a retried failure is not there while the failure is streamed)
				a.Failure.Message = attemptRE.ReplaceAllString(a.Failure.Message, "")
				if vv {
					check(a.Failure, 1, "additional failure")
				} else if !strings.Contains(body, fmt.Sprintf("[%s] in [%s] - %s:%d", strings.ToUpper(stateNames[a.State]), nodeNames[a.Failure.FailureNodeType], a.Failure.Location.FileName, a.Failure.Location.LineNumber)) {
					bad("an additional failure is not mentioned", "%s: %s", s.LeafNodeText, a.Failure.Message)
				} else if !strings.Contains(body, "There were additional failures detected") {
					bad("additional failures are not mentioned", "%s", s.LeafNodeText)
				}
			}
		}
		for _, e := range s.ReportEntries {
			want := 0
			if e.Visibility == types.ReportEntryVisibilityAlways || e.Visibility == types.ReportEntryVisibilityFailureOrVerbose && (isFail || verbose) {
				want = 1
			}
			if n := strings.Count(body, e.Name+" - "); n != want {
				bad("a report entry is not shown as its visibility says", "%s (visibility %v, state %s): there %d times, want %d", e.Name, e.Visibility, s.State, n, want)
			} else if p, l := inOrder(body, e.Name, e.StringRepresentation()); want == 1 && p < 0 {
				bad("the representation of a report entry is missing", "%s: lacks %q", e.Name, l)
			}
		}
		if k.parallel && s.CapturedStdOutErr != "" {
			if p, l := inOrder(body, s.CapturedStdOutErr); p < 0 {
				bad("captured output is missing", "%s: lacks %q", s.LeafNodeText, l)
			}
		}
		if s.CapturedGinkgoWriterOutput != "" && (isFail && !verbose || k.parallel && (isFail || verbose)) {
			sq := squeeze(body)
			if s.NumAttempts <= 1 {
				p := 0
				for _, r := range squeeze(c36norm(s.CapturedGinkgoWriterOutput)) {
					i := strings.IndexRune(sq[p:], r)
					if i < 0 {
						bad("GinkgoWriter output is missing", "%s: lacks %q", s.LeafNodeText, s.CapturedGinkgoWriterOutput)
						break
					}
					p += i + len(string(r))
				}
			}
		}
	}
}

// linesEnding counts the lines that end with the text
func linesEnding(out, text string) (n int) {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasSuffix(strings.TrimSpace(l), text) {
			n++
		}
	}
	return
}

// c36emit makes the calls that a suite makes for a spec
func c36emit(r reporters.Reporter, s types.SpecReport, parallel bool) {
	s.RunningInParallel = parallel
	will := s
	if s.State != types.SpecStatePending && s.State != types.SpecStateSkipped {
		will.State, will.Failure, will.AdditionalFailures = types.SpecStatePassed, types.Failure{}, nil
	}
	if parallel {
		will = s
	}
	r.WillRun(will)
	if !parallel {
		for _, e := range s.Timeline() {
			switch x := e.(type) {
			case types.Failure:
				r.EmitFailure(s.State, x)
			case types.AdditionalFailure:
				if s.Failure.AdditionalFailure != nil && x.Failure.TimelineLocation.Order == s.Failure.AdditionalFailure.Failure.TimelineLocation.Order {
					continue
				}
				r.EmitFailure(x.State, x.Failure)
			case types.ReportEntry:
				r.EmitReportEntry(x)
			case types.SpecEvent:
				r.EmitSpecEvent(x)
			case types.ProgressReport:
				r.EmitProgressReport(x)
			}
		}
	}
	r.DidRun(s)
}

var c36configs []c36cfg

func c36allConfigs() []c36cfg {
	if c36configs == nil {
		for m := 0; m < 128; m++ {
			for _, v := range []types.VerbosityLevel{types.VerbosityLevelSuccinct, types.VerbosityLevelNormal, types.VerbosityLevelVerbose, types.VerbosityLevelVeryVerbose} {
				b := func(i int) bool { return m>>i&1 == 1 }
				c36configs = append(c36configs, c36cfg{v, b(0), !b(1), b(2), b(3), b(4), b(5), b(6)})
			}
		}
	}
	return c36configs
}

func c36(c *lib.Ctx) {
	c36synthetic(c)
	c36vectors(c)
	c36real(c)
	c.Sample(map[string]any{"configuration": c36allConfigs()[77].String()})
}

func c36show(c *lib.Ctx, kase string, k c36cfg, specs []types.SpecReport, ks int) {
	rep := c22suite(specs, ks)
	fails := false
	its := 0
	for _, s := range specs {
		fails = fails || s.State.Is(types.SpecStateFailureStates)
		if s.LeafNodeType == types.NodeTypeIt {
			its++
		}
	}
	rep.SuiteSucceeded = !fails && len(rep.SpecialSuiteFailureReasons) == 0
	rep.PreRunStats = types.PreRunStats{TotalSpecs: its + ks, SpecsThatWillRun: its}
	var buf bytes.Buffer
	r := reporters.NewDefaultReporter(k.conf(), &buf)
	r.SuiteWillBegin(rep)
	for _, s := range specs {
		c36emit(r, s, k.parallel)
	}
	r.SuiteDidEnd(rep)
	c.Add("executions", 1)
	c.Add("steps", int64(len(specs)+2))
	c.Distinct("states", buf.String())
	if k.parallel {
		for i := range specs {
			specs[i].RunningInParallel = true
		}
	}
	c36judge(c, kase, k, buf.String(), rep)
}

// one spec with everything, in every configuration
func c36synthetic(c *lib.Ctx) {
	maxdev := c.Pick(1, 2)
	// dims of c22report, then failure context, visibility of an entry, attempts, suite
	dims := append(append([]int{}, c22dims...), 4, 4, 4, 4)
	n := len(c22dims)
	lib.Explore(maxdev, func(ch *lib.Chooser) bool {
		d := make([]int, len(dims))
		for i, x := range dims {
			d[i] = ch.ChooseCost(x, func(v int) int {
				if v == 0 || i == 0 {
					return 0
				}
				return 1
			})
		}
		if !c.Mine() {
			return true
		}
		if d[n+1] > 0 && d[12] == 0 {
			d[12] = 1 + d[n+1]%3
		}
		s := c36spec(d, n)
		for _, k := range c36allConfigs() {
			kase := fmt.Sprintf("one spec %s %s", lib.IntsString(d), k)
			if !c.Only(kase) {
				continue
			}
			c.Case(kase)
			c36show(c, kase, k, []types.SpecReport{s}, d[n+3])
		}
		return !c.Stop()
	})
	c.Bound("one spec", fmt.Sprintf("every state x up to %d other attributes away from their defaults x all %d configurations", maxdev, len(c36allConfigs())))
}

func c36spec(d []int, n int) types.SpecReport {
	s, _, _ := c22report(d[:n])
	if !s.LeafNodeType.Is(types.NodeTypeIt | types.NodeTypesForSuiteLevelNodes) {
		s.LeafNodeType = types.NodeTypeIt // nothing else is reported
	}
	mark := func(f *types.Failure, m string, line int) {
		f.Message = m + " " + f.Message
		f.Location.LineNumber = line
		if f.ForwardedPanic != "" {
			f.ForwardedPanic = m + "-panic " + f.ForwardedPanic
		}
	}
	if s.State.Is(types.SpecStateFailureStates) {
		mark(&s.Failure, "MSG1", 41)
		if s.State == types.SpecStatePanicked && s.Failure.ForwardedPanic == "" {
			s.Failure.ForwardedPanic = "MSG1-panic"
		}
		if s.Failure.AdditionalFailure != nil {
			a := *s.Failure.AdditionalFailure
			mark(&a.Failure, "MSG2", 42)
			s.Failure.AdditionalFailure = &a
		}
		for i := range s.AdditionalFailures {
			mark(&s.AdditionalFailures[i].Failure, fmt.Sprint("MSG", 3+i), 43+i)
		}
	}
	if s.Failure.Message != "" || s.State.Is(types.SpecStateFailureStates) {
		switch d[n] {
		case 1:
			s.Failure.FailureNodeContext, s.Failure.FailureNodeType, s.Failure.FailureNodeLocation = types.FailureNodeAtTopLevel, types.NodeTypeBeforeEach, types.CodeLocation{FileName: "top_test.go", LineNumber: 5}
		case 2, 3:
			if l := len(s.ContainerHierarchyTexts); l > 0 {
				s.Failure.FailureNodeContext, s.Failure.FailureNodeContainerIndex, s.Failure.FailureNodeType, s.Failure.FailureNodeLocation = types.FailureNodeInContainer, (d[n]-2)%l, types.NodeTypeAfterEach, types.CodeLocation{FileName: "in_test.go", LineNumber: 6}
			}
		}
	}
	for i := range s.ReportEntries {
		s.ReportEntries[i].Visibility = []types.ReportEntryVisibility{types.ReportEntryVisibilityNever, types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityFailureOrVerbose, types.ReportEntryVisibilityAlways}[d[n+1]]
	}
	s.NumAttempts = 1
	switch d[n+2] {
	case 1:
		s.NumAttempts, s.MaxFlakeAttempts = 2, 3
	case 2:
		s.NumAttempts, s.MaxMustPassRepeatedly = 2, 3
	case 3:
		s.NumAttempts, s.MaxFlakeAttempts = 1, 3
	}
	return s
}

// vectors of states: counts, summary, and the stream of denoters
func c36vectors(c *lib.Ctx) {
	maxn := c.Pick(4, 5)
	kinds := []struct {
		state types.SpecState
		node  types.NodeType
		att   int // 1: flaked, 2: repeated
	}{{types.SpecStatePassed, types.NodeTypeIt, 0}, {types.SpecStateFailed, types.NodeTypeIt, 0}, {types.SpecStatePending, types.NodeTypeIt, 0}, {types.SpecStateSkipped, types.NodeTypeIt, 0}, {types.SpecStatePanicked, types.NodeTypeIt, 0},
		{types.SpecStatePassed, types.NodeTypeIt, 1}, {types.SpecStateFailed, types.NodeTypeIt, 2}, {types.SpecStatePassed, types.NodeTypeBeforeSuite, 0}, {types.SpecStateFailed, types.NodeTypeBeforeSuite, 0}, {types.SpecStateTimedout, types.NodeTypeIt, 0}, {types.SpecStateAborted, types.NodeTypeReportAfterSuite, 0}, {types.SpecStateInterrupted, types.NodeTypeCleanupAfterSuite, 0}}
	var rec func(v []int)
	rec = func(v []int) {
		if c.Mine() {
			for ci, k := range []c36cfg{{v: types.VerbosityLevelSuccinct, noColor: true}, {v: types.VerbosityLevelNormal, noColor: true}, {v: types.VerbosityLevelVerbose, noColor: true, parallel: true}, {v: types.VerbosityLevelVeryVerbose}, {v: types.VerbosityLevelNormal, noColor: true, silence: true, nls: true}} {
				kase := fmt.Sprintf("vector %v %s", v, k)
				if !c.Only(kase) {
					continue
				}
				c.Case(kase)
				var specs []types.SpecReport
				denoters := ""
				plain := true
				for i, x := range v {
					kd := kinds[x]
					s := types.SpecReport{State: kd.state, LeafNodeType: kd.node, LeafNodeText: fmt.Sprint("spec", i), LeafNodeLocation: types.CodeLocation{FileName: "s_test.go", LineNumber: 10 + i}, NumAttempts: 1, RunTime: time.Second}
					if kd.state.Is(types.SpecStateFailureStates) {
						s.Failure = types.Failure{Message: fmt.Sprintf("MSG-%d.", i), Location: types.CodeLocation{FileName: "f_test.go", LineNumber: 50 + i}, FailureNodeType: kd.node, FailureNodeContext: types.FailureNodeIsLeafNode, FailureNodeLocation: s.LeafNodeLocation}
						if kd.state == types.SpecStatePanicked {
							s.Failure.ForwardedPanic = fmt.Sprintf("PAN-%d.", i)
						}
					}
					switch kd.att {
					case 1:
						s.NumAttempts, s.MaxFlakeAttempts = 2, 3
					case 2:
						s.NumAttempts, s.MaxMustPassRepeatedly = 2, 3
					}
					specs = append(specs, s)
					switch {
					case x == 0:
						denoters += "•"
					case x == 2 && k.v == types.VerbosityLevelSuccinct:
						denoters += "P"
					case x == 3:
						if k.silence {
							continue
						}
						denoters += "S"
					case x == 7:
						continue
					default:
						plain = false
					}
					if k.nls {
						denoters += "\n"
					}
				}
				c36show(c, kase, k, specs, ci)
				if plain && k.v <= types.VerbosityLevelNormal && ci != 1 && ci != 4 || plain && k.v == types.VerbosityLevelNormal {
					// nothing but denoters between banner and verdict
					var buf bytes.Buffer
					r := reporters.NewDefaultReporter(k.conf(), &buf)
					for _, s := range specs {
						c36emit(r, s, false)
					}
					if buf.String() != denoters {
						c.Violation("console: wrong stream of results", kase, fmt.Sprintf("%q, want %q", buf.String(), denoters))
					}
				}
			}
		}
		if len(v) == maxn || c.Stop() {
			return
		}
		for x := range kinds {
			rec(append(append([]int{}, v...), x))
		}
	}
	rec(nil)
	c.Bound("vectors", fmt.Sprintf("every sequence of up to %d specs or suite nodes of 12 kinds, 5 configurations", maxn))
}

// postClient plays the server: it hands completed specs to the server's reporter.
type postClient struct {
	seqClient
	r    reporters.Reporter
	last types.Report
}

func (p *postClient) PostSuiteWillBegin(r types.Report) error { p.r.SuiteWillBegin(r); return nil }
func (p *postClient) PostDidRun(s types.SpecReport) error     { p.r.WillRun(s); p.r.DidRun(s); return nil }
func (p *postClient) PostSuiteDidEnd(r types.Report) error {
	p.last = r
	p.r.SuiteDidEnd(r)
	return nil
}
func (p *postClient) PostEmitProgressReport(r types.ProgressReport) error {
	p.r.EmitProgressReport(r)
	return nil
}

// real suites, reported to the console
func c36real(c *lib.Ctx) {
	trees := []func() *N{
		func() *N {
			it2 := L(KIt, "I2")
			it2.Flake = 2
			it3 := L(KIt, "I3")
			it3.Pending = true
			return C("", L(KBS, "BS1"), L(KBE, "BE1"), L(KAE, "AE1"), C("A", L(KBE, "BE2"), L(KIt, "I1"), C("B", L(KJAE, "JAE2"), it2)), it3, L(KAS, "AS1"))
		},
		func() *N {
			o := C("O", L(KBA, "BA1"), L(KIt, "I1"), L(KIt, "I2"), L(KAA, "AA1"))
			o.Ordered = true
			r := L(KIt, "I3")
			r.MPR = 2
			return C("", L(KRBE, "RBE1"), o, r, L(KRAE, "RAE1"), L(KSAS, "SAS1"), L(KRAS, "RAS1"))
		},
	}
	var cfgs []c36cfg
	for _, k := range c36allConfigs() {
		if k.noColor && !k.nls && !k.traces && (!k.github || !k.silence) {
			cfgs = append(cfgs, k)
		}
	}
	maxdev := c.Pick(2, 2)
	outcomes := []ActKind{Pass, Fail, Panic, Skip, Abort, FailTwice, FailGoroutine}
	for ti, t := range trees {
		for cfgi, k := range cfgs {
			if !c.Mine() {
				continue
			}
			lib.Explore(maxdev, func(ch *lib.Chooser) bool {
				var buf bytes.Buffer
				cfg := DefaultCfg()
				cfg.FailOnPending = cfgi%3 == 1
				def := reporters.NewDefaultReporter(k.conf(), &buf)
				w := internal.NewWriter(&buf)
				if !(k.v >= types.VerbosityLevelVerbose && !k.parallel) {
					w.SetMode(internal.WriterModeBufferOnly)
				}
				r := &Runner{Cfg: cfg, Writer: w}
				var pc *postClient
				if k.parallel {
					pc = &postClient{r: def}
					r.Client = pc
					r.Cfg.ParallelTotal = 2
				} else {
					r.Extra = def
				}
				r.Decide = func(inv Inv) Act {
					i := ch.ChooseCost(len(outcomes)+1, func(i int) int {
						if i == 0 {
							return 0
						}
						return 1
					})
					if i == len(outcomes) {
						d := 1
						if inv.K == KDC || inv.K == KRBE || inv.K == KRAE || inv.K == KRAS {
							d = 0
						}
						return Act{Kind: Fail, Defers: d}
					}
					return Act{Kind: outcomes[i]}
				}
				r.OnBody = func(inv Inv, a Act, _ context.Context) {
					if inv.K == KIt {
						fmt.Fprintf(w, "out of %s\n", inv.Key())
						ginkgo.AddReportEntry("entry "+inv.Key()+".", "value", ginkgo.ReportEntryVisibilityFailureOrVerbose)
						ginkgo.By("a step")
					}
				}
				f := Prepare(t())
				o := r.Run(f)
				c.Add("executions", 1)
				c.Add("steps", int64(len(o.Events)))
				kase := fmt.Sprintf("real %d %s / %s", ti, k, ch)
				if !c.Only(kase) {
					return true
				}
				if o.Panicked != "" {
					c.Violation("panic", kase, o.Panicked)
					return true
				}
				rep := o.End
				if k.parallel {
					rep = pc.last
				}
				c36judge(c, kase, k, buf.String(), rep)
				return !c.Stop()
			})
		}
	}
	c.Bound("real suites", fmt.Sprintf("%d trees x %d configurations x outcomes with up to %d deviations", len(trees), len(cfgs), maxdev))
}
