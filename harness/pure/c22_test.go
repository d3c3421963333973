package pure

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C22"] = c22 }

/* ---------- an independent XML tree ---------- */

type xnode struct {
	name  string
	attrs map[string]string
	text  string
	kids  []*xnode
}

func parseXML(b []byte) (*xnode, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	d.Strict = true
	var stack []*xnode
	var root *xnode
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &xnode{name: x.Name.Local, attrs: map[string]string{}}
			for _, a := range x.Attr {
				if _, dup := n.attrs[a.Name.Local]; dup {
					return nil, fmt.Errorf("attribute %s appears twice", a.Name.Local)
				}
				n.attrs[a.Name.Local] = a.Value
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root != nil {
				return nil, fmt.Errorf("two root elements")
			} else {
				root = n
			}
			stack = append(stack, n)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, fmt.Errorf("text outside the root element")
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, fmt.Errorf("no complete root element")
	}
	return root, nil
}

func (n *xnode) all(name string) (out []*xnode) {
	for _, k := range n.kids {
		if k.name == name {
			out = append(out, k)
		}
	}
	return
}

func (n *xnode) num(a string) int {
	v, err := strconv.Atoi(n.attrs[a])
	if err != nil {
		return -1000000
	}
	return v
}

// xmltext is what survives of a text in XML: characters XML cannot represent become U+FFFD.
func xmltext(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		ok := r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
		if !ok || r == utf8.RuneError && n == 1 {
			b.WriteRune('\uFFFD')
		} else {
			b.WriteRune(r)
		}
		i += n
	}
	return b.String()
}

var c22texts = []string{"text", "", "<a b='c'>&amp;\"]]>", "line 1\nline 2\r\n\tx\x00\x1b[31m\x0b", "\xff\xfe", "日本 {{red}}%d | ' [x] |n", " lead"}

type c22case struct {
	state, node, msg, panicText, stack, addl, nested, out, gw, text, cont, labels, entries, omit, suite, fctx, special int
}

func c22report(k []int) (types.SpecReport, string, []string) {
	st := allStates[k[0]]
	t := func(i int) string { return c22texts[i%len(c22texts)] }
	s := types.SpecReport{State: st, LeafNodeType: allNodeTypes()[1+k[1]], LeafNodeText: t(k[2]), RunTime: time.Duration([]int64{1500000000, 0, 1, 3600000000000}[k[3]])}
	s.LeafNodeLocation = types.CodeLocation{FileName: "leaf_test.go", LineNumber: 17}
	switch k[4] {
	case 1:
		s.ContainerHierarchyTexts = []string{"outer"}
	case 2:
		s.ContainerHierarchyTexts = []string{"outer", t(3)}
	case 3:
		s.ContainerHierarchyTexts = []string{"", t(2), t(5)}
	}
	for i := range s.ContainerHierarchyTexts {
		s.ContainerHierarchyLabels = append(s.ContainerHierarchyLabels, nil)
		s.ContainerHierarchyLocations = append(s.ContainerHierarchyLocations, types.CodeLocation{FileName: fmt.Sprintf("cont%d_test.go", i), LineNumber: 100 + i})
	}
	switch k[5] {
	case 1:
		s.LeafNodeLabels = []string{"A", "B"}
	case 2:
		s.LeafNodeLabels = []string{"owner:me", "x"}
		if len(s.ContainerHierarchyLabels) > 0 {
			s.ContainerHierarchyLabels[0] = []string{"Owner:you", "x"}
		}
	case 3:
		s.LeafNodeLabels = []string{"a<b", "owner:"}
	}
	failing := st.Is(types.SpecStateFailureStates)
	loc := types.CodeLocation{FileName: "fail_test.go", LineNumber: 33, FullStackTrace: []string{"frame 1\n\tat x:1\nframe 2", "", "<stack>&"}[k[8]%3]}
	if failing || st == types.SpecStateSkipped && k[6] > 0 {
		s.Failure = types.Failure{Message: t(k[6]), Location: loc, FailureNodeType: types.NodeTypeIt, FailureNodeContext: types.FailureNodeIsLeafNode, FailureNodeLocation: s.LeafNodeLocation, TimelineLocation: types.TimelineLocation{Order: 1, Offset: 1}}
		if st == types.SpecStatePanicked {
			s.Failure.ForwardedPanic = t(k[7])
		}
		switch k[9] {
		case 1:
			s.Failure.AdditionalFailure = &types.AdditionalFailure{State: types.SpecStateFailed, Failure: types.Failure{Message: "nested", Location: loc, FailureNodeType: types.NodeTypeAfterEach, TimelineLocation: types.TimelineLocation{Order: 2, Offset: 1}}}
		case 2:
			s.AdditionalFailures = []types.AdditionalFailure{{State: types.SpecStatePanicked, Failure: types.Failure{Message: "additional", ForwardedPanic: "boom", Location: loc, FailureNodeType: types.NodeTypeAfterEach, TimelineLocation: types.TimelineLocation{Order: 3, Offset: 2}}}, {State: types.SpecStateFailed, Failure: types.Failure{Message: "another", Location: loc, FailureNodeType: types.NodeTypeCleanupAfterEach, TimelineLocation: types.TimelineLocation{Order: 4, Offset: 2}}}}
		}
	}
	s.CapturedStdOutErr = t(k[10])
	s.CapturedGinkgoWriterOutput = t(k[11])
	if k[10] == 0 {
		s.CapturedStdOutErr = ""
	}
	if k[11] == 0 {
		s.CapturedGinkgoWriterOutput = ""
	}
	if k[12] > 0 {
		s.ReportEntries = types.ReportEntries{{Name: "an entry", Visibility: types.ReportEntryVisibilityNever, Location: loc, Value: types.WrapEntryValue("entry value " + t(k[12])), TimelineLocation: types.TimelineLocation{Order: 5, Offset: 3}}}
		s.SpecEvents = types.SpecEvents{{SpecEventType: types.SpecEventByStart, Message: "a step", TimelineLocation: types.TimelineLocation{Order: 6, Offset: 3}}}
	}
	// events happen in order of Order, at offsets into what was written by then
	clamp := func(o *int) {
		*o = min(*o, len(s.CapturedGinkgoWriterOutput))
		for *o > 0 && *o < len(s.CapturedGinkgoWriterOutput) && !utf8.RuneStart(s.CapturedGinkgoWriterOutput[*o]) {
			*o--
		}
	}
	clamp(&s.Failure.TimelineLocation.Offset)
	if s.Failure.AdditionalFailure != nil {
		clamp(&s.Failure.AdditionalFailure.Failure.TimelineLocation.Offset)
	}
	for i := range s.AdditionalFailures {
		clamp(&s.AdditionalFailures[i].Failure.TimelineLocation.Offset)
	}
	for i := range s.ReportEntries {
		clamp(&s.ReportEntries[i].TimelineLocation.Offset)
	}
	for i := range s.SpecEvents {
		clamp(&s.SpecEvents[i].TimelineLocation.Offset)
	}
	name := ""
	for _, x := range s.ContainerHierarchyTexts {
		name += x + " "
	}
	if s.LeafNodeText != "" {
		name += s.LeafNodeText
	} else {
		name = strings.TrimSuffix(name, " ")
	}
	var labels []string
	seen := map[string]bool{}
	for _, ls := range append(append([][]string{}, s.ContainerHierarchyLabels...), s.LeafNodeLabels) {
		for _, l := range ls {
			if !seen[l] {
				seen[l] = true
				labels = append(labels, l)
			}
		}
	}
	return s, name, labels
}

var c22dims = []int{9, 20, 7, 4, 4, 4, 7, 7, 3, 3, 7, 7, 4}

func c22suite(specs []types.SpecReport, k int) types.Report {
	r := types.Report{SuiteDescription: c22texts[k%len(c22texts)], SuitePath: "/a/b<c>", SuiteSucceeded: k%2 == 0, RunTime: 2500 * time.Millisecond, StartTime: time.Date(2023, 4, 5, 6, 7, 8, 9, time.UTC), SpecReports: specs}
	r.SuiteConfig = types.NewDefaultSuiteConfig()
	r.SuiteConfig.RandomSeed = 17
	if k%3 == 1 {
		r.SuiteLabels = []string{"sl", "t'u|v"}
		r.SuiteConfig.LabelFilter, r.SuiteConfig.FocusStrings, r.SuiteConfig.SkipFiles = "a && !b", []string{"f<1>", "f2"}, []string{"s1", "s2"}
		r.SpecialSuiteFailureReasons = []string{"reason one", "two & three"}
	}
	return r
}

func contains(hay, needle string) bool { return strings.Contains(hay, needle) }

// linesIn says whether every line of text occurs, in order, in out (up to indentation)
func linesIn(out, text string) bool {
	pos := 0
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		i := strings.Index(out[pos:], l)
		if i < 0 {
			return false
		}
		pos += i + len(l)
	}
	return true
}

func c22junit(c *lib.Ctx, dir, kase string, specs []types.SpecReport, names []string, labels [][]string, cfg reporters.JunitReportConfig, sk int, useDefault bool) *xnode {
	r := c22suite(specs, sk)
	file := dir + "/junit/report.xml"
	var err error
	if useDefault {
		err = reporters.GenerateJUnitReport(r, file)
	} else {
		err = reporters.GenerateJUnitReportWithConfig(r, file, cfg)
	}
	if err != nil {
		c.Violation("the JUnit report cannot be written", kase, err.Error())
		return nil
	}
	b, _ := os.ReadFile(file)
	c.Add("steps", int64(len(b)))
	c.Distinct("states", string(b))
	root, err := parseXML(b)
	if err != nil {
		c.Violation("the JUnit report is not well-formed", kase, err.Error()+"\n"+string(b))
		return nil
	}
	bad := func(sig, f string, a ...any) {
		c.Violation("JUnit: "+sig, kase, fmt.Sprintf(f, a...)+"\n"+string(b))
	}
	if root.name != "testsuites" || len(root.all("testsuite")) != 1 {
		bad("not one test suite", "")
		return nil
	}
	su := root.all("testsuite")[0]
	cases := su.all("testcase")
	var listed []int
	for i, s := range specs {
		if cfg.OmitSuiteSetupNodes && s.LeafNodeType != types.NodeTypeIt {
			continue
		}
		listed = append(listed, i)
	}
	if len(cases) != len(listed) {
		bad("not one test case per spec that is to be listed", "%d cases for %d specs", len(cases), len(listed))
		return nil
	}
	var nf, ne, ns, np int
	for j, i := range listed {
		s, tc := specs[i], cases[j]
		want := "[" + nodeNames[s.LeafNodeType] + "]"
		if cfg.OmitLeafNodeType {
			want = ""
		}
		if names[i] != "" {
			want += " " + names[i]
		}
		if len(labels[i]) > 0 && !cfg.OmitSpecLabels {
			want += " [" + strings.Join(labels[i], ", ") + "]"
		}
		if strings.TrimSpace(tc.attrs["name"]) != strings.TrimSpace(xmltext(strings.TrimSpace(want))) {
			bad("wrong name", "%q, want %q", tc.attrs["name"], want)
		}
		owner := ""
		for _, l := range labels[i] {
			if len(l) >= 6 && strings.EqualFold(l[:6], "owner:") {
				owner = l[6:]
			}
		}
		if tc.attrs["owner"] != owner {
			bad("wrong owner", "%q, want %q", tc.attrs["owner"], owner)
		}
		if tc.attrs["classname"] != xmltext(r.SuiteDescription) {
			bad("wrong class name", "%q", tc.attrs["classname"])
		}
		if tc.attrs["status"] != s.State.String() || stateNames[s.State] != "" && tc.attrs["status"] != stateNames[s.State] {
			bad("wrong status", "%q, want %q", tc.attrs["status"], s.State)
		}
		if f, err := strconv.ParseFloat(tc.attrs["time"], 64); err != nil || math.Abs(f-s.RunTime.Seconds()) > 1e-9 {
			bad("wrong time", "%q, want %v", tc.attrs["time"], s.RunTime)
		}
		fs, es, ss := tc.all("failure"), tc.all("error"), tc.all("skipped")
		wf, we, ws := 0, 0, 0
		var el *xnode
		var msg string
		switch s.State {
		case types.SpecStateFailed, types.SpecStateTimedout:
			wf, msg = 1, s.Failure.Message
		case types.SpecStateAborted:
			// either element is acceptable
			if len(es) == 1 {
				we = 1
			} else {
				wf = 1
			}
			msg = s.Failure.Message
		case types.SpecStatePanicked:
			we, msg = 1, s.Failure.ForwardedPanic
		case types.SpecStateInterrupted:
			we, msg = 1, s.Failure.Message
		case types.SpecStateSkipped:
			ws, msg = 1, "skipped"
			if s.Failure.Message != "" {
				msg = "skipped - " + s.Failure.Message
			}
		case types.SpecStatePending:
			ws, msg = 1, "pending"
		}
		if len(fs) != wf || len(es) != we || len(ss) != ws {
			bad("the elements of a test case do not agree with its state", "%s: %d failure, %d error, %d skipped", s.State, len(fs), len(es), len(ss))
			continue
		}
		nf, ne = nf+wf, ne+we
		if s.State == types.SpecStateSkipped {
			ns++
		}
		if s.State == types.SpecStatePending {
			np++
		}
		for _, x := range append(append(append([]*xnode{}, fs...), es...), ss...) {
			el = x
		}
		if el != nil {
			m := msg
			if el.name != "skipped" {
				if cfg.OmitFailureMessageAttr {
					m = ""
				}
				if el.attrs["type"] != stateNames[s.State] {
					bad("wrong type of failure", "%q", el.attrs["type"])
				}
				if !linesIn(el.text, xmltext(s.Failure.Message)) || !contains(el.text, "fail_test.go:33") || !linesIn(el.text, xmltext(s.Failure.ForwardedPanic)) {
					bad("the description lacks the failure's message or location", "%q", el.text)
				}
				if s.State == types.SpecStatePanicked && s.Failure.ForwardedPanic != "" && !linesIn(el.text, s.Failure.Location.FullStackTrace) {
					bad("the description of a panic lacks its stack trace", "%q", el.text)
				}
				if s.Failure.AdditionalFailure != nil && !contains(el.text, "nested") {
					bad("the description lacks the nested failure", "%q", el.text)
				}
			}
			if el.attrs["message"] != xmltext(m) {
				bad("wrong message", "%q, want %q", el.attrs["message"], m)
			}
		}
		so := ""
		for _, x := range tc.all("system-out") {
			so += x.text
		}
		wo := s.CapturedStdOutErr
		if cfg.OmitCapturedStdOutErr {
			wo = ""
		}
		if so != xmltext(wo) {
			bad("wrong system-out", "%q, want %q", so, wo)
		}
		se := ""
		for _, x := range tc.all("system-err") {
			se += x.text
		}
		if s.State.Is(cfg.OmitTimelinesForSpecState) {
			if se != "" {
				bad("the timeline is there although it is to be omitted", "%q", se)
			}
		} else {
			// the writer's output is cut at the offsets of the events, so compare without line structure
			sq := squeeze(se)
			pos := 0
			for _, piece := range pieces(xmltext(s.CapturedGinkgoWriterOutput), s) {
				i := strings.Index(sq[pos:], piece)
				if i < 0 {
					bad("the timeline lacks output of the spec", "%q lacks %q", sq, piece)
					break
				}
				pos += i + len(piece)
			}
			for _, e := range s.ReportEntries {
				if !contains(se, "an entry") || !linesIn(sq, squeeze(xmltext(strings.ReplaceAll(e.StringRepresentation(), "{{red}}", "")))) {
					bad("the timeline lacks a report entry", "%q", se)
				}
			}
			for _, f := range s.AdditionalFailures {
				if !contains(se, f.Failure.Message) {
					bad("the timeline lacks an additional failure", "%q", se)
				}
			}
			if len(s.SpecEvents) > 0 && !contains(se, "a step") {
				bad("the timeline lacks a step", "%q", se)
			}
		}
	}
	if su.num("tests") != len(cases) || su.num("failures") != nf || su.num("errors") != ne || su.num("skipped") != ns || su.num("disabled") != np {
		bad("the counts of the suite do not agree with its cases", "%v; cases: %d, failures %d, errors %d, skipped %d, pending %d", su.attrs, len(cases), nf, ne, ns, np)
	}
	if root.num("tests") != len(cases) || root.num("failures") != nf || root.num("errors") != ne || root.num("disabled") != ns+np {
		bad("the totals do not agree with the cases", "%v; cases: %d, failures %d, errors %d, skipped or pending %d", root.attrs, len(cases), nf, ne, ns+np)
	}
	if su.attrs["name"] != xmltext(r.SuiteDescription) || su.attrs["package"] != r.SuitePath || su.attrs["time"] != "2.5" || root.attrs["time"] != "2.5" || su.attrs["timestamp"] != "2023-04-05T06:07:08" {
		bad("wrong attributes of the suite", "%v", su.attrs)
	}
	props := map[string]string{}
	for _, ps := range su.all("properties") {
		for _, p := range ps.all("property") {
			props[p.attrs["name"]] = p.attrs["value"]
		}
	}
	wp := map[string]string{"SuiteSucceeded": fmt.Sprint(r.SuiteSucceeded), "SuiteHasProgrammaticFocus": "false", "RandomSeed": "17", "LabelFilter": r.SuiteConfig.LabelFilter, "FocusStrings": strings.Join(r.SuiteConfig.FocusStrings, ","), "SkipFiles": strings.Join(r.SuiteConfig.SkipFiles, ";"), "SpecialSuiteFailureReason": strings.Join(r.SpecialSuiteFailureReasons, ","), "SuiteLabels": "[" + strings.Join(r.SuiteLabels, ",") + "]"}
	for k, v := range wp {
		if props[k] != v {
			bad("wrong property", "%s is %q, want %q", k, props[k], v)
		}
	}
	return root
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' || r == '\t' || r == '\r' {
			return -1
		}
		return r
	}, s)
}

// pieces cuts the writer's output where timeline events were inserted
func pieces(gw string, s types.SpecReport) []string {
	if len(s.CapturedGinkgoWriterOutput) != len(gw) {
		return nil // replaced characters: offsets do not apply
	}
	var out []string
	for _, r := range []rune(gw) {
		if x := squeeze(string(r)); x != "" && r < 128 {
			out = append(out, x)
		}
	}
	return out
}

/* ---------- TeamCity ---------- */

type tcmsg struct {
	name  string
	attrs map[string]string
}

func parseTC(line string) (*tcmsg, error) {
	const p = "##teamcity["
	if !strings.HasPrefix(line, p) {
		return nil, fmt.Errorf("no service message")
	}
	rest := line[len(p):]
	i := strings.IndexByte(rest, ' ')
	if i < 0 {
		return nil, fmt.Errorf("no attributes")
	}
	m := &tcmsg{rest[:i], map[string]string{}}
	rest = rest[i:]
	for {
		rest = strings.TrimLeft(rest, " ")
		if rest == "]" {
			return m, nil
		}
		j := strings.Index(rest, "='")
		if j < 0 {
			return nil, fmt.Errorf("malformed at %q", rest)
		}
		key := rest[:j]
		rest = rest[j+2:]
		var b strings.Builder
		for {
			if rest == "" {
				return nil, fmt.Errorf("unterminated value")
			}
			ch := rest[0]
			rest = rest[1:]
			if ch == '\'' {
				break
			}
			if ch == '[' || ch == ']' || ch == '\r' {
				return nil, fmt.Errorf("unescaped %q", ch)
			}
			if ch == '|' {
				if rest == "" {
					return nil, fmt.Errorf("dangling escape")
				}
				switch rest[0] {
				case 'n':
					b.WriteByte('\n')
				case 'r':
					b.WriteByte('\r')
				case '|', '\'', '[', ']':
					b.WriteByte(rest[0])
				default:
					return nil, fmt.Errorf("unknown escape |%c", rest[0])
				}
				rest = rest[1:]
				continue
			}
			b.WriteByte(ch)
		}
		if _, dup := m.attrs[key]; dup {
			return nil, fmt.Errorf("duplicate attribute")
		}
		m.attrs[key] = b.String()
	}
}

func c22teamcity(c *lib.Ctx, dir, kase string, specs []types.SpecReport, names []string, labels [][]string, sk int) {
	r := c22suite(specs, sk)
	file := dir + "/tc/report.tc"
	if err := reporters.GenerateTeamcityReport(r, file); err != nil {
		c.Violation("the TeamCity report cannot be written", kase, err.Error())
		return
	}
	b, _ := os.ReadFile(file)
	c.Distinct("states", string(b))
	bad := func(sig, f string, a ...any) {
		c.Violation("TeamCity: "+sig, kase, fmt.Sprintf(f, a...)+"\n"+string(b))
	}
	if !bytes.HasSuffix(b, []byte("\n")) {
		bad("the report does not end with a line end", "")
		return
	}
	var ms []*tcmsg
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		m, err := parseTC(l)
		if err != nil {
			bad("a line is not a service message", "%v: %q", err, l)
			return
		}
		ms = append(ms, m)
	}
	pos := 0
	next := func(name string) map[string]string {
		if pos >= len(ms) || ms[pos].name != name {
			got := "the end"
			if pos < len(ms) {
				got = ms[pos].name
			}
			bad("wrong sequence of messages", "message %d is %s, want %s", pos, got, name)
			return nil
		}
		pos++
		return ms[pos-1].attrs
	}
	sname := r.SuiteDescription
	if len(r.SuiteLabels) > 0 {
		sname += " [" + strings.Join(r.SuiteLabels, ", ") + "]"
	}
	a := next("testSuiteStarted")
	if a == nil {
		return
	}
	if a["name"] != sname {
		bad("wrong suite name", "%q, want %q", a["name"], sname)
	}
	for i, s := range specs {
		want := "[" + nodeNames[s.LeafNodeType] + "]"
		if names[i] != "" {
			want += " " + names[i]
		}
		if len(labels[i]) > 0 {
			want += " [" + strings.Join(labels[i], ", ") + "]"
		}
		get := func(kind string) map[string]string {
			a := next(kind)
			if a != nil && a["name"] != want {
				bad("wrong test name", "%s: %q, want %q", kind, a["name"], want)
			}
			return a
		}
		if get("testStarted") == nil {
			return
		}
		switch {
		case s.State == types.SpecStatePending:
			if a := get("testIgnored"); a == nil {
				return
			} else if a["message"] != "pending" {
				bad("wrong message", "%q", a["message"])
			}
		case s.State == types.SpecStateSkipped:
			m := "skipped"
			if s.Failure.Message != "" {
				m += " - " + s.Failure.Message
			}
			if a := get("testIgnored"); a == nil {
				return
			} else if a["message"] != m {
				bad("wrong message", "%q, want %q", a["message"], m)
			}
		case s.State.Is(types.SpecStateFailureStates):
			m := s.Failure.Message
			if s.State == types.SpecStatePanicked {
				m = s.Failure.ForwardedPanic
			}
			m = stateNames[s.State] + " - " + m
			if a := get("testFailed"); a == nil {
				return
			} else {
				if a["message"] != m {
					bad("wrong message", "%q, want %q", a["message"], m)
				}
				if !linesIn(a["details"], s.Failure.Message) || !contains(a["details"], "fail_test.go:33") {
					bad("the details lack the failure's message or location", "%q", a["details"])
				}
			}
		}
		if a := get("testStdOut"); a == nil {
			return
		} else if a["out"] != s.CapturedStdOutErr {
			bad("wrong output", "%q, want %q", a["out"], s.CapturedStdOutErr)
		}
		if a := get("testStdErr"); a == nil {
			return
		} else {
			sq := squeeze(a["out"])
			p := 0
			for _, piece := range pieces(s.CapturedGinkgoWriterOutput, s) {
				i := strings.Index(sq[p:], piece)
				if i < 0 {
					bad("the timeline lacks output of the spec", "%q lacks %q", sq, piece)
					break
				}
				p += i + len(piece)
			}
		}
		if a := get("testFinished"); a == nil {
			return
		} else if a["duration"] != fmt.Sprint(s.RunTime.Milliseconds()) {
			bad("wrong duration", "%q, want %v", a["duration"], s.RunTime)
		}
	}
	a = next("testSuiteFinished")
	if a == nil {
		return
	}
	if a["name"] != sname {
		bad("the suite ends under another name than it was started with", "%q, want %q", a["name"], sname)
	}
	if pos != len(ms) {
		bad("wrong sequence of messages", "%d messages too many", len(ms)-pos)
	}
}

func c22(c *lib.Ctx) {
	dir, err := os.MkdirTemp("", "c22")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	omits := []reporters.JunitReportConfig{{}, {OmitTimelinesForSpecState: types.SpecStatePassed | types.SpecStateSkipped | types.SpecStatePending}, {OmitFailureMessageAttr: true}, {OmitCapturedStdOutErr: true}, {OmitSpecLabels: true}, {OmitLeafNodeType: true}, {OmitSuiteSetupNodes: true},
		{OmitTimelinesForSpecState: types.SpecStateFailureStates, OmitFailureMessageAttr: true, OmitCapturedStdOutErr: true, OmitSpecLabels: true, OmitLeafNodeType: true, OmitSuiteSetupNodes: true}}
	// 1. one spec: all points with few deviations, x configuration
	maxdev := c.Pick(3, 4)
	dims := append(append([]int{}, c22dims...), len(omits)+1, 6)
	lib.Explore(maxdev, func(ch *lib.Chooser) bool {
		k := make([]int, len(dims))
		for i, d := range dims {
			k[i] = ch.ChooseCost(d, func(v int) int {
				if v == 0 || i == 0 { // every state is free
					return 0
				}
				return 1
			})
		}
		if !c.Mine() {
			return true
		}
		kase := "one spec " + lib.IntsString(k)
		if !c.Only(kase) {
			return true
		}
		c.Case(kase)
		c.Add("executions", 1)
		s, name, labels := c22report(k)
		o := k[len(c22dims)]
		cfg := reporters.JunitReportConfig{}
		if o > 0 {
			cfg = omits[o-1]
		}
		c22junit(c, dir, kase, []types.SpecReport{s}, []string{name}, [][]string{labels}, cfg, k[len(c22dims)+1], o == 0)
		if o == 0 {
			c22teamcity(c, dir, kase, []types.SpecReport{s}, []string{name}, [][]string{labels}, k[len(c22dims)+1])
		}
		return !c.Stop()
	})
	// 2. suites of up to four specs in every combination of states and a few node types: counts and order
	nmax := c.Pick(3, 4)
	for n := 0; n <= nmax; n++ {
		d := make([]int, n)
		for i := range d {
			d[i] = 9
		}
		lib.Product(d, func(t []int) bool {
			if !c.Mine() {
				return true
			}
			for nt := 0; nt < 3; nt++ {
				var specs []types.SpecReport
				var names []string
				var labels [][]string
				for i, st := range t {
					k := make([]int, len(c22dims))
					k[0], k[1], k[6], k[10], k[11] = st, 1+(i*nt)%5*nt, 1+i%6, i%7, (i+1)%7
					s, name, l := c22report(k)
					s.LeafNodeText += fmt.Sprint(" no ", i)
					name += fmt.Sprint(" no ", i)
					specs, names, labels = append(specs, s), append(names, name), append(labels, l)
				}
				kase := fmt.Sprintf("states %v node types %d", t, nt)
				if !c.Only(kase) {
					continue
				}
				c.Case(kase)
				c.Add("executions", 1)
				c22junit(c, dir, kase, specs, names, labels, omits[[]int{0, 6, 1}[nt]], n, false)
				c22teamcity(c, dir, kase, specs, names, labels, n)
			}
			return !c.Stop()
		})
	}
	c22merge(c, dir)
	c.Bound("one spec", fmt.Sprintf("every state x up to %d other attributes away from their defaults (node type, texts, labels, message, panic, stack, further failures, outputs, entries, configuration, suite)", maxdev))
	c.Bound("several specs", fmt.Sprintf("every vector of states of up to %d specs", nmax))
	c.Sample(map[string]any{"states": "every vector", "texts": c22texts[2:5]})
}

func c22merge(c *lib.Ctx, dir string) {
	kinds := 6 // three valid reports, missing, corrupt, empty
	maxn := c.Pick(4, 5)
	var rec func(l []int)
	rec = func(l []int) {
		if c.Mine() {
			c22mergeOne(c, dir, l)
		}
		if len(l) == maxn || c.Stop() {
			return
		}
		for k := 0; k < kinds; k++ {
			rec(append(append([]int{}, l...), k))
		}
	}
	rec(nil)
}

func c22mergeOne(c *lib.Ctx, dir string, l []int) {
	kase := fmt.Sprintf("merge %v", l)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	d, _ := os.MkdirTemp(dir, "m")
	defer os.RemoveAll(d)
	var src, tsrc []string
	var want []*xnode
	var wtc string
	tot := map[string]int{}
	bad, missing := 0, 0
	for i, k := range l {
		f, tf := fmt.Sprintf("%s/%d.xml", d, i), fmt.Sprintf("%s/%d.tc", d, i)
		src, tsrc = append(src, f), append(tsrc, tf)
		switch k {
		case 3:
			bad++
			missing++
			continue
		case 4:
			bad++
			os.WriteFile(f, []byte("<testsuites><testsuite>"), 0o644)
			os.WriteFile(tf, []byte("##x\n"), 0o644)
			wtc += "##x\n"
			continue
		case 5:
			bad++
			os.WriteFile(f, nil, 0o644)
			os.WriteFile(tf, nil, 0o644)
			continue
		}
		var specs []types.SpecReport
		for n := 0; n < 8; n++ {
			kk := make([]int, len(c22dims))
			kk[0], kk[6], kk[10], kk[7], kk[2] = (n*(k+1))%9, 1+(n+i)%6, n%7, (n+k)%7, (n+i)%7
			s, _, _ := c22report(kk)
			specs = append(specs, s)
		}
		r := c22suite(specs, i+k)
		r.SuiteDescription += fmt.Sprint(" file ", i)
		if reporters.GenerateJUnitReport(r, f) != nil || reporters.GenerateTeamcityReport(r, tf) != nil {
			c.Violation("the reports cannot be written", kase, "")
			return
		}
		b, _ := os.ReadFile(f)
		x, err := parseXML(b)
		if err != nil {
			c.Violation("the JUnit report is not well-formed", kase, err.Error())
			return
		}
		for _, a := range []string{"tests", "disabled", "errors", "failures"} {
			tot[a] += x.num(a)
		}
		want = append(want, x.all("testsuite")...)
		tb, _ := os.ReadFile(tf)
		wtc += string(tb)
	}
	dst := d + "/new/dir/merged.xml"
	msgs, err := reporters.MergeAndCleanupJUnitReports(src, dst)
	if err != nil || len(msgs) != bad {
		c.Violation("merging JUnit reports fails or does not report each unreadable file", kase, fmt.Sprintf("%v %q, want %d messages", err, msgs, bad))
		return
	}
	b, _ := os.ReadFile(dst)
	x, err := parseXML(b)
	if err != nil {
		c.Violation("the merged JUnit report is not well-formed", kase, err.Error())
		return
	}
	for _, a := range []string{"tests", "disabled", "errors", "failures"} {
		if x.num(a) != tot[a] {
			c.Violation("the totals of the merged report are not the sums", kase, fmt.Sprintf("%s=%d, want %d", a, x.num(a), tot[a]))
		}
	}
	if f, _ := strconv.ParseFloat(x.attrs["time"], 64); math.Abs(f-2.5*float64(len(want))) > 1e-6 {
		c.Violation("the totals of the merged report are not the sums", kase, "time="+x.attrs["time"])
	}
	strip := func(ns []*xnode) string {
		var b strings.Builder
		var w func(n *xnode)
		w = func(n *xnode) {
			fmt.Fprintf(&b, "<%s", n.name)
			for _, k := range lib.SortedKeys(n.attrs) {
				fmt.Fprintf(&b, " %s=%q", k, n.attrs[k])
			}
			t := n.text
			if len(n.kids) > 0 {
				t = strings.TrimSpace(t)
			}
			fmt.Fprintf(&b, ">%q", t)
			for _, k := range n.kids {
				w(k)
			}
			b.WriteString("</>")
		}
		for _, n := range ns {
			w(n)
		}
		return b.String()
	}
	if g, w := strip(x.all("testsuite")), strip(want); g != w {
		c.Violation("merging loses, reorders or changes a suite", kase, fmt.Sprintf("got  %.2000s\nwant %.2000s", g, w))
	}
	tdst := d + "/other/merged.tc"
	tm, err := reporters.MergeAndCleanupTeamcityReports(tsrc, tdst)
	if err != nil || len(tm) != missing {
		c.Violation("merging TeamCity reports fails or does not report each unreadable file", kase, fmt.Sprintf("%v %q, want %d messages", err, tm, missing))
		return
	}
	tb, _ := os.ReadFile(tdst)
	if string(tb) != wtc {
		c.Violation("merging loses, reorders or changes a TeamCity report", kase, fmt.Sprintf("got  %q\nwant %q", tb, wtc))
	}
	for i, k := range l {
		_, e1 := os.Stat(src[i])
		_, e2 := os.Stat(tsrc[i])
		if k < 3 && (e1 == nil || e2 == nil) {
			c.Violation("a merged source is not cleaned up", kase, src[i])
		}
		if k > 3 && e1 != nil {
			c.Violation("a source that could not be merged is deleted", kase, src[i])
		}
	}
	c.Add("steps", int64(len(l)))
	c.Distinct("states", string(b))
	_ = reflect.DeepEqual
}
