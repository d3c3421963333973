package pure

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C21"] = c21 }

/* ---------- a generic generator of reports ---------- */

var allStates = []types.SpecState{types.SpecStateInvalid, types.SpecStatePending, types.SpecStateSkipped, types.SpecStatePassed, types.SpecStateFailed, types.SpecStateAborted, types.SpecStatePanicked, types.SpecStateInterrupted, types.SpecStateTimedout}
var stateNames = map[types.SpecState]string{types.SpecStatePending: "pending", types.SpecStateSkipped: "skipped", types.SpecStatePassed: "passed", types.SpecStateFailed: "failed", types.SpecStateAborted: "aborted", types.SpecStatePanicked: "panicked", types.SpecStateInterrupted: "interrupted", types.SpecStateTimedout: "timedout"}
var nodeNames = map[types.NodeType]string{
	types.NodeTypeContainer: "Container", types.NodeTypeIt: "It", types.NodeTypeBeforeEach: "BeforeEach", types.NodeTypeJustBeforeEach: "JustBeforeEach",
	types.NodeTypeAfterEach: "AfterEach", types.NodeTypeJustAfterEach: "JustAfterEach", types.NodeTypeBeforeAll: "BeforeAll", types.NodeTypeAfterAll: "AfterAll",
	types.NodeTypeBeforeSuite: "BeforeSuite", types.NodeTypeSynchronizedBeforeSuite: "SynchronizedBeforeSuite", types.NodeTypeAfterSuite: "AfterSuite",
	types.NodeTypeSynchronizedAfterSuite: "SynchronizedAfterSuite", types.NodeTypeReportBeforeEach: "ReportBeforeEach", types.NodeTypeReportAfterEach: "ReportAfterEach",
	types.NodeTypeReportBeforeSuite: "ReportBeforeSuite", types.NodeTypeReportAfterSuite: "ReportAfterSuite", types.NodeTypeCleanupInvalid: "DeferCleanup",
	types.NodeTypeCleanupAfterEach: "DeferCleanup (Each)", types.NodeTypeCleanupAfterAll: "DeferCleanup (All)", types.NodeTypeCleanupAfterSuite: "DeferCleanup (Suite)",
}
var eventTypes = []types.SpecEventType{types.SpecEventInvalid, types.SpecEventByStart, types.SpecEventByEnd, types.SpecEventNodeStart, types.SpecEventNodeEnd, types.SpecEventSpecRepeat, types.SpecEventSpecRetry}

func allNodeTypes() []types.NodeType {
	out := []types.NodeType{types.NodeTypeInvalid}
	for n := types.NodeType(1); n <= types.NodeTypeCleanupAfterSuite; n <<= 1 {
		if nodeNames[n] != "" {
			out = append(out, n)
		}
	}
	return out
}

type c21stringer struct{ A int }

func (s c21stringer) String() string { return fmt.Sprintf("<%d>", s.A) }

type c21color struct{ B string }

func (s c21color) String() string           { return "plain" }
func (s *c21color) ColorableString() string { return "{{red}}" + s.B + "{{/}}" }

type c21plain struct {
	Name string
	Vals []float64
	Sub  map[string]*int
}

type c21badjson struct{ F func() }

func c21entryValues() []any {
	seven := 7
	var nilSlice []string
	var nilMap map[string]int
	return []any{nil, "str", "null", "", 7, -1.5, true, []string{"a", "<b>"}, nilSlice, nilMap, map[string]any{"k": nil, "z": []int{1}}, c21stringer{3}, &c21stringer{4}, &c21color{"x"}, c21plain{"n", []float64{1, 2.5}, map[string]*int{"s": &seven, "t": nil}}, "bad\xffutf8", "{{red}}%d\n", &seven, json.RawMessage(`{"q":[1,2]}`), make(chan int), math.NaN(), c21badjson{func() {}}, fmt.Errorf("an error")}
}

// The values a field of the given type takes.
func c21values(t reflect.Type) []any {
	switch t {
	case reflect.TypeOf(types.SpecState(0)):
		var o []any
		for _, s := range allStates {
			o = append(o, s)
		}
		return o
	case reflect.TypeOf(types.NodeType(0)):
		var o []any
		for _, n := range allNodeTypes() {
			o = append(o, n)
		}
		return o
	case reflect.TypeOf(types.SpecEventType(0)):
		var o []any
		for _, n := range eventTypes {
			o = append(o, n)
		}
		return o
	case reflect.TypeOf(types.FailureNodeContext(0)):
		return []any{types.FailureNodeContextInvalid, types.FailureNodeIsLeafNode, types.FailureNodeAtTopLevel, types.FailureNodeInContainer}
	case reflect.TypeOf(types.ReportEntryVisibility(0)):
		return []any{types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityFailureOrVerbose, types.ReportEntryVisibilityNever}
	case reflect.TypeOf(time.Time{}):
		return []any{time.Time{}, time.Date(2021, 3, 4, 5, 6, 7, 123456789, time.UTC), time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.FixedZone("X", -5*3600-1800)), time.Now()}
	case reflect.TypeOf(types.ReportEntryValue{}):
		var o []any
		for _, v := range c21entryValues() {
			o = append(o, types.WrapEntryValue(v))
		}
		return o
	}
	switch t.Kind() {
	case reflect.String:
		var o []any
		for _, s := range []string{"", "x", "<&>\"'\\/\n\r\t\u2028\x00\x1b[31m]]>", "\xff\xfe bad \xc3", "{{red}}%s日本", " lead and trail ", "null"} {
			o = append(o, s)
		}
		return o
	case reflect.Bool:
		return []any{false, true}
	case reflect.Int, reflect.Int64:
		var o []any
		for _, n := range []int64{0, 1, -1, 1<<53 + 1, math.MaxInt64, math.MinInt64} {
			o = append(o, reflect.ValueOf(n).Convert(t).Interface())
		}
		return o
	case reflect.Uint64:
		return []any{uint64(0), uint64(3), uint64(math.MaxUint64)}
	}
	return nil
}

// fill gives every field a distinct non-zero value; slices get two elements, recursion through pointers goes two deep.
func fill(v reflect.Value, n *int, depth int) {
	*n++
	switch v.Type() {
	case reflect.TypeOf(time.Time{}):
		v.Set(reflect.ValueOf(time.Date(2022, 1, 1, 0, 0, *n%60, *n*1000, time.UTC)))
		return
	case reflect.TypeOf(types.ReportEntryValue{}):
		v.Set(reflect.ValueOf(types.WrapEntryValue(map[string]any{"n": float64(*n)})))
		return
	}
	if vals := c21values(v.Type()); vals != nil && v.Kind() == reflect.Uint {
		v.Set(reflect.ValueOf(vals[1+*n%(len(vals)-1)]))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d", *n))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(*n))
	case reflect.Uint, reflect.Uint64:
		v.SetUint(uint64(*n))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fill(v.Field(i), n, depth)
			}
		}
	case reflect.Slice:
		k := 2
		if depth > 1 {
			k = 1
		}
		v.Set(reflect.MakeSlice(v.Type(), k, k))
		for i := 0; i < k; i++ {
			fill(v.Index(i), n, depth+1)
		}
	case reflect.Pointer:
		if depth > 2 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(v.Elem(), n, depth+2)
	default:
		panic("fill: " + v.Type().String())
	}
}

type mutation struct {
	path  string
	apply func(r *types.Report)
}

// mutations lists every assignment of one value of the universe to one place of the filled report.
func mutations(base *types.Report) []mutation {
	var out []mutation
	var walk func(t reflect.Value, path string, get func(*types.Report) reflect.Value)
	walk = func(v reflect.Value, path string, get func(*types.Report) reflect.Value) {
		if vals := c21values(v.Type()); vals != nil {
			for i, x := range vals {
				x := x
				out = append(out, mutation{fmt.Sprintf("%s=#%d %q", path, i, fmt.Sprint(x)), func(r *types.Report) { get(r).Set(reflect.ValueOf(x)) }})
			}
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				i := i
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), path+"."+v.Type().Field(i).Name, func(r *types.Report) reflect.Value { return get(r).Field(i) })
				}
			}
		case reflect.Slice:
			t := v.Type()
			out = append(out, mutation{path + "=nil", func(r *types.Report) { get(r).Set(reflect.Zero(t)) }})
			out = append(out, mutation{path + "=empty", func(r *types.Report) { get(r).Set(reflect.MakeSlice(t, 0, 0)) }})
			out = append(out, mutation{path + "=first only", func(r *types.Report) {
				if x := get(r); x.Len() > 0 {
					x.Set(x.Slice(0, 1))
				}
			}})
			out = append(out, mutation{path + "=twice", func(r *types.Report) { x := get(r); x.Set(reflect.AppendSlice(x, x)) }})
			out = append(out, mutation{path + "=zero element", func(r *types.Report) { x := get(r); x.Set(reflect.Append(x, reflect.Zero(t.Elem()))) }})
			for i := 0; i < v.Len(); i++ {
				i := i
				walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), func(r *types.Report) reflect.Value { return get(r).Index(i) })
			}
		case reflect.Pointer:
			t := v.Type()
			out = append(out, mutation{path + "=nil", func(r *types.Report) { get(r).Set(reflect.Zero(t)) }})
			if !v.IsNil() {
				walk(v.Elem(), path, func(r *types.Report) reflect.Value { return get(r).Elem() })
			}
		}
	}
	walk(reflect.ValueOf(base).Elem(), "Report", func(r *types.Report) reflect.Value { return reflect.ValueOf(r).Elem() })
	return out
}

func filledReport() types.Report {
	var r types.Report
	n := 0
	fill(reflect.ValueOf(&r).Elem(), &n, 0)
	return r
}

func utf(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s)) // every invalid byte becomes U+FFFD
}

// sameReport compares a reloaded value with the original: empty and nil slices are the same, invalid UTF-8 is replaced, times are instants.
func sameReport(got, want reflect.Value, path string, exact bool) string {
	switch w := want.Interface().(type) {
	case time.Time:
		if !got.Interface().(time.Time).Equal(w) {
			return fmt.Sprintf("%s: got %v, want %v", path, got.Interface(), w)
		}
		return ""
	case types.ReportEntryValue:
		g := got.Interface().(types.ReportEntryValue)
		if g.String() != utf(w.String()) {
			return fmt.Sprintf("%s: representation is %q, want %q", path, g.String(), w.String())
		}
		if w.AsJSON != "" && w.GetRawValue() == nil {
			return ""
		}
		b, err := json.Marshal(w.GetRawValue())
		if err != nil {
			return "" // the value has no JSON encoding; the representation has to do
		}
		if g.AsJSON != string(b) {
			return fmt.Sprintf("%s: AsJSON is %q, want %q", path, g.AsJSON, b)
		}
		var raw any
		json.Unmarshal(b, &raw)
		if !reflect.DeepEqual(g.GetRawValue(), raw) {
			return fmt.Sprintf("%s: value is %#v, want %#v", path, g.GetRawValue(), raw)
		}
		return ""
	}
	switch want.Kind() {
	case reflect.Struct:
		if f, ok := want.Interface().(types.Failure); ok && f.Message == "" && (f.Location == types.CodeLocation{}) {
			// documented as "no failure"
			if g := got.Interface().(types.Failure); g.IsZero() {
				return ""
			}
		}
		for i := 0; i < want.NumField(); i++ {
			if !want.Type().Field(i).IsExported() {
				continue
			}
			if d := sameReport(got.Field(i), want.Field(i), path+"."+want.Type().Field(i).Name, exact); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if got.Len() != want.Len() {
			return fmt.Sprintf("%s: %d elements, want %d", path, got.Len(), want.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if d := sameReport(got.Index(i), want.Index(i), fmt.Sprintf("%s[%d]", path, i), exact); d != "" {
				return d
			}
		}
	case reflect.Pointer:
		if got.IsNil() != want.IsNil() {
			return fmt.Sprintf("%s: nil is %v, want %v", path, got.IsNil(), want.IsNil())
		}
		if !want.IsNil() {
			return sameReport(got.Elem(), want.Elem(), path, exact)
		}
	case reflect.String:
		if got.String() != utf(want.String()) {
			return fmt.Sprintf("%s: got %q, want %q", path, got.String(), want.String())
		}
	default:
		if !reflect.DeepEqual(got.Interface(), want.Interface()) {
			return fmt.Sprintf("%s: got %v, want %v", path, got.Interface(), want.Interface())
		}
	}
	return ""
}

func c21roundtrip(c *lib.Ctx, dir, kase string, r types.Report) {
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	file := dir + "/sub/report.json"
	if err := reporters.GenerateJSONReport(r, file); err != nil {
		c.Violation("the JSON report cannot be written", kase, err.Error())
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		c.Violation("the JSON report is not there", kase, err.Error())
		return
	}
	c.Add("steps", int64(len(b)))
	c.Distinct("states", string(b))
	if !utf8.Valid(b) || !json.Valid(b) {
		c.Violation("the JSON report is not valid JSON", kase, string(b[:min(len(b), 500)]))
		return
	}
	var got []types.Report
	if err := json.Unmarshal(b, &got); err != nil {
		c.Violation("the JSON report does not decode", kase, err.Error())
		return
	}
	if len(got) != 1 {
		c.Violation("the JSON report is not a list of one report", kase, fmt.Sprint(len(got)))
		return
	}
	if d := sameReport(reflect.ValueOf(got[0]), reflect.ValueOf(r), "Report", true); d != "" {
		c.Violation("a value is lost or changed by the JSON report", kase, d)
		return
	}
	// the documented names of the enumerations, which other tools read
	var generic []struct {
		SpecReports []struct {
			State        *string
			LeafNodeType *string
		}
	}
	if err := json.Unmarshal(b, &generic); err != nil {
		c.Violation("the JSON report does not decode", kase, err.Error())
		return
	}
	for i, s := range r.SpecReports {
		g := generic[0].SpecReports[i]
		if stateNames[s.State] != "" && (g.State == nil || *g.State != stateNames[s.State]) {
			c.Violation("a state is not encoded under its name", kase, fmt.Sprintf("%v is encoded as %v", s.State, g.State))
		}
		if nodeNames[s.LeafNodeType] != "" && (g.LeafNodeType == nil || *g.LeafNodeType != nodeNames[s.LeafNodeType]) {
			c.Violation("a node type is not encoded under its name", kase, fmt.Sprintf("%v is encoded as %v", s.LeafNodeType, g.LeafNodeType))
		}
	}
	// a reloaded report can be written again, and says the same
	again := dir + "/again.json"
	if err := reporters.GenerateJSONReport(got[0], again); err != nil {
		c.Violation("a reloaded report cannot be written", kase, err.Error())
		return
	}
	b2, _ := os.ReadFile(again)
	var got2 []types.Report
	if json.Unmarshal(b2, &got2) != nil || len(got2) != 1 {
		c.Violation("a reloaded report does not decode", kase, "")
		return
	}
	if d := sameReport(reflect.ValueOf(got2[0]), reflect.ValueOf(got[0]), "Report", true); d != "" {
		c.Violation("a value is lost or changed by writing a reloaded report", kase, d)
	}
}

func c21(c *lib.Ctx) {
	dir, err := os.MkdirTemp("", "c21")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	base := filledReport()
	muts := mutations(&base)
	if c.Shard == 0 {
		c21roundtrip(c, dir, "zero report", types.Report{})
		c21roundtrip(c, dir, "filled report", base)
		// an existing, longer file is replaced
		os.MkdirAll(dir+"/sub", 0o755)
		os.WriteFile(dir+"/sub/report.json", []byte(strings.Repeat("x", 1<<20)), 0o644)
		c21roundtrip(c, dir, "zero report over an existing file", types.Report{})
	}
	for i, m := range muts {
		if !c.Mine() {
			continue
		}
		r := filledReport()
		m.apply(&r)
		c21roundtrip(c, dir, m.path, r)
		if c.Stop() {
			return
		}
		_ = i
	}
	// pairs of fields of a small spec report, everything else zero
	small := func() types.Report {
		return types.Report{SpecReports: types.SpecReports{{Failure: types.Failure{Message: "m", AdditionalFailure: &types.AdditionalFailure{}}, ReportEntries: types.ReportEntries{{}}, ProgressReports: []types.ProgressReport{{}}, AdditionalFailures: []types.AdditionalFailure{{}}, SpecEvents: types.SpecEvents{{}}}}}
	}
	sb := small()
	sm := mutations(&sb)
	step := c.Pick(7, 1)
	for i := range sm {
		if !c.Mine() {
			continue
		}
		for j := i + 1; j < len(sm); j++ {
			if (i+j)%step != 0 {
				continue
			}
			pi, pj := strings.SplitN(sm[i].path, "=", 2)[0], strings.SplitN(sm[j].path, "=", 2)[0]
			if strings.HasPrefix(pj, pi) || strings.HasPrefix(pi, pj) {
				continue
			}
			r := small()
			sm[i].apply(&r)
			sm[j].apply(&r)
			c21roundtrip(c, dir, "small: "+sm[i].path+" and "+sm[j].path, r)
			if c.Stop() {
				return
			}
		}
	}
	c21merge(c, dir)
	c.Bound("values", fmt.Sprintf("every value of the universe in each of the %d places of a full report; pairs of places in a small report (quick: every 7th pair)", len(muts)))
	c.Sample(map[string]any{"case": muts[len(muts)/2].path})
}

// every list of up to three (thorough: four) source files of all kinds
func c21merge(c *lib.Ctx, dir string) {
	kinds := []string{"empty list", "one report", "two reports", "missing", "corrupt", "truncated", "empty file", "one failed report"}
	mk := func(i int, desc string, ok bool) types.Report {
		return types.Report{SuiteDescription: fmt.Sprintf("%s of %d", desc, i), SuiteSucceeded: ok, SpecReports: types.SpecReports{{LeafNodeText: desc, State: types.SpecStatePassed}}}
	}
	var rec func(list []int)
	maxn := c.Pick(3, 4)
	rec = func(list []int) {
		if c.Mine() {
			c21mergeOne(c, dir, list, kinds, mk)
		}
		if len(list) == maxn || c.Stop() {
			return
		}
		for k := range kinds {
			rec(append(append([]int{}, list...), k))
		}
	}
	rec(nil)
}

func c21mergeOne(c *lib.Ctx, dir string, list []int, kinds []string, mk func(int, string, bool) types.Report) {
	var names []string
	for _, k := range list {
		names = append(names, kinds[k])
	}
	kase := fmt.Sprintf("merge %q", names)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	c.Add("executions", 1)
	d, _ := os.MkdirTemp(dir, "merge")
	defer os.RemoveAll(d)
	var sources []string
	var want []types.Report
	bad := 0
	for i, k := range list {
		f := fmt.Sprintf("%s/in%d.json", d, i)
		sources = append(sources, f)
		var rs []types.Report
		switch k {
		case 0:
			rs = []types.Report{}
		case 1:
			rs = []types.Report{mk(i, "only", true)}
		case 2:
			rs = []types.Report{mk(i, "first", true), mk(i, "second", true)}
		case 7:
			rs = []types.Report{mk(i, "failed", false)}
		case 3:
			bad++
			continue
		case 4:
			bad++
			os.WriteFile(f, []byte(`[{"SuitePath": 7}]`), 0o644)
			continue
		case 5:
			bad++
			os.WriteFile(f, []byte(`[{"SuitePath": "x"}`), 0o644)
			continue
		case 6:
			bad++
			os.WriteFile(f, nil, 0o644)
			continue
		}
		b, _ := json.Marshal(rs)
		os.WriteFile(f, b, 0o644)
		want = append(want, rs...)
	}
	dst := d + "/out/merged.json"
	msgs, err := reporters.MergeAndCleanupJSONReports(sources, dst)
	if err != nil {
		c.Violation("merging fails", kase, err.Error())
		return
	}
	if len(msgs) != bad {
		c.Violation("sources that cannot be read are not reported one by one", kase, fmt.Sprintf("%d messages, want %d: %q", len(msgs), bad, msgs))
	}
	b, _ := os.ReadFile(dst)
	var got []types.Report
	if err := json.Unmarshal(b, &got); err != nil || got == nil {
		c.Violation("the merged report is not a JSON list", kase, string(b))
		return
	}
	if d := sameReport(reflect.ValueOf(got), reflect.ValueOf(want), "merged", true); d != "" {
		c.Violation("merging loses, reorders or changes a report", kase, d)
	}
	for i, k := range list {
		_, err := os.Stat(sources[i])
		readable := k <= 2 || k == 7
		if readable && err == nil {
			c.Violation("a merged source is not cleaned up", kase, sources[i])
		}
		if !readable && k != 3 && err != nil {
			c.Violation("a source that could not be merged is deleted", kase, sources[i])
		}
	}
	c.Distinct("states", string(b))
	c.Add("steps", int64(len(list)))
}
