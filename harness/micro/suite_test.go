package micro

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// mini is a real suite that runs in a thread; the bodies of its specs may start threads of their own.
type mini struct {
	reporters.NoopReporter
	s        *vsched.S
	suite    *internal.Suite
	failer   *internal.Failer
	writer   *internal.Writer
	ask      func() // requests a progress report
	rep      types.Report
	ok       bool
	built    error
	entries  []types.ReportEntry
	events   []types.SpecEvent
	progress []types.ProgressReport
	failures []string
	bad      string
	joins    chan int
}

func (m *mini) SuiteDidEnd(r types.Report)                { m.rep = r }
func (m *mini) EmitReportEntry(e types.ReportEntry)       { m.entries = append(m.entries, e) }
func (m *mini) EmitSpecEvent(e types.SpecEvent)           { m.events = append(m.events, e) }
func (m *mini) EmitProgressReport(p types.ProgressReport) { m.progress = append(m.progress, p) }
func (m *mini) EmitFailure(s types.SpecState, f types.Failure) {
	m.failures = append(m.failures, s.String()+" "+f.Message)
}

// start runs the suite that build declares in a thread named main.
func (m *mini) start(s *vsched.S, build func()) {
	m.s, m.joins = s, make(chan int, 100)
	s.Quiet.Store(true) // until several threads are at work
	s.Spawn("main", func() {
		m.suite, m.failer, m.writer = internal.NewSuite(), internal.NewFailer(), internal.NewWriter(&sink{})
		m.writer.SetMode(internal.WriterModeBufferOnly)
		global.Suite, global.Failer = m.suite, m.failer
		ginkgo.GinkgoWriter = m.writer
		build()
		if m.built = m.suite.BuildTree(); m.built != nil {
			return
		}
		m.ok, _ = m.suite.Run("suite", nil, "/path", m.failer, m, m.writer, internal.NoopOutputInterceptor{}, fix.NewInterrupts(), nil, func(f func()) context.CancelFunc {
			m.ask = f
			return func() {}
		}, fix.DefaultCfg())
	})
}

// threads starts one thread per function, and returns what waits for all of them.
func (m *mini) threads(fs ...func()) (join func()) {
	m.s.Quiet.Store(false)
	for i, f := range fs {
		m.s.Spawn(fmt.Sprintf("g%d", i), func() {
			defer func() { m.joins <- i }()
			f()
		})
	}
	return func() {
		for range fs {
			<-m.joins
		}
		m.s.Quiet.Store(true)
	}
}

/* ---------- C16: failures from several goroutines of a spec ---------- */

func failures(join string, progs [][]string, bound int) scenario {
	var m *mini
	var names []string
	for _, p := range progs {
		names = append(names, strings.Join(p, ","))
	}
	obs := ""
	return scenario{name: fmt.Sprintf("spec: %s, joined in %s", strings.Join(names, " | "), join), bound: bound, delay: join == "AfterEach", obs: func() string { return obs }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		m = &mini{}
		obs = ""
		clock := 0
		type ev struct {
			op, id     string
			start, end int
		}
		var evs []*ev
		m.start(s, func() {
			ginkgo.Describe("c", func() {
				var wait func()
				ginkgo.It("a", func() {
					var fs []func()
					for ti, ops := range progs {
						fs = append(fs, func() {
							for oi, op := range ops {
								clock++
								e := &ev{op: op, id: fmt.Sprintf("m%d.%d", ti, oi), start: clock, end: 1 << 30}
								evs = append(evs, e)
								func() {
									defer ginkgo.GinkgoRecover()
									switch op {
									case "fail":
										ginkgo.Fail(e.id)
									case "skip":
										ginkgo.Skip(e.id)
									case "abort":
										ginkgo.AbortSuite(e.id)
									case "panic":
										panic(e.id)
									}
								}()
								clock++
								e.end = clock
							}
						})
					}
					wait = m.threads(fs...)
					if join == "body" {
						wait()
					}
				})
				ginkgo.AfterEach(func() {
					if join == "AfterEach" && wait != nil {
						wait()
					}
					wait = nil
				})
				ginkgo.It("b", func() {})
			})
		})
		return func(*vsched.S) (string, string) {
			if m.built != nil {
				return "the tree is rejected", m.built.Error()
			}
			var a, b *types.SpecReport
			for i := range m.rep.SpecReports {
				switch m.rep.SpecReports[i].LeafNodeText {
				case "a":
					a = &m.rep.SpecReports[i]
				case "b":
					b = &m.rep.SpecReports[i]
				}
			}
			if a == nil || b == nil {
				return "a spec is not reported", ""
			}
			show := func(st types.SpecState, f types.Failure) string {
				return fmt.Sprintf("%s %s%s", st, f.Message, strings.TrimPrefix(f.ForwardedPanic, " "))
			}
			var all []string
			all = append(all, show(a.State, a.Failure))
			for _, f := range a.AdditionalFailures {
				all = append(all, show(f.State, f.Failure))
			}
			obs = strings.Join(all, ";") + "/" + b.State.String()
			want := map[string]string{} // message -> how it is recorded
			for _, e := range evs {
				want[map[string]string{"fail": "failed ", "skip": "skipped ", "abort": "aborted ", "panic": "panicked Test Panicked"}[e.op]+e.id] = e.id
			}
			first := all[0]
			if join == "AfterEach" && first == "passed " {
				return "a failure is lost", obs
			}
			id, ok := want[first]
			if !ok {
				return "the recorded outcome is none of those called for", obs
			}
			byID := map[string]*ev{}
			for _, e := range evs {
				byID[e.id] = e
			}
			if join == "body" {
				for _, e := range evs { // nothing was over before the recorded one began
					if e.end < byID[id].start {
						return "a later outcome replaces an earlier one", fmt.Sprintf("%s is recorded, %s was before:%s", id, e.id, obs)
					}
				}
				if len(all) > 1 {
					return "additional failures of one node", obs
				}
			}
			for _, x := range all[1:] {
				if _, ok := want[x]; !ok {
					return "an additional failure is none of those called for", obs
				}
				if x == first {
					return "a failure is recorded twice", obs
				}
			}
			aborted := a.State == types.SpecStateAborted
			for _, f := range a.AdditionalFailures {
				aborted = aborted || f.State == types.SpecStateAborted
			}
			if wantB := map[bool]types.SpecState{true: types.SpecStateSkipped, false: types.SpecStatePassed}[aborted]; b.State != wantB || (wantB == types.SpecStatePassed && b.Failure.Message != "") {
				return "the next spec is not clean", fmt.Sprintf("%s: %s %q", obs, b.State, b.Failure.Message)
			}
			failed := a.State.Is(types.SpecStateFailureStates) || len(a.AdditionalFailures) > 0
			if m.ok == failed {
				return "verdict", fmt.Sprintf("success %v: %s", m.ok, obs)
			}
			return "", ""
		}
	}}
}

func suiteFailures(c *lib.Ctx) {
	ops := []string{"fail", "skip", "abort", "panic"}
	b := c.Pick(2, 3)
	for _, join := range []string{"body", "AfterEach"} {
		for i, x := range ops {
			for _, y := range ops[i:] {
				explore(c, failures(join, [][]string{{x}, {y}}, b))
				explore(c, failures(join, [][]string{{x, "fail"}, {y}}, b-1))
				explore(c, failures(join, [][]string{{x}, {y}, {"fail"}}, b-1))
			}
		}
	}
}

/* ---------- C17: what specs add to their report ---------- */

type note struct {
	kind, text string
	order      int
	offset     int
}

func notesOf(r *types.SpecReport) (out []note) {
	for _, e := range r.ReportEntries {
		out = append(out, note{"entry", e.Name, e.TimelineLocation.Order, e.TimelineLocation.Offset})
	}
	for _, e := range r.SpecEvents {
		switch e.SpecEventType {
		case types.SpecEventByStart:
			out = append(out, note{"by", e.Message, e.TimelineLocation.Order, e.TimelineLocation.Offset})
		case types.SpecEventByEnd:
			out = append(out, note{"byend", e.Message, e.TimelineLocation.Order, e.TimelineLocation.Offset})
		case types.SpecEventNodeStart:
			out = append(out, note{"node", e.NodeType.String(), e.TimelineLocation.Order, e.TimelineLocation.Offset})
		case types.SpecEventNodeEnd:
			out = append(out, note{"nodeend", e.NodeType.String(), e.TimelineLocation.Order, e.TimelineLocation.Offset})
		}
	}
	for _, p := range r.ProgressReports {
		out = append(out, note{"progress", p.LeafNodeText, p.TimelineLocation.Order, p.TimelineLocation.Offset})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].order < out[j].order })
	return
}

func (n note) String() string { return fmt.Sprintf("%d:%s(%s)@%d", n.order, n.kind, n.text, n.offset) }

// recordings: each program is a string of e (entry), b (By), B (By with a callback that adds an entry), w (write), p (request a
// progress report), a (attach a progress reporter), d (detach the last attached), c (look at the current report).
func recordings(progs []string, bound int) scenario {
	var m *mini
	obs := ""
	return scenario{name: "recordings: " + strings.Join(progs, " | "), bound: bound, obs: func() string { return obs }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		m = &mini{}
		obs = ""
		clock := 0
		type span struct{ start, end int }
		attached := map[string]*[2]span{} // reporter -> when it was attached and detached
		type query struct {
			span
			n int // how many progress reports had been emitted before and after
		}
		var queries []span
		written := 0
		m.start(s, func() {
			ginkgo.It("a", func() {
				var fs []func()
				for ti, prog := range progs {
					fs = append(fs, func() {
						var last string
						var undo func()
						for oi, op := range prog {
							id := fmt.Sprintf("%c%d.%d", op, ti, oi)
							clock++
							sp := span{start: clock}
							switch op {
							case 'e':
								ginkgo.AddReportEntry(id)
							case 'b':
								ginkgo.By(id)
							case 'B':
								ginkgo.By(id, func() { ginkgo.AddReportEntry(id + "in") })
							case 'w':
								m.writer.Write([]byte(id + "\n"))
								written += len(id) + 1
							case 'p':
								m.ask()
							case 'a':
								undo = ginkgo.AttachProgressReporter(func() string { return id })
								last = id
							case 'd':
								undo()
							case 'c':
								r := m.suite.CurrentSpecReport()
								if r.LeafNodeText != "a" {
									m.bad = "the current report is that of " + r.LeafNodeText
								}
							}
							clock++
							sp.end = clock
							switch op {
							case 'a':
								attached[id] = &[2]span{sp, {1 << 30, 1 << 30}}
							case 'd':
								attached[last][1] = sp
							case 'p':
								queries = append(queries, sp)
							}
						}
					})
				}
				m.threads(fs...)()
			})
			ginkgo.It("b", func() {
				ginkgo.AddReportEntry("b's own")
			})
		})
		return func(*vsched.S) (string, string) {
			if m.built != nil {
				return "the tree is rejected", m.built.Error()
			}
			if m.bad != "" {
				return m.bad, ""
			}
			var a, b *types.SpecReport
			for i := range m.rep.SpecReports {
				switch m.rep.SpecReports[i].LeafNodeText {
				case "a":
					a = &m.rep.SpecReports[i]
				case "b":
					b = &m.rep.SpecReports[i]
				}
			}
			if a == nil || b == nil || a.State != types.SpecStatePassed || b.State != types.SpecStatePassed {
				return "the specs do not pass", fmt.Sprint(m.rep.SpecReports)
			}
			ns := notesOf(a)
			obs = fmt.Sprint(ns)
			if len(a.CapturedGinkgoWriterOutput) != written {
				return "the captured output", fmt.Sprintf("%d bytes, written %d", len(a.CapturedGinkgoWriterOutput), written)
			}
			// each exactly once
			want := map[string]int{"node(It)": 1, "nodeend(It)": 1}
			for ti, prog := range progs {
				for oi, op := range prog {
					id := fmt.Sprintf("%c%d.%d", op, ti, oi)
					switch op {
					case 'e':
						want["entry("+id+")"]++
					case 'b':
						want["by("+id+")"]++
					case 'B':
						want["by("+id+")"]++
						want["byend("+id+")"]++
						want["entry("+id+"in)"]++
					case 'p':
						want["progress(a)"]++
					}
				}
			}
			got := map[string]int{}
			pos := map[string]note{}
			for i, n := range ns {
				got[n.kind+"("+n.text+")"]++
				pos[n.kind+"("+n.text+")"] = n
				if i > 0 && n.order == ns[i-1].order {
					return "two things have one timeline position", obs
				}
				if n.offset > written {
					return "an offset is beyond the captured output", obs
				}
			}
			for _, k := range lib.SortedKeys(want) {
				if got[k] != want[k] {
					return "recorded lost or more than once", fmt.Sprintf("%s %d times, want %d: %s", k, got[k], want[k], obs)
				}
			}
			for _, k := range lib.SortedKeys(got) {
				if want[k] == 0 {
					return "recorded in a spec that is not its own", k + ": " + obs
				}
			}
			if bn := notesOf(b); len(bn) != 3 || bn[1].text != "b's own" || len(b.ProgressReports) > 0 {
				return "recorded in a spec that is not its own", fmt.Sprint(bn)
			}
			// the order of each program, and its own writes
			for ti, prog := range progs {
				last, own := note{order: -1}, 0
				next := func(k string) string {
					n := pos[k]
					if n.order <= last.order {
						return fmt.Sprintf("%s after %s", k, last)
					}
					if n.offset < own || n.offset < last.offset {
						return fmt.Sprintf("%s, though %d bytes had been written before, after %s", n, own, last)
					}
					last = n
					return ""
				}
				for oi, op := range prog {
					id := fmt.Sprintf("%c%d.%d", op, ti, oi)
					x := ""
					switch op {
					case 'e':
						x = next("entry(" + id + ")")
					case 'b':
						x = next("by(" + id + ")")
					case 'B':
						x = next("by("+id+")") + next("entry("+id+"in)") + next("byend("+id+")")
					case 'w':
						own += len(id) + 1
					}
					if x != "" {
						return "positions do not follow the program", x + ": " + obs
					}
				}
			}
			if s, e := pos["node(It)"], pos["nodeend(It)"]; s.order != ns[0].order || e.order != ns[len(ns)-1].order {
				return "positions outside the node", obs
			}
			// the reporter is told once of each
			if len(m.entries) != len(a.ReportEntries)+1 || len(m.events) != len(a.SpecEvents)+2 || len(m.progress) != len(a.ProgressReports) {
				return "the reporter is told of more or less than is recorded", fmt.Sprintf("%d entries, %d events, %d progress reports", len(m.entries), len(m.events), len(m.progress))
			}
			// progress reporters: who was attached throughout a request is asked, who was not at all is not
			var asked []map[string]bool
			for _, p := range m.progress {
				q := map[string]bool{}
				for _, x := range p.AdditionalReports {
					if q[x] {
						return "a progress reporter is asked twice", fmt.Sprint(p.AdditionalReports)
					}
					q[x] = true
				}
				asked = append(asked, q)
				if p.LeafNodeText != "a" {
					return "a progress report is of another spec", p.LeafNodeText
				}
			}
			match := func(sp span, q map[string]bool) bool {
				for id, at := range attached {
					if at[0].end < sp.start && at[1].start > sp.end && !q[id] {
						return false
					}
					if (at[1].end < sp.start || at[0].start > sp.end) && q[id] {
						return false
					}
				}
				for id := range q {
					if attached[id] == nil {
						return false
					}
				}
				return true
			}
			var assign func(i int, used uint) bool
			assign = func(i int, used uint) bool {
				if i == len(queries) {
					return true
				}
				for j, q := range asked {
					if used>>j&1 == 0 && match(queries[i], q) && assign(i+1, used|1<<j) {
						return true
					}
				}
				return false
			}
			if !assign(0, 0) {
				x := ""
				for _, k := range lib.SortedKeys(attached) {
					x += fmt.Sprint(" ", k, *attached[k])
				}
				return "the wrong progress reporters are asked", fmt.Sprintf("requests %v, attached and detached%s, asked %v", queries, x, asked)
			}
			return "", ""
		}
	}}
}

func init() {
	checks["C17"] = func(c *lib.Ctx) {
		b := c.Pick(2, 3)
		explore(c, requests(1, b))
		parts := []string{"e", "b", "B", "w", "p", "a", "ad", "we", "ew", "c"}
		for i, x := range parts {
			for _, y := range parts[i:] {
				explore(c, recordings([]string{x, y}, b))
			}
		}
		for _, p := range [][]string{{"ebw", "web"}, {"ap", "adp"}, {"apd", "apd"}, {"aad", "pp"}, {"adad", "pp"}, {"Bwe", "ppc"}, {"ee", "ee"}, {"wewe", "bB"}} {
			explore(c, recordings(p, b))
		}
		for _, p := range [][]string{{"e", "e", "e"}, {"e", "b", "p"}, {"ad", "ad", "p"}, {"we", "we", "c"}} {
			explore(c, recordings(p, b-1))
		}
	}
}

// requests: progress reports asked for at any time, also between specs and after the last.
func requests(n, bound int) scenario {
	var m *mini
	obs := ""
	return scenario{name: fmt.Sprintf("requests: %d", n), bound: bound - 1, obs: func() string { return obs }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		m = &mini{}
		obs = ""
		m.start(s, func() {
			ginkgo.It("a", func() {
				m.writer.Write([]byte("aaa\n"))
				var fs []func()
				for range n {
					fs = append(fs, func() { m.ask() })
				}
				m.threads(fs...)
			})
			ginkgo.It("b", func() { m.writer.Write([]byte("bb\n")) })
		})
		return func(*vsched.S) (string, string) {
			if len(m.progress) != n {
				return "requests are answered more or less than once", fmt.Sprint(len(m.progress))
			}
			obs = ""
			for _, p := range m.progress {
				obs += p.LeafNodeText + "/" + p.CurrentNodeType.String() + " "
			}
			recorded := 0
			for _, r := range m.rep.SpecReports {
				for _, p := range r.ProgressReports {
					recorded++
					if p.LeafNodeText != r.LeafNodeText {
						return "a progress report is recorded in a spec that is not its own", fmt.Sprintf("%q in %q", p.LeafNodeText, r.LeafNodeText)
					}
				}
			}
			if recorded > n {
				return "a progress report is recorded twice", ""
			}
			if recorded < n {
				obs += "lost"
			}
			return "", ""
		}
	}}
}
