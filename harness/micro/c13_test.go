package micro

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// recorder is a reporter that takes time: other threads may run while it is being called.
type recorder struct {
	reporters.NoopReporter
	events  []string
	inside  string
	overlap string
	end     types.Report
}

func (r *recorder) call(e string) {
	if r.inside != "" && r.overlap == "" {
		r.overlap = e + " during " + r.inside
	}
	was := r.inside
	r.inside = e
	r.events = append(r.events, e)
	vsched.P("reporter")
	r.inside = was
}
func (r *recorder) SuiteWillBegin(types.Report)               { r.call("begin") }
func (r *recorder) WillRun(s types.SpecReport)                { r.call("will " + s.LeafNodeText) }
func (r *recorder) DidRun(s types.SpecReport)                 { r.call("did " + s.LeafNodeText) }
func (r *recorder) SuiteDidEnd(s types.Report)                { r.call("end"); r.end = s }
func (r *recorder) EmitProgressReport(p types.ProgressReport) { r.call("progress " + p.Message) }

type server struct {
	srv parallel_support.Server
	h   *parallel_support.ServerHandler
	rec *recorder
}

func newServer(total int) *server {
	rec := &recorder{}
	srv, err := parallel_support.NewServer(total, rec)
	if err != nil {
		panic(err)
	}
	srv.SetOutputDestination(io.Discard)
	srv.Close()
	v := reflect.ValueOf(srv).Elem()
	want := reflect.TypeOf(&parallel_support.ServerHandler{})
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			return &server{srv, *(**parallel_support.ServerHandler)(unsafe.Pointer(f.UnsafeAddr())), rec}
		}
	}
	panic("the server has no ServerHandler")
}

var void parallel_support.Void

// until repeats a call until it is not answered "too early", and gives up after a while.
func until(f func() error) error {
	for i := 0; ; i++ {
		err := f()
		if !errors.Is(err, parallel_support.ErrorEarly) || i > 6 {
			return err
		}
		t := vsched.Self()
		if t != nil && i > 2 {
			vsched.Sleep()
		}
	}
}

type span struct {
	name       string
	start, end int
}

// procs: each thread of calls belongs to one process: B begin, a-z a spec that passes, A-Y... (see below), E end, F end with failure
func protocol(name string, bound int, progs []string) scenario {
	var sv *server
	return scenario{name: name, bound: bound, obs: func() string { return strings.Join(sv.rec.events, ",") }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		total := 0
		for _, p := range progs {
			if strings.Contains(p, "B") {
				total++
			}
		}
		sv = newServer(total)
		h := sv.h
		var spans []*span
		clock := 0
		var errs []string
		for pi, prog := range progs {
			s.Spawn(fmt.Sprintf("p%d", pi+1), func() {
				var reps types.SpecReports
				for _, op := range prog {
					clock++
					sp := &span{name: string(op), start: clock}
					spans = append(spans, sp)
					var err error
					switch {
					case op == 'B':
						err = h.SpecSuiteWillBegin(types.Report{SuiteDescription: "s"}, nil)
					case op == 'E' || op == 'F':
						err = h.SpecSuiteDidEnd(types.Report{SuiteSucceeded: op == 'E', SpecReports: reps}, nil)
					case op == 'P':
						err = h.EmitProgressReport(types.ProgressReport{Message: fmt.Sprint(pi)}, nil)
					default:
						sr := types.SpecReport{LeafNodeText: string(op)}
						reps = append(reps, sr)
						err = h.DidRun(sr, nil)
					}
					if err != nil {
						errs = append(errs, err.Error())
					}
					clock++
					sp.end = clock
				}
			})
		}
		return func(*vsched.S) (string, string) {
			r := sv.rec
			ev := strings.Join(r.events, ",")
			if len(errs) > 0 {
				return "a call failed", strings.Join(errs, ";")
			}
			if r.overlap != "" {
				return "the reporter is called by two threads at once", r.overlap
			}
			var core []string
			progress := 0
			for _, e := range r.events {
				if strings.HasPrefix(e, "progress") {
					progress++
				} else {
					core = append(core, e)
				}
			}
			all := strings.Join(progs, "")
			if progress != strings.Count(all, "P") {
				return "progress reports lost or repeated", ev
			}
			if len(core) == 0 || core[0] != "begin" {
				return "the suite's beginning is not announced first", ev
			}
			end := strings.Count(all, "E")+strings.Count(all, "F") == total
			if end {
				if core[len(core)-1] != "end" {
					return "the suite's end is not announced last", ev
				}
				core = core[:len(core)-1]
			}
			core = core[1:]
			pos := map[string]int{}
			for i := 0; i < len(core); i += 2 {
				if i+1 >= len(core) || !strings.HasPrefix(core[i], "will ") || core[i+1] != "did "+core[i][5:] {
					return "the reports of specs are not whole", ev
				}
				if _, twice := pos[core[i][5:]]; twice {
					return "a spec is reported twice", ev
				}
				pos[core[i][5:]] = i
			}
			specs := 0
			for _, a := range spans {
				if a.name >= "a" {
					specs++
					if _, ok := pos[a.name]; !ok {
						return "a spec is not reported", ev
					}
					for _, b := range spans {
						if b.name >= "a" && a.end < b.start && pos[a.name] > pos[b.name] {
							return "specs are not reported in the order of their completion", fmt.Sprintf("%s was over before %s: %s", a.name, b.name, ev)
						}
					}
				}
			}
			if len(pos) != specs {
				return "more specs are reported than ran", ev
			}
			closed := false
			select {
			case <-sv.srv.GetSuiteDone():
				closed = true
			default:
			}
			if closed != end {
				return "done", fmt.Sprintf("signalled %v, want %v", closed, end)
			}
			if end {
				if got, want := r.end.SuiteSucceeded, !strings.Contains(all, "F"); got != want {
					return "verdict", fmt.Sprintf("success %v, want %v", got, want)
				}
				if len(r.end.SpecReports) != specs {
					return "the final report is incomplete", fmt.Sprintf("%d specs, want %d", len(r.end.SpecReports), specs)
				}
			}
			return "", ""
		}
	}}
}

func counters(name string, bound int, threads, each int) scenario {
	var got [][]int
	return scenario{name: name, bound: bound, obs: func() string { return fmt.Sprint(got) }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		sv := newServer(2)
		got = make([][]int, threads)
		for t := 0; t < threads; t++ {
			s.Spawn(fmt.Sprintf("p%d", t+1), func() {
				for i := 0; i < each; i++ {
					n := -1
					sv.h.Counter(void, &n)
					got[t] = append(got[t], n)
				}
			})
		}
		return func(*vsched.S) (string, string) {
			seen := map[int]bool{}
			for _, g := range got {
				for i, n := range g {
					if n < 0 || n >= threads*each || seen[n] || (i > 0 && g[i-1] > n) {
						return "an index is handed out twice, out of order or never", fmt.Sprint(got)
					}
					seen[n] = true
				}
			}
			return "", ""
		}
	}}
}

// handOver: process 1 posts (or not) and exits; the others wait for what it posts.
func handOver(name string, bound int, which string, posts bool, readers int) scenario {
	var res []string
	return scenario{name: name, bound: bound, obs: func() string { return fmt.Sprint(res) }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		sv := newServer(readers + 1)
		alive := true
		sv.srv.RegisterAlive(1, func() bool { vsched.P("alive?"); return alive })
		res = make([]string, readers)
		s.Spawn("p1", func() {
			if posts {
				if which == "data" {
					sv.h.BeforeSuiteCompleted(parallel_support.BeforeSuiteState{State: types.SpecStatePassed, Data: []byte("data")}, nil)
				} else {
					sv.h.ReportBeforeSuiteCompleted(types.SpecStateFailed, nil)
				}
			}
			vsched.P("exit")
			alive = false
		})
		for i := 0; i < readers; i++ {
			s.Spawn(fmt.Sprintf("p%d", i+2), func() {
				if which == "data" {
					var st parallel_support.BeforeSuiteState
					err := until(func() error { return sv.h.BeforeSuiteState(void, &st) })
					res[i] = fmt.Sprintf("%v %s %v", st.State, st.Data, err)
				} else {
					var st types.SpecState
					err := until(func() error { return sv.h.ReportBeforeSuiteState(void, &st) })
					res[i] = fmt.Sprintf("%v %v", st, err)
				}
			})
		}
		return func(*vsched.S) (string, string) {
			want := map[string]map[bool]string{"data": {true: "passed data <nil>", false: fmt.Sprintf("%v  %v", types.SpecStateInvalid, parallel_support.ErrorGone)},
				"state": {true: "failed <nil>", false: fmt.Sprintf("%v %v", types.SpecStateInvalid, parallel_support.ErrorGone)}}[which][posts]
			for _, r := range res {
				if r != want {
					return "a process waiting for process 1 is told something else", fmt.Sprintf("got %q, want %q", r, want)
				}
			}
			return "", ""
		}
	}}
}

// aggregate: the processes but the first end (or die); process 1 waits for them and asks for their reports.
func aggregate(name string, bound int, ends []bool, waits bool) scenario {
	var res string
	return scenario{name: name, bound: bound, obs: func() string { return res }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		res = ""
		sv := newServer(len(ends) + 1)
		alive := make([]bool, len(ends))
		early := ""
		for i, reports := range ends {
			alive[i] = true
			sv.srv.RegisterAlive(i+2, func() bool { vsched.P("alive?"); return alive[i] })
			s.Spawn(fmt.Sprintf("p%d", i+2), func() {
				if reports {
					sv.h.SpecSuiteDidEnd(types.Report{SuiteSucceeded: i%2 == 0, SpecReports: types.SpecReports{{LeafNodeText: fmt.Sprint(i)}}}, nil)
				}
				vsched.P("exit")
				alive[i] = false
			})
		}
		s.Spawn("p1", func() {
			var err error
			if waits {
				err = until(func() error { return sv.h.HaveNonprimaryProcsFinished(void, nil) })
			}
			if waits && err == nil {
				for i := range alive {
					if alive[i] {
						early = fmt.Sprintf("process %d is still running", i+2)
					}
				}
			}
			var r types.Report
			err2 := until(func() error { return sv.h.AggregatedNonprimaryProcsReport(void, &r) })
			res = fmt.Sprintf("%v %v %d %v", err, err2, len(r.SpecReports), r.SuiteSucceeded)
		})
		return func(*vsched.S) (string, string) {
			if early != "" {
				return "process 1 is told too early that the others have finished", early
			}
			want := fmt.Sprintf("<nil> <nil> %d %v", len(ends), len(ends) < 2)
			for _, e := range ends {
				if !e {
					want = fmt.Sprintf("<nil> %v 0 false", parallel_support.ErrorGone)
				}
			}
			if res != want {
				return "process 1 gets the wrong reports", fmt.Sprintf("got %q, want %q", res, want)
			}
			return "", ""
		}
	}}
}

func aborts(name string, bound int) scenario {
	var res string
	return scenario{name: name, bound: bound, obs: func() string { return res }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		res = ""
		sv := newServer(2)
		clock, called, returned := 0, 1<<30, 1<<30
		bad := ""
		s.Spawn("p1", func() {
			clock++
			called = clock
			sv.h.Abort(void, nil)
			clock++
			returned = clock
		})
		for i := 0; i < 2; i++ {
			s.Spawn(fmt.Sprintf("p%d", i+2), func() {
				last := false
				for j := 0; j < 2; j++ {
					clock++
					start := clock
					var b bool
					sv.h.ShouldAbort(void, &b)
					clock++
					if (b && clock < called) || (!b && (start > returned || last)) {
						bad = fmt.Sprintf("answered %v between %d and %d; abort called at %d, returned at %d", b, start, clock, called, returned)
					}
					last = b
					res += fmt.Sprint(i, b)
				}
			})
		}
		return func(*vsched.S) (string, string) {
			if bad != "" {
				return "abort is not seen", bad
			}
			return "", ""
		}
	}}
}

func init() {
	checks["C10"] = func(c *lib.Ctx) { handOvers(c, c.Pick(3, 4)) }
	checks["C11"] = func(c *lib.Ctx) { aggregates(c, c.Pick(3, 4)) }
	checks["C13"] = func(c *lib.Ctx) {
		b := c.Pick(3, 4)
		for _, p := range [][]string{{"BaE", "BbE"}, {"BabE", "BcF"}, {"BaE", "BE"}, {"BaP", "BbP"}, {"BaEP", "BbF"}, {"BPa", "Bb"}, {"Bab", "Bcd"}} {
			explore(c, protocol("protocol: "+strings.Join(p, " "), b, p))
		}
		for _, p := range [][]string{{"BaE", "BbE", "BcF"}, {"Ba", "Bb", "Bc"}, {"BE", "BE", "BE"}, {"BaE", "BbE", "PP"}, {"BaP", "BbP", "Bc"}} {
			explore(c, protocol("protocol of 3: "+strings.Join(p, " "), b-1, p))
		}
		explore(c, counters("counter: 2x3", b+1, 2, 3))
		explore(c, counters("counter: 3x2", b, 3, 2))
		handOvers(c, b)
		aggregates(c, b)
		explore(c, aborts("abort", b))
	}
}

func handOvers(c *lib.Ctx, b int) {
	for _, w := range []string{"data", "state"} {
		for _, posts := range []bool{true, false} {
			for n := 1; n <= 2; n++ {
				explore(c, handOver(fmt.Sprintf("handover: %s posted=%v readers=%d", w, posts, n), b+1-n, w, posts, n))
			}
		}
	}
}

func aggregates(c *lib.Ctx, b int) {
	for _, e := range [][]bool{{true}, {false}, {true, true}, {true, false}, {false, true}} {
		for _, waits := range []bool{true, false} {
			explore(c, aggregate(fmt.Sprintf("reports: %v, waiting first: %v", e, waits), b+1-len(e), e, waits))
		}
	}
}
