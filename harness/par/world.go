// Package par decides the properties of parallel runs: N real suites, one per
// "process", run in one synctest bubble against one real server handler. Every
// call of a process on the server and the end of every node body is a
// scheduling point; a controller explores every interleaving of the steps
// between scheduling points, crashes of a process included, pruning at states
// that were reached before.
package par

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

// Fixture is one configuration to explore.
type Fixture struct {
	Name    string
	N       int
	Tree    func() *fix.N
	Acts    map[string]fix.Act // by body name, or "name@process"
	Cfg     func(*types.SuiteConfig)
	Crash   int  // how many processes may die
	OnlyP   int  // only this process may die (0: any)
	Signals bool // use the stand-in interrupt handler, so that bodies can raise signals
	CtxFail bool // a context body that is cancelled fails instead of returning
}

type ev struct {
	P    int
	What string // begin NAME, end NAME, call KIND, exit, crash, seen-abort
	Note string
}

type req struct {
	id    int
	p     int
	kind  string
	ready func() bool
	do    func() string
	ch    chan bool
	body  bool
}

type proc struct {
	id       int
	run      *fix.Runner
	client   *client
	handler  *interrupt_handler.InterruptHandler
	reqs     []*req
	obs      *fix.Obs
	returned bool // Run has returned
	exited   bool
	dead     bool
	sawAbort bool
	trace    strings.Builder
	did      []types.SpecReport // what it told the server
}

type world struct {
	mu      sync.Mutex
	fx      *Fixture
	procs   []*proc
	h       *parallel_support.ServerHandler
	srv     parallel_support.Server
	rep     *serverRep
	log     []ev
	nreq    int
	tickFor int // 0: no tick in progress
	aborted bool
	crashes int
	poison  chan bool
	poisond bool
	hung    string
	ends    []int // order of SuiteDidEnd
	begins  int
}

type serverRep struct {
	mu     sync.Mutex
	events []string
	did    []types.SpecReport
	begin  []types.Report
	end    []types.Report
}

func (r *serverRep) SuiteWillBegin(rep types.Report) {
	r.mu.Lock()
	r.begin = append(r.begin, rep)
	r.events = append(r.events, "begin")
	r.mu.Unlock()
}
func (r *serverRep) WillRun(rep types.SpecReport) {
	r.mu.Lock()
	r.events = append(r.events, "will "+specName(rep))
	r.mu.Unlock()
}
func (r *serverRep) DidRun(rep types.SpecReport) {
	r.mu.Lock()
	r.did = append(r.did, rep)
	r.events = append(r.events, "did "+specName(rep))
	r.mu.Unlock()
}
func (r *serverRep) SuiteDidEnd(rep types.Report) {
	r.mu.Lock()
	r.end = append(r.end, rep)
	r.events = append(r.events, "end")
	r.mu.Unlock()
}
func (r *serverRep) EmitFailure(types.SpecState, types.Failure) {}
func (r *serverRep) EmitProgressReport(types.ProgressReport)    {}
func (r *serverRep) EmitReportEntry(types.ReportEntry)          {}
func (r *serverRep) EmitSpecEvent(types.SpecEvent)              {}

var _ reporters.Reporter = &serverRep{}

func specName(r types.SpecReport) string {
	if r.LeafNodeText != "" {
		return r.LeafNodeText
	}
	return "[" + r.LeafNodeType.String() + "]"
}

// yield is a scheduling point of process p. It returns false if ctx was cancelled first.
func (w *world) yield(p *proc, kind string, body bool, ctx context.Context, ready func() bool, do func() string) bool {
	r := &req{p: p.id, kind: kind, ready: ready, do: do, ch: make(chan bool, 1), body: body}
	w.mu.Lock()
	if w.poisond || p.dead {
		w.mu.Unlock()
		w.leave(p)
	}
	// whatever this process was waiting for before has been left behind
	p.reqs = nil
	w.nreq++
	r.id = w.nreq
	p.reqs = append(p.reqs, r)
	w.mu.Unlock()
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	select {
	case <-r.ch:
		return true
	case <-done:
		w.mu.Lock()
		p.drop(r)
		w.mu.Unlock()
		return false
	case <-w.poison:
		w.leave(p)
		return false
	}
}

func (w *world) leave(p *proc) {
	runtime.Goexit()
}

func (p *proc) drop(r *req) {
	for i := range p.reqs {
		if p.reqs[i] == r {
			p.reqs = append(p.reqs[:i:i], p.reqs[i+1:]...)
			return
		}
	}
}

func (w *world) add(p int, what, note string) {
	w.mu.Lock()
	w.log = append(w.log, ev{p, what, note})
	w.mu.Unlock()
}

/* ---- the client of one process ---- */

type client struct {
	w *world
	p *proc
}

// sent is v as it arrives on the other side of a connection.
func sent[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out T
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}

var always = func() bool { return true }

func (c *client) call(kind string, ready func() bool, do func() (string, error)) error {
	var err error
	c.w.yield(c.p, kind, false, nil, ready, func() string {
		var s string
		s, err = do()
		c.w.add(c.p.id, "call "+kind, s)
		if err != nil {
			return s + "!" + err.Error()
		}
		return s
	})
	return err
}

func (c *client) Connect() bool { return true }
func (c *client) Close() error  { return nil }
func (c *client) PostSuiteWillBegin(r types.Report) error {
	return c.call("begin", always, func() (string, error) { c.w.begins++; return "", c.w.h.SpecSuiteWillBegin(sent(r), nil) })
}
func (c *client) PostDidRun(r types.SpecReport) error {
	return c.call("did", always, func() (string, error) {
		c.p.did = append(c.p.did, r)
		return specName(r) + "=" + r.State.String(), c.w.h.DidRun(sent(r), nil)
	})
}
func (c *client) PostSuiteDidEnd(r types.Report) error {
	return c.call("ended", always, func() (string, error) {
		c.w.ends = append(c.w.ends, c.p.id)
		return fmt.Sprint(r.SuiteSucceeded), c.w.h.SpecSuiteDidEnd(sent(r), nil)
	})
}
func (c *client) PostReportBeforeSuiteCompleted(s types.SpecState) error {
	return c.call("rbs", always, func() (string, error) { return s.String(), c.w.h.ReportBeforeSuiteCompleted(s, nil) })
}
func early(err error) bool {
	return err != nil && err.Error() == parallel_support.ErrorEarly.Error()
}
func (c *client) BlockUntilReportBeforeSuiteCompleted() (s types.SpecState, err error) {
	err = c.call("wait-rbs", func() bool {
		var s types.SpecState
		return !early(c.w.h.ReportBeforeSuiteState(parallel_support.Void{}, &s))
	}, func() (string, error) {
		err := c.w.h.ReportBeforeSuiteState(parallel_support.Void{}, &s)
		if gone(err) { // (what both real clients do; C35 checks them)
			s, err = types.SpecStateFailed, nil
		}
		return s.String(), err
	})
	return
}

func gone(err error) bool { return err != nil && err.Error() == parallel_support.ErrorGone.Error() }
func (c *client) PostSynchronizedBeforeSuiteCompleted(s types.SpecState, data []byte) error {
	return c.call("sbs", always, func() (string, error) {
		return s.String(), c.w.h.BeforeSuiteCompleted(parallel_support.BeforeSuiteState{State: s, Data: data}, nil)
	})
}
func (c *client) BlockUntilSynchronizedBeforeSuiteData() (types.SpecState, []byte, error) {
	var st parallel_support.BeforeSuiteState
	err := c.call("wait-sbs", func() bool {
		var s parallel_support.BeforeSuiteState
		return !early(c.w.h.BeforeSuiteState(parallel_support.Void{}, &s))
	}, func() (string, error) {
		err := c.w.h.BeforeSuiteState(parallel_support.Void{}, &st)
		if gone(err) {
			st = parallel_support.BeforeSuiteState{}
			err = types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1()
		}
		return st.State.String() + string(st.Data), err
	})
	return st.State, st.Data, err
}
func (c *client) BlockUntilNonprimaryProcsHaveFinished() error {
	return c.call("wait-procs", func() bool {
		return !early(c.w.h.HaveNonprimaryProcsFinished(parallel_support.Void{}, nil))
	}, func() (string, error) {
		return "", c.w.h.HaveNonprimaryProcsFinished(parallel_support.Void{}, nil)
	})
}
func (c *client) BlockUntilAggregatedNonprimaryProcsReport() (r types.Report, err error) {
	err = c.call("wait-report", func() bool {
		var r types.Report
		return !early(c.w.h.AggregatedNonprimaryProcsReport(parallel_support.Void{}, &r))
	}, func() (string, error) {
		err := c.w.h.AggregatedNonprimaryProcsReport(parallel_support.Void{}, &r)
		if gone(err) {
			err = types.GinkgoErrors.AggregatedReportUnavailableDueToNodeDisappearing()
		}
		return fmt.Sprint(len(r.SpecReports)), err
	})
	return
}
func (c *client) FetchNextCounter() (n int, err error) {
	err = c.call("counter", always, func() (string, error) {
		err := c.w.h.Counter(parallel_support.Void{}, &n)
		return fmt.Sprint(n), err
	})
	return
}
func (c *client) PostAbort() error {
	return c.call("abort", always, func() (string, error) { c.w.aborted = true; return "", c.w.h.Abort(parallel_support.Void{}, nil) })
}

// ShouldAbort is asked from the interrupt handler's goroutines: it is no scheduling point.
func (c *client) ShouldAbort() bool {
	c.w.mu.Lock()
	t, dead := c.w.tickFor, c.p.dead || c.w.poisond
	c.w.mu.Unlock()
	if dead || (t != 0 && t != c.p.id) {
		return false
	}
	var b bool
	if err := c.w.h.ShouldAbort(parallel_support.Void{}, &b); err != nil {
		return false
	}
	if b && !c.p.sawAbort {
		c.p.sawAbort = true
		c.w.add(c.p.id, "seen-abort", "")
	}
	return b
}
func (c *client) PostEmitProgressReport(r types.ProgressReport) error { return nil }
func (c *client) Write(p []byte) (int, error)                         { return len(p), nil }

/* ---- processes ---- */

type repHook struct {
	w *world
	p *proc
}

func (h *repHook) SuiteWillBegin(rep types.Report) {}
func (h *repHook) WillRun(rep types.SpecReport)    {}
func (h *repHook) DidRun(rep types.SpecReport) {
	h.w.add(h.p.id, "did "+specName(rep), rep.State.String())
}
func (h *repHook) SuiteDidEnd(rep types.Report)               {}
func (h *repHook) EmitFailure(types.SpecState, types.Failure) {}
func (h *repHook) EmitProgressReport(types.ProgressReport)    {}
func (h *repHook) EmitReportEntry(types.ReportEntry)          {}
func (h *repHook) EmitSpecEvent(types.SpecEvent)              {}

func findHandler(srv parallel_support.Server) *parallel_support.ServerHandler {
	v := reflect.ValueOf(srv).Elem()
	want := reflect.TypeOf(&parallel_support.ServerHandler{})
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == want {
			return *(**parallel_support.ServerHandler)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic("the server has no ServerHandler")
}

func newWorld(fx *Fixture) *world {
	w := &world{fx: fx, poison: make(chan bool), rep: &serverRep{}}
	srv, err := parallel_support.NewServer(fx.N, w.rep)
	if err != nil {
		panic(err)
	}
	w.srv, w.h = srv, findHandler(srv)
	srv.SetOutputDestination(nowhere{})
	for i := 1; i <= fx.N; i++ {
		p := &proc{id: i}
		p.client = &client{w, p}
		w.procs = append(w.procs, p)
		srv.RegisterAlive(i, func() bool { return !p.exited && !p.dead })
	}
	return w
}

type nowhere struct{}

func (nowhere) Write(p []byte) (int, error) { return len(p), nil }

func (w *world) start(p *proc) {
	fx := w.fx
	r := &fix.Runner{Cfg: fix.DefaultCfg(), Client: p.client, Extra: &repHook{w, p}}
	r.Cfg.ParallelTotal, r.Cfg.ParallelProcess = fx.N, p.id
	if fx.Cfg != nil {
		fx.Cfg(&r.Cfg)
	}
	r.Decide = func(inv fix.Inv) fix.Act {
		w.mu.Lock()
		over := w.poisond
		w.mu.Unlock()
		if over {
			w.leave(p)
		}
		w.add(p.id, "begin "+inv.Name, "")
		if a, ok := fx.Acts[fmt.Sprintf("%s@%d", inv.Name, p.id)]; ok {
			return a
		}
		return fx.Acts[inv.Name]
	}
	r.OnBody = func(inv fix.Inv, a fix.Act, ctx context.Context) {
		if !w.yield(p, "body "+inv.Name, true, ctx, always, func() string { return "" }) {
			w.add(p.id, "cancelled "+inv.Name, "")
			if fx.CtxFail {
				r.Fail("C:" + inv.Key())
			}
			return
		}
		w.add(p.id, "end "+inv.Name, "")
	}
	if !fx.Signals {
		p.handler = interrupt_handler.NewInterruptHandler(p.client, syscall.SIGUSR2)
		r.Handler = p.handler
	}
	p.run = r
	go func() {
		defer func() {
			if p.handler != nil {
				p.handler.Stop()
			}
		}()
		f := fix.Prepare(fx.Tree())
		obs := r.Run(f)
		w.mu.Lock()
		p.obs, p.returned = obs, true
		w.log = append(w.log, ev{p.id, "returned", fmt.Sprint(obs.Success)})
		w.mu.Unlock()
		w.yield(p, "exit", false, nil, always, func() string {
			p.exited = true
			w.log = append(w.log, ev{p.id, "exit", ""})
			return ""
		})
	}()
}

// settle lets every goroutine run until it blocks, timers that are due included.
func settle(d time.Duration) {
	synctest.Wait()
	time.Sleep(d)
	synctest.Wait()
}

/* ---- exploration ---- */

type choice struct {
	kind string // step, tick, crash, crash-after
	p    int
}

func (c choice) String() string { return fmt.Sprintf("%s(%d)", c.kind, c.p) }

func (w *world) choices() []choice {
	var out []choice
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, p := range w.procs {
		if len(p.reqs) > 0 && !p.dead && !p.exited {
			r := p.reqs[len(p.reqs)-1]
			w.mu.Unlock()
			ok := r.ready()
			w.mu.Lock()
			if ok {
				out = append(out, choice{"step", p.id})
			}
		}
	}
	for _, p := range w.procs {
		if w.aborted && !p.sawAbort && !p.returned && !p.dead && p.handler != nil && len(p.reqs) > 0 {
			out = append(out, choice{"tick", p.id})
		}
	}
	if w.crashes < w.fx.Crash {
		for _, p := range w.procs {
			if p.dead || p.returned || (w.fx.OnlyP != 0 && w.fx.OnlyP != p.id) || len(p.reqs) == 0 {
				continue
			}
			out = append(out, choice{"crash", p.id})
			if r := p.reqs[len(p.reqs)-1]; !r.body {
				w.mu.Unlock()
				ok := r.ready()
				w.mu.Lock()
				if ok {
					out = append(out, choice{"crash-after", p.id})
				}
			}
		}
	}
	return out
}

func (w *world) apply(c choice) {
	p := w.procs[c.p-1]
	switch c.kind {
	case "step":
		w.mu.Lock()
		r := p.reqs[len(p.reqs)-1]
		p.drop(r)
		w.mu.Unlock()
		p.run.Use()
		res := r.do()
		fmt.Fprintf(&p.trace, "%s=%s;", r.kind, res)
		r.ch <- true
		settle(time.Microsecond)
	case "tick":
		p.trace.WriteString("tick;")
		p.run.Use()
		w.mu.Lock()
		w.tickFor = p.id
		w.mu.Unlock()
		settle(interrupt_handler.ABORT_POLLING_INTERVAL)
		settle(time.Microsecond)
		w.mu.Lock()
		w.tickFor = 0
		w.mu.Unlock()
	case "crash", "crash-after":
		if c.kind == "crash-after" {
			w.mu.Lock()
			r := p.reqs[len(p.reqs)-1]
			w.mu.Unlock()
			res := r.do()
			fmt.Fprintf(&p.trace, "%s=%s;", r.kind, res)
		}
		w.mu.Lock()
		p.dead = true
		p.trace.WriteString("dead;")
		w.crashes++
		w.log = append(w.log, ev{p.id, "crash", ""})
		w.mu.Unlock()
	}
}

// state identifies the state of the whole system: what every process has done and got
// back so far, what it is about to do, and the order of the calls whose order matters to the server.
func (w *world) state() string {
	var b strings.Builder
	for _, p := range w.procs {
		b.WriteString(p.trace.String())
		for _, r := range p.reqs {
			b.WriteString("?" + r.kind)
		}
		fmt.Fprintf(&b, "|%v|", p.sawAbort)
	}
	fmt.Fprintf(&b, "%v", w.ends)
	return b.String()
}

func (w *world) finished() bool {
	for _, p := range w.procs {
		if !p.exited && !p.dead {
			return false
		}
	}
	return true
}

// runOnce replays prefix and then follows the first choice at every point until the end or until
// a state that fresh() has seen before. It returns the choices taken and how many there were at each point.
func runOnce(fx *Fixture, prefix []int, fresh func(string) bool) (w *world, taken []int, widths []int, steps []string, complete bool) {
	w = newWorld(fx)
	for _, p := range w.procs {
		w.start(p)
		settle(time.Microsecond)
	}
	for {
		cs := w.choices()
		if w.finished() {
			complete = true
			break
		}
		live := false
		for _, c := range cs {
			live = live || c.kind == "step" || c.kind == "tick"
		}
		if !live {
			// perhaps something is only waiting for time to pass
			settle(2 * time.Minute)
			cs = w.choices()
			for _, c := range cs {
				live = live || c.kind == "step" || c.kind == "tick"
			}
			if !live {
				w.hung = w.describe()
				break
			}
		}
		i := len(taken)
		v := 0
		if i < len(prefix) {
			v = prefix[i]
			if v >= len(cs) {
				panic(fmt.Sprintf("replay divergence at %d: %d of %v", i, v, cs))
			}
		} else if !fresh(w.state()) {
			break
		}
		taken = append(taken, v)
		widths = append(widths, len(cs))
		steps = append(steps, cs[v].String())
		w.apply(cs[v])
		if i > 3000 {
			w.hung = "no end after 3000 steps: " + w.describe()
			break
		}
	}
	w.shutdown()
	return
}

func (w *world) describe() string {
	var s []string
	for _, p := range w.procs {
		st := fmt.Sprintf("process %d:", p.id)
		switch {
		case p.dead:
			st += " dead"
		case p.exited:
			st += " exited"
		case len(p.reqs) == 0:
			st += " blocked outside of any call"
		default:
			st += " waits in " + p.reqs[len(p.reqs)-1].kind
		}
		s = append(s, st)
	}
	return strings.Join(s, ", ")
}

func (w *world) shutdown() {
	w.mu.Lock()
	w.poisond = true
	w.mu.Unlock()
	close(w.poison)
	settle(time.Millisecond)
	w.srv.Close()
}

func (w *world) history() string {
	var b strings.Builder
	for _, e := range w.log {
		fmt.Fprintf(&b, "%d:%s", e.P, e.What)
		if e.Note != "" {
			fmt.Fprintf(&b, "(%s)", e.Note)
		}
		b.WriteString(" ")
	}
	return b.String()
}

func sorted(s []string) []string {
	o := append([]string{}, s...)
	sort.Strings(o)
	return o
}
