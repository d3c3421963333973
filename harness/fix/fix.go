// Package fix builds spec trees through Ginkgo's public DSL, runs them on the
// real internal.Suite with recording collaborators, and records what happened.
package fix

import (
	"context"
	"fmt"
	"io"
	"strings"
	"sync"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

type Kind string

const (
	KC   Kind = "C"   // container
	KIt  Kind = "It"  // subject
	KBE  Kind = "BE"  // BeforeEach
	KJBE Kind = "JBE" // JustBeforeEach
	KAE  Kind = "AE"
	KJAE Kind = "JAE"
	KBA  Kind = "BA"
	KAA  Kind = "AA"
	KRBE Kind = "RBE" // ReportBeforeEach
	KRAE Kind = "RAE"
	KBS  Kind = "BS"
	KAS  Kind = "AS"
	KSBS Kind = "SBS"
	KSAS Kind = "SAS"
	KRBS Kind = "RBS"
	KRAS Kind = "RAS"
	KDC  Kind = "DC" // DeferCleanup (dynamic)
)

// N is a node of a fixture.
type N struct {
	K       Kind
	Name    string
	Ordered bool
	COF     bool
	OPO     bool
	Pending bool
	Focus   bool
	Serial  bool
	Flake   int
	MPR     int
	Labels  []string
	Ctx     bool
	NT      time.Duration  // NodeTimeout
	ST      time.Duration  // SpecTimeout
	GP      *time.Duration // GracePeriod
	PA, PI  *time.Duration // PollProgressAfter, PollProgressInterval
	Decs    []any          // further decorators
	Kids    []*N

	File string
	Line int

	// filled in by Prepare
	Parent *N
	Level  int
	pos    int
}

func C(name string, kids ...*N) *N { return &N{K: KC, Name: name, Kids: kids} }
func L(k Kind, name string) *N     { return &N{K: k, Name: name} }

func (n *N) Clone() *N {
	c := *n
	c.Kids = make([]*N, len(n.Kids))
	for i := range n.Kids {
		c.Kids[i] = n.Kids[i].Clone()
	}
	return &c
}

// Fix is a suite: root's kids are the top-level nodes.
type Fix struct {
	Root  *N
	Specs []*N // all It nodes in definition order
	All   []*N
}

func Prepare(root *N) *Fix {
	f := &Fix{Root: root}
	line := 0
	var walk func(n *N, level int)
	walk = func(n *N, level int) {
		for _, k := range n.Kids {
			k.Parent = n
			k.Level = level
			line++
			k.pos = line
			if k.Line == 0 {
				k.Line = line
			}
			if k.File == "" {
				k.File = "fixture_test.go"
			}
			f.All = append(f.All, k)
			if k.K == KIt {
				f.Specs = append(f.Specs, k)
			}
			walk(k, level+1)
		}
	}
	root.Level = -1
	walk(root, 0)
	return f
}

// Path is the chain of containers from the outermost to the innermost around n.
func (n *N) Path() []*N {
	var p []*N
	for c := n.Parent; c != nil && c.Parent != nil; c = c.Parent {
		p = append([]*N{c}, p...)
	}
	return p
}

func (n *N) String() string {
	var b strings.Builder
	b.WriteString(string(n.K))
	if n.Name != "" {
		b.WriteString(":" + n.Name)
	}
	for _, x := range []struct {
		on bool
		s  string
	}{{n.Ordered, "Ordered"}, {n.COF, "ContinueOnFailure"}, {n.OPO, "OncePerOrdered"}, {n.Pending, "Pending"}, {n.Focus, "Focus"}, {n.Serial, "Serial"}, {n.Ctx, "ctx"}} {
		if x.on {
			b.WriteString("+" + x.s)
		}
	}
	if n.Flake > 0 {
		fmt.Fprintf(&b, "+Flake%d", n.Flake)
	}
	if n.MPR > 0 {
		fmt.Fprintf(&b, "+MPR%d", n.MPR)
	}
	for _, l := range n.Labels {
		b.WriteString("+L(" + l + ")")
	}
	if n.NT > 0 {
		fmt.Fprintf(&b, "+NodeTimeout(%s)", n.NT)
	}
	if n.ST > 0 {
		fmt.Fprintf(&b, "+SpecTimeout(%s)", n.ST)
	}
	if n.GP != nil {
		fmt.Fprintf(&b, "+GracePeriod(%s)", *n.GP)
	}
	if n.PA != nil {
		fmt.Fprintf(&b, "+PollProgressAfter(%s)", *n.PA)
	}
	if n.PI != nil {
		fmt.Fprintf(&b, "+PollProgressInterval(%s)", *n.PI)
	}
	for _, d := range n.Decs {
		fmt.Fprintf(&b, "+%T(%v)", d, d)
	}
	if len(n.Kids) > 0 {
		b.WriteString("{")
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(k.String())
		}
		b.WriteString("}")
	}
	return b.String()
}

// ActKind is what a node body does when it is invoked.
type ActKind int

const (
	Pass ActKind = iota
	Fail
	Panic
	Skip
	Abort
	FailTwice   // records two failures (the first through a recovered goroutine-like Fail)
	FailThenRet // Fail in a recovered closure, then return normally
	SkipThenFail
	PanicNil // runtime.Goexit
	IntHang  // raise an interrupt, then wait for cancellation (needs Ctx)
	FailGoroutine
	Hang // wait for the context to be cancelled (for ever without one), then return
)

var actNames = map[ActKind]string{Pass: "pass", Fail: "fail", Panic: "panic", Skip: "skip", Abort: "abort", FailTwice: "fail2", FailThenRet: "failret", SkipThenFail: "skipfail", PanicNil: "goexit", IntHang: "inthang", FailGoroutine: "failgo", Hang: "hang"}

type Act struct {
	Kind   ActKind
	Defers int // number of DeferCleanups registered before the outcome
	DC     *N  // attributes of those cleanups (context, timeouts)
	T      *Timed
}

// Timed says how long a body takes and how it reacts to the cancellation of its context.
// Kind is what it does when its time is up.
type Timed struct {
	Dur     time.Duration // 0: for ever
	React   ActKind       // what it does when it is cancelled: Hang (never ends), Pass, Fail, ...
	Late    time.Duration // time it takes to react
	Attach  int           // number of progress reporters attached
	ByAt    time.Duration // if not 0: calls By("step") this long after it began
	Unplugs time.Duration // if not 0: detaches its progress reporters this long after it began
}

func (t *Timed) String() string {
	d := "ever"
	if t.Dur > 0 {
		d = t.Dur.String()
	}
	s := fmt.Sprintf("@%s~%s+%s", d, actNames[t.React], t.Late)
	if t.Attach > 0 {
		s += fmt.Sprintf("+attach%d", t.Attach)
	}
	if t.ByAt > 0 {
		s += fmt.Sprintf("+by@%s", t.ByAt)
	}
	if t.Unplugs > 0 {
		s += fmt.Sprintf("+detach@%s", t.Unplugs)
	}
	return s
}

func (a Act) String() string {
	s := actNames[a.Kind]
	if a.Defers > 0 {
		s += fmt.Sprintf("+dc%d", a.Defers)
	}
	if a.T != nil {
		s += a.T.String()
	}
	return s
}

// Inv is one invocation of one node body.
type Inv struct {
	Node *N   // nil for a dynamic cleanup
	K    Kind // KDC for a dynamic cleanup
	Name string
	Seq  int
}

func (i Inv) Key() string { return fmt.Sprintf("%s#%d", i.Name, i.Seq) }

type SpecRes struct {
	Leaf       string
	LeafType   types.NodeType
	State      types.SpecState
	Msg        string
	FailNode   types.NodeType
	FailCtx    types.FailureNodeContext
	FailCI     int
	Add        []string
	Attempts   int
	MaxFlake   int
	MaxMPR     int
	Ordered    bool
	Serial     bool
	Containers []string
}

func (s SpecRes) String() string {
	return fmt.Sprintf("%s[%s]=%s msg=%q fn=%s/%d add=%v att=%d", s.Leaf, s.LeafType, s.State, s.Msg, s.FailNode, s.FailCtx, s.Add, s.Attempts)
}

func Summarize(r types.SpecReport) SpecRes {
	s := SpecRes{Leaf: r.LeafNodeText, LeafType: r.LeafNodeType, State: r.State, Attempts: r.NumAttempts, MaxFlake: r.MaxFlakeAttempts, MaxMPR: r.MaxMustPassRepeatedly,
		Ordered: r.IsInOrderedContainer, Serial: r.IsSerial, Containers: r.ContainerHierarchyTexts}
	s.Msg = FailMsg(r.Failure)
	s.FailNode = r.Failure.FailureNodeType
	s.FailCtx = r.Failure.FailureNodeContext
	s.FailCI = r.Failure.FailureNodeContainerIndex
	for _, a := range r.AdditionalFailures {
		s.Add = append(s.Add, fmt.Sprintf("%s:%s", a.State, FailMsg(a.Failure)))
	}
	return s
}

func FailMsg(f types.Failure) string {
	m := f.Message
	if f.ForwardedPanic != "" {
		m += " <" + f.ForwardedPanic + ">"
	}
	if f.AdditionalFailure != nil {
		m += " {" + f.AdditionalFailure.State.String() + ":" + FailMsg(f.AdditionalFailure.Failure) + "}"
	}
	return m
}

// Obs is what one run of a suite did.
type Obs struct {
	Events     []string
	Decisions  map[string]Act
	Will       []SpecRes
	Did        []SpecRes
	DidRaw     []types.SpecReport
	Begin      types.Report
	End        types.Report
	NumBegin   int
	NumEnd     int
	Success    bool
	Focus      bool
	EmitFails  []string
	Registered []string // DeferCleanup names registered, in order
	Overlap    string
	SpecEvents []string
	Current    map[string]string // invocation -> CurrentSpecReport().LeafNodeText
	Panicked   string
	Intercept  []string
}

type recReporter struct {
	mu  sync.Mutex
	o   *Obs
	Raw bool
	r   *Runner
}

func (r *recReporter) SuiteWillBegin(report types.Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.o.NumBegin++
	r.o.Begin = report
}
func (r *recReporter) WillRun(report types.SpecReport) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := Summarize(report)
	r.o.Will = append(r.o.Will, s)
	r.o.Events = append(r.o.Events, "will:"+leafName(report)+"="+s.State.String()+r.r.stamp())
}
func (r *recReporter) DidRun(report types.SpecReport) {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := Summarize(report)
	r.o.Did = append(r.o.Did, s)
	r.o.DidRaw = append(r.o.DidRaw, report)
	r.o.Events = append(r.o.Events, "did:"+leafName(report)+"="+s.State.String()+r.r.stamp())
}
func leafName(r types.SpecReport) string {
	if r.LeafNodeText != "" {
		return r.LeafNodeText
	}
	return "[" + r.LeafNodeType.String() + "]"
}
func (r *recReporter) SuiteDidEnd(report types.Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.o.NumEnd++
	r.o.End = report
}
func (r *recReporter) EmitFailure(state types.SpecState, failure types.Failure) {
	if r.r.Timed {
		time.Sleep(EmitTime) // so that what follows a timeout comes after it
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.o.EmitFails = append(r.o.EmitFails, state.String()+":"+FailMsg(failure))
}
func (r *recReporter) EmitProgressReport(p types.ProgressReport) {
	if r.r.Timed {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.o.Events = append(r.o.Events, progressNote(p)+r.r.now())
	}
}

func progressNote(p types.ProgressReport) string {
	kind := "progress?" + p.Message
	for k, m := range map[string]string{"poll": "Automatically polling progress", "first": "First interrupt received", "second": "Second interrupt received", "final": "Final interrupt received", "leak": "failed to exit in time", "asked": "You've requested a progress report"} {
		if strings.Contains(p.Message, m) {
			kind = k
		}
	}
	return fmt.Sprintf("%s:%s/%s/%s/%s/%s", kind, strings.Join(append(append([]string{}, p.ContainerHierarchyTexts...), p.LeafNodeText), ">"), p.CurrentNodeType, p.CurrentNodeText, p.CurrentStepText, strings.Join(p.AdditionalReports, ","))
}
func (r *recReporter) EmitReportEntry(types.ReportEntry) {}
func (r *recReporter) EmitSpecEvent(e types.SpecEvent) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if e.SpecEventType == types.SpecEventSpecRetry {
		r.o.SpecEvents = append(r.o.SpecEvents, fmt.Sprintf("retry%d", e.Attempt))
	}
	if e.SpecEventType == types.SpecEventSpecRepeat {
		r.o.SpecEvents = append(r.o.SpecEvents, fmt.Sprintf("repeat%d", e.Attempt))
	}
}

// Tee forwards to two reporters.
type Tee struct{ A, B reporters.Reporter }

func (t *Tee) SuiteWillBegin(r types.Report) { t.A.SuiteWillBegin(r); t.B.SuiteWillBegin(r) }
func (t *Tee) WillRun(r types.SpecReport)    { t.A.WillRun(r); t.B.WillRun(r) }
func (t *Tee) DidRun(r types.SpecReport)     { t.A.DidRun(r); t.B.DidRun(r) }
func (t *Tee) SuiteDidEnd(r types.Report)    { t.A.SuiteDidEnd(r); t.B.SuiteDidEnd(r) }
func (t *Tee) EmitFailure(s types.SpecState, f types.Failure) {
	t.A.EmitFailure(s, f)
	t.B.EmitFailure(s, f)
}
func (t *Tee) EmitProgressReport(p types.ProgressReport) {
	t.A.EmitProgressReport(p)
	t.B.EmitProgressReport(p)
}
func (t *Tee) EmitReportEntry(e types.ReportEntry) { t.A.EmitReportEntry(e); t.B.EmitReportEntry(e) }
func (t *Tee) EmitSpecEvent(e types.SpecEvent)     { t.A.EmitSpecEvent(e); t.B.EmitSpecEvent(e) }

// Interrupts is a controllable interrupt handler (signals).
type Interrupts struct {
	mu    sync.Mutex
	c     chan any
	level interrupt_handler.InterruptLevel
	cause interrupt_handler.InterruptCause
}

func NewInterrupts() *Interrupts { return &Interrupts{c: make(chan any)} }
func (h *Interrupts) Raise(cause interrupt_handler.InterruptCause) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.cause = cause
	if h.level < interrupt_handler.InterruptLevelBailOut {
		h.level++
		close(h.c)
		h.c = make(chan any)
	}
}
func (h *Interrupts) Status() interrupt_handler.InterruptStatus {
	h.mu.Lock()
	defer h.mu.Unlock()
	return interrupt_handler.InterruptStatus{Channel: h.c, Level: h.level, Cause: h.cause}
}

// recInterceptor checks that interception is started and stopped in pairs.
type recInterceptor struct {
	mu  sync.Mutex
	on  bool
	bad []string
	n   int
}

func (i *recInterceptor) start(s string) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.on = true
	i.n++
}
func (i *recInterceptor) StartInterceptingOutput()                        { i.start("start") }
func (i *recInterceptor) StartInterceptingOutputAndForwardTo(_ io.Writer) { i.start("forward") }
func (i *recInterceptor) StopInterceptingAndReturnOutput() string {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.on = false
	return ""
}
func (i *recInterceptor) PauseIntercepting()  {}
func (i *recInterceptor) ResumeIntercepting() {}
func (i *recInterceptor) Shutdown()           {}

// Runner runs fixtures.
type Runner struct {
	Cfg      types.SuiteConfig
	Decide   func(Inv) Act // consulted once per invocation
	Client   parallel_support.Client
	Handler  interrupt_handler.InterruptHandlerInterface
	OnBody   func(inv Inv, a Act, ctx context.Context) // extra behaviour before the outcome
	SuiteLbl []string
	Desc     string
	Extra    reporters.Reporter       // told everything the recording reporter is told
	Writer   internal.WriterInterface // default: a buffering writer
	Timed    bool                     // bodies take (virtual) time
	Raise    []time.Duration          // interrupts, in time since the start
	Ask      []time.Duration          // requests for a progress report

	mu     sync.Mutex
	seq    map[string]int
	o      *Obs
	inside string
	suite  *internal.Suite
	failer *internal.Failer
	ih     *Interrupts
	raised bool
	t0     time.Time
	gen    int
}

// EmitTime is the time it takes to emit a failure.
const EmitTime = time.Microsecond

// stamp notes the time if bodies take time; whatever body is still running then has been left behind.
func (r *Runner) stamp() string {
	if !r.Timed {
		return ""
	}
	r.mu.Lock()
	r.gen++
	r.mu.Unlock()
	return r.now()
}

func (r *Runner) now() string { return "@" + time.Since(r.t0).String() }

func DefaultCfg() types.SuiteConfig {
	return types.SuiteConfig{RandomSeed: 1, ParallelTotal: 1, ParallelProcess: 1, GracePeriod: 30 * time.Second}
}

func (r *Runner) Run(f *Fix) *Obs {
	r.o = &Obs{Decisions: map[string]Act{}, Current: map[string]string{}}
	r.seq = map[string]int{}
	r.inside = ""
	r.raised = false
	r.failer = internal.NewFailer()
	r.ih = NewInterrupts()
	var ih interrupt_handler.InterruptHandlerInterface = r.ih
	if r.Handler != nil {
		ih = r.Handler
	}
	var writer internal.WriterInterface
	if r.Writer != nil {
		writer = r.Writer
	} else {
		w := internal.NewWriter(io.Discard)
		w.SetMode(internal.WriterModeBufferOnly)
		writer = w
	}
	var rep reporters.Reporter = &recReporter{o: r.o, r: r}
	if r.Extra != nil {
		rep = &Tee{rep, r.Extra}
	}
	oldS, oldF := global.Suite, global.Failer
	r.suite = internal.NewSuite()
	global.Suite, global.Failer = r.suite, r.failer
	defer func() { global.Suite, global.Failer = oldS, oldF }()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.o.Panicked = fmt.Sprint(e)
			}
		}()
		r.build(f.Root)
		if err := r.suite.BuildTree(); err != nil {
			panic("BuildTree: " + err.Error())
		}
		desc := r.Desc
		if desc == "" {
			desc = "suite"
		}
		r.t0 = time.Now()
		for _, d := range r.Raise {
			ih := r.ih
			t := time.AfterFunc(d, func() { ih.Raise(interrupt_handler.InterruptCauseSignal) })
			defer t.Stop()
		}
		r.o.Success, r.o.Focus = r.suite.Run(desc, internal.Labels(r.SuiteLbl), "/path", r.failer, rep, writer, &recInterceptor{}, ih, r.Client,
			func(report func()) context.CancelFunc {
				var ts []*time.Timer
				for _, d := range r.Ask {
					ts = append(ts, time.AfterFunc(time.Until(r.t0.Add(d)), report))
				}
				return func() {
					for _, t := range ts {
						t.Stop()
					}
				}
			}, r.Cfg)
	}()
	r.stamp()
	return r.o
}

// Suite gives access to the running suite.
func (r *Runner) Suite() *internal.Suite { return r.suite }

// Use makes this runner's suite the one the DSL talks to.
func (r *Runner) Use() {
	if r.suite != nil {
		global.Suite, global.Failer = r.suite, r.failer
	}
}

func (r *Runner) Interrupts() *Interrupts { return r.ih }
func (r *Runner) Obs() *Obs               { return r.o }

func (r *Runner) args(n *N) []any {
	a := []any{types.CodeLocation{FileName: n.File, LineNumber: n.Line}}
	if n.Ordered {
		a = append(a, ginkgo.Ordered)
	}
	if n.COF {
		a = append(a, ginkgo.ContinueOnFailure)
	}
	if n.OPO {
		a = append(a, ginkgo.OncePerOrdered)
	}
	if n.Pending {
		a = append(a, ginkgo.Pending)
	}
	if n.Focus {
		a = append(a, ginkgo.Focus)
	}
	if n.Serial {
		a = append(a, ginkgo.Serial)
	}
	if n.Flake > 0 {
		a = append(a, ginkgo.FlakeAttempts(uint(n.Flake)))
	}
	if n.MPR > 0 {
		a = append(a, ginkgo.MustPassRepeatedly(uint(n.MPR)))
	}
	if len(n.Labels) > 0 {
		a = append(a, ginkgo.Label(n.Labels...))
	}
	if n.NT > 0 {
		a = append(a, ginkgo.NodeTimeout(n.NT))
	}
	if n.ST > 0 {
		a = append(a, ginkgo.SpecTimeout(n.ST))
	}
	if n.GP != nil {
		a = append(a, ginkgo.GracePeriod(*n.GP))
	}
	if n.PA != nil {
		a = append(a, ginkgo.PollProgressAfter(*n.PA))
	}
	if n.PI != nil {
		a = append(a, ginkgo.PollProgressInterval(*n.PI))
	}
	a = append(a, n.Decs...)
	return a
}

func (r *Runner) build(n *N) {
	for _, k := range n.Kids {
		r.buildNode(k)
	}
}

func (r *Runner) buildNode(n *N) {
	a := r.args(n)
	body := any(func() { r.body(n, KindOf(n), n.Name, "", nil) })
	if n.Ctx {
		body = func(ctx ginkgo.SpecContext) { r.body(n, KindOf(n), n.Name, "", ctx) }
	}
	switch n.K {
	case KC:
		ginkgo.Describe(n.Name, append(a, func() { r.build(n) })...)
	case KIt:
		ginkgo.It(n.Name, append(a, body)...)
	case KBE:
		ginkgo.BeforeEach(append(a, body)...)
	case KJBE:
		ginkgo.JustBeforeEach(append(a, body)...)
	case KAE:
		ginkgo.AfterEach(append(a, body)...)
	case KJAE:
		ginkgo.JustAfterEach(append(a, body)...)
	case KBA:
		ginkgo.BeforeAll(append(a, body)...)
	case KAA:
		ginkgo.AfterAll(append(a, body)...)
	case KRBE:
		if n.Ctx {
			ginkgo.ReportBeforeEach(func(ctx ginkgo.SpecContext, rep ginkgo.SpecReport) { r.body(n, n.K, n.Name, stateNote(rep), ctx) }, a...)
			return
		}
		ginkgo.ReportBeforeEach(func(rep ginkgo.SpecReport) { r.body(n, n.K, n.Name, stateNote(rep), nil) }, a...)
	case KRAE:
		if n.Ctx {
			ginkgo.ReportAfterEach(func(ctx ginkgo.SpecContext, rep ginkgo.SpecReport) { r.body(n, n.K, n.Name, stateNote(rep), ctx) }, a...)
			return
		}
		ginkgo.ReportAfterEach(func(rep ginkgo.SpecReport) { r.body(n, n.K, n.Name, stateNote(rep), nil) }, a...)
	case KBS:
		ginkgo.BeforeSuite(body, a...)
	case KAS:
		ginkgo.AfterSuite(body, a...)
	case KSBS:
		if n.Ctx {
			ginkgo.SynchronizedBeforeSuite(func(ctx ginkgo.SpecContext) []byte {
				r.body(n, n.K, n.Name+".1", "", ctx)
				return []byte("data")
			}, func(ctx ginkgo.SpecContext, d []byte) { r.body(n, n.K, n.Name+".all", string(d), ctx) }, a...)
			return
		}
		ginkgo.SynchronizedBeforeSuite(func() []byte { r.body(n, n.K, n.Name+".1", "", nil); return []byte("data") }, func(d []byte) { r.body(n, n.K, n.Name+".all", string(d), nil) }, a...)
	case KSAS:
		if n.Ctx {
			ginkgo.SynchronizedAfterSuite(func(ctx ginkgo.SpecContext) { r.body(n, n.K, n.Name+".all", "", ctx) }, func(ctx ginkgo.SpecContext) { r.body(n, n.K, n.Name+".1", "", ctx) }, a...)
			return
		}
		ginkgo.SynchronizedAfterSuite(func() { r.body(n, n.K, n.Name+".all", "", nil) }, func() { r.body(n, n.K, n.Name+".1", "", nil) }, a...)
	case KRBS:
		if n.Ctx {
			ginkgo.ReportBeforeSuite(func(ctx ginkgo.SpecContext, rep ginkgo.Report) { r.body(n, n.K, n.Name, reportNote(rep), ctx) }, a...)
			return
		}
		ginkgo.ReportBeforeSuite(func(rep ginkgo.Report) { r.body(n, n.K, n.Name, reportNote(rep), nil) }, a...)
	case KRAS:
		if n.Ctx {
			ginkgo.ReportAfterSuite(n.Name, func(ctx ginkgo.SpecContext, rep ginkgo.Report) { r.body(n, n.K, n.Name, reportNote(rep), ctx) }, a...)
			return
		}
		ginkgo.ReportAfterSuite(n.Name, func(rep ginkgo.Report) { r.body(n, n.K, n.Name, reportNote(rep), nil) }, a...)
	default:
		panic("unknown kind " + n.K)
	}
}

func KindOf(n *N) Kind { return n.K }

func stateNote(rep types.SpecReport) string {
	return rep.LeafNodeText + "=" + rep.State.String() + msgNote(FailMsg(rep.Failure))
}
func msgNote(m string) string {
	if m == "" {
		return ""
	}
	return "!" + m
}
func reportNote(rep types.Report) string {
	var s []string
	for _, sr := range rep.SpecReports {
		s = append(s, leafName(sr)+"="+sr.State.String())
	}
	return fmt.Sprintf("ok=%v %s", rep.SuiteSucceeded, strings.Join(s, ","))
}

func (r *Runner) body(n *N, k Kind, name, note string, ctx context.Context) {
	r.mu.Lock()
	inv := Inv{Node: n, K: k, Name: name, Seq: r.seq[name]}
	r.seq[name]++
	ev := inv.Key()
	if note != "" {
		ev += "(" + note + ")"
	}
	if r.Timed {
		r.gen++
		ev += r.now()
	}
	gen := r.gen
	r.o.Events = append(r.o.Events, ev)
	if r.inside != "" && r.o.Overlap == "" && !r.Timed {
		r.o.Overlap = inv.Key() + " started while " + r.inside + " was still running"
	}
	r.inside = inv.Key()
	r.mu.Unlock()
	cur := ginkgo.CurrentSpecReport().LeafNodeText
	act := r.Decide(inv)
	r.mu.Lock()
	r.o.Current[inv.Key()] = cur
	r.o.Decisions[inv.Key()] = act
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		if r.inside == inv.Key() {
			r.inside = ""
		}
		r.mu.Unlock()
	}()
	for i := 0; i < act.Defers; i++ {
		dn := fmt.Sprintf("%s/d%d", inv.Key(), i)
		r.mu.Lock()
		r.o.Registered = append(r.o.Registered, dn)
		r.mu.Unlock()
		if act.DC != nil && act.DC.Ctx {
			ginkgo.DeferCleanup(append([]any{func(ctx ginkgo.SpecContext) { r.body(nil, KDC, dn, "", ctx) }}, r.args(act.DC)[1:]...)...)
			continue
		}
		ginkgo.DeferCleanup(func() { r.body(nil, KDC, dn, "", nil) })
	}
	if r.OnBody != nil {
		r.OnBody(inv, act, ctx)
	}
	if act.T != nil {
		act.Kind = r.takeTime(inv, act, ctx, gen)
	}
	r.outcome(inv, act, ctx)
}

// takeTime lets time pass and says what the body then does.
func (r *Runner) takeTime(inv Inv, act Act, ctx context.Context, gen int) ActKind {
	t := act.T
	left := func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		return r.gen != gen
	}
	var detach []func()
	if sc, ok := ctx.(ginkgo.SpecContext); ok {
		for i := 0; i < t.Attach; i++ {
			s := fmt.Sprintf("%s.r%d", inv.Key(), i)
			detach = append(detach, sc.AttachProgressReporter(func() string { return s }))
		}
	}
	var done <-chan struct{}
	if ctx != nil {
		done = ctx.Done()
	}
	var end, by, off <-chan time.Time
	if t.Dur > 0 {
		end = time.After(t.Dur)
	}
	if t.ByAt > 0 {
		by = time.After(t.ByAt)
	}
	if t.Unplugs > 0 {
		off = time.After(t.Unplugs)
	}
	for {
		select {
		case <-by:
			if !left() {
				ginkgo.By("step")
			}
			by = nil
		case <-off:
			for _, f := range detach {
				f()
			}
			off = nil
		case <-end:
			if left() {
				select {} // left behind: must not meddle with what runs now
			}
			return act.Kind
		case <-done:
			r.mu.Lock()
			r.o.Events = append(r.o.Events, "cancel:"+inv.Key()+"("+context.Cause(ctx).Error()+")"+r.now())
			r.mu.Unlock()
			if t.React == Hang {
				select {}
			}
			time.Sleep(t.Late)
			if left() {
				select {}
			}
			return t.React
		}
	}
}

func (r *Runner) outcome(inv Inv, act Act, ctx context.Context) {
	switch act.Kind {
	case Fail:
		ginkgo.Fail("F:" + inv.Key())
	case Panic:
		panic("P:" + inv.Key())
	case Skip:
		ginkgo.Skip("S:" + inv.Key())
	case Abort:
		ginkgo.AbortSuite("A:" + inv.Key())
	case FailTwice:
		func() {
			defer func() { recover() }()
			ginkgo.Fail("F:" + inv.Key())
		}()
		ginkgo.Fail("second failure " + inv.Key())
	case FailThenRet:
		func() {
			defer func() { recover() }()
			ginkgo.Fail("F:" + inv.Key())
		}()
	case SkipThenFail:
		func() {
			defer func() { recover() }()
			ginkgo.Skip("S:" + inv.Key())
		}()
		ginkgo.Fail("F:" + inv.Key())
	case FailGoroutine:
		done := make(chan bool)
		go func() {
			defer close(done)
			defer ginkgo.GinkgoRecover()
			ginkgo.Fail("F:" + inv.Key())
		}()
		<-done
	case PanicNil:
		// leave the goroutine without returning and without a panic value
		goexit()
	case Hang:
		if ctx == nil {
			select {}
		}
		<-ctx.Done()
	case IntHang:
		r.ih.Raise(interrupt_handler.InterruptCauseSignal)
		if ctx != nil {
			<-ctx.Done()
		} else {
			select {}
		}
	}
}

// Fail records a failure in this runner's suite and leaves the goroutine of the node.
func (r *Runner) Fail(msg string) {
	r.Use()
	ginkgo.Fail(msg)
}
