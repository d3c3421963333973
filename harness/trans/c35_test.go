package trans

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

/* ---------- the model ---------- */

type model struct {
	total, begins, ends int
	holding             []string
	agg                 aggregate
	rbs                 types.SpecState
	bs                  types.SpecState
	data                string
	counter             int
	abort               bool
	dead                []bool
	out                 string
	events              []string
	fail                int
	done                bool
}

// aggregate is what the model remembers of the reports given to PostSuiteDidEnd.
type aggregate struct {
	ok      bool
	specs   []string
	reasons []string
	start   int
	end     int
}

func newModel(total int) *model { return &model{total: total, dead: make([]bool, total)} }

func (m *model) state() string {
	return fmt.Sprint(m.total, m.begins, m.ends, m.holding, m.agg, m.rbs, m.bs, m.data, min(m.counter, 2), m.abort, m.dead, len(m.out) > 0, m.fail)
}

func (m *model) othersDead() bool {
	for _, d := range m.dead[1:] {
		if !d {
			return false
		}
	}
	return true
}

var t0 = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func endReport(a aggregate) types.Report {
	r := types.Report{SuiteDescription: "suite", SuiteSucceeded: a.ok, SpecialSuiteFailureReasons: a.reasons,
		StartTime: t0.Add(time.Duration(a.start) * time.Second), EndTime: t0.Add(time.Duration(a.end) * time.Second)}
	r.RunTime = r.EndTime.Sub(r.StartTime)
	for _, s := range a.specs {
		r.SpecReports = append(r.SpecReports, types.SpecReport{LeafNodeText: s})
	}
	return r
}

func (a aggregate) add(b aggregate) aggregate {
	a.ok = a.ok && b.ok
	a.specs = append(append([]string{}, a.specs...), b.specs...)
	seen := map[string]bool{}
	var rs []string
	for _, r := range append(append([]string{}, a.reasons...), b.reasons...) {
		if !seen[r] {
			seen[r] = true
			rs = append(rs, r)
		}
	}
	a.reasons = rs
	a.start, a.end = min(a.start, b.start), max(a.end, b.end)
	return a
}

// op is a call; do makes it on a client and says what came back; model says
// what is to come back, "" while the call is to block.
type op struct {
	name  string
	block bool
	min   int // for so many processes at least
	do    func(c parallel_support.Client) string
	model func(m *model) string
}

func errs(err error) string {
	switch {
	case err == nil:
		return "ok"
	case reflect.DeepEqual(err, types.GinkgoErrors.SynchronizedBeforeSuiteDisappearedOnProc1()):
		return "proc 1 disappeared"
	case reflect.DeepEqual(err, types.GinkgoErrors.AggregatedReportUnavailableDueToNodeDisappearing()):
		return "report unavailable"
	}
	return "error"
}

func post(name string, f func(parallel_support.Client) error, effect func(*model)) op {
	return op{name: name, do: func(c parallel_support.Client) string { return errs(f(c)) }, model: func(m *model) string { effect(m); return "ok" }}
}

func (m *model) begin(r string) {
	m.begins++
	if m.begins == m.total {
		m.events = append(m.events, "begin "+r)
		for _, h := range m.holding {
			m.events = append(m.events, "will "+h, "did "+h)
		}
		m.holding = nil
	}
}

func (m *model) didRun(r string) {
	if m.begins == m.total {
		m.events = append(m.events, "will "+r, "did "+r)
	} else {
		m.holding = append(m.holding, r)
	}
}

func (m *model) didEnd(a aggregate) {
	m.ends++
	if m.ends == 1 {
		m.agg = a
	} else {
		m.agg = m.agg.add(a)
	}
	if m.ends == m.total {
		m.events = append(m.events, "end "+dump(endReport(m.agg)))
		m.done = true
	}
}

func (m *model) reportBS() string {
	if m.rbs != types.SpecStateInvalid {
		return fmt.Sprint(uint(m.rbs), " ok")
	}
	if m.dead[0] {
		return fmt.Sprint(uint(types.SpecStateFailed), " ok")
	}
	return ""
}

func (m *model) syncBS() string {
	if m.bs != types.SpecStateInvalid {
		return fmt.Sprintf("%d %q ok", uint(m.bs), m.data)
	}
	if m.dead[0] {
		return fmt.Sprintf("%d %q proc 1 disappeared", uint(types.SpecStateInvalid), "")
	}
	return ""
}

func (m *model) aggregated() string {
	if !m.othersDead() {
		return ""
	}
	if m.ends == m.total-1 {
		r := types.Report{}
		if m.ends > 0 {
			r = endReport(m.agg)
		}
		return dump(r) + " ok"
	}
	return dump(types.Report{}) + " report unavailable"
}

var ops []op

func init() {
	ag := []aggregate{{ok: true, specs: []string{"x"}, start: 5, end: 9}, {ok: false, specs: []string{"y", "z"}, reasons: []string{"why"}, start: 3, end: 6}}
	rb := func(i int) types.Report { return types.Report{SuiteDescription: fmt.Sprint("begin", i)} }
	sp := func(i int) types.SpecReport {
		return types.SpecReport{LeafNodeText: fmt.Sprint("spec", i), State: types.SpecStateFailed, Failure: types.Failure{Message: "m"}}
	}
	pr := types.ProgressReport{Message: "progress", CurrentNodeType: types.NodeTypeIt}
	ops = []op{
		post("begin", func(c parallel_support.Client) error { return c.PostSuiteWillBegin(rb(1)) }, func(m *model) { m.begin(dump(rb(1))) }),
		post("did", func(c parallel_support.Client) error { return c.PostDidRun(sp(1)) }, func(m *model) { m.didRun(dump(sp(1))) }),
		post("end", func(c parallel_support.Client) error { return c.PostSuiteDidEnd(endReport(ag[0])) }, func(m *model) { m.didEnd(ag[0]) }),
		post("endF", func(c parallel_support.Client) error { return c.PostSuiteDidEnd(endReport(ag[1])) }, func(m *model) { m.didEnd(ag[1]) }),
		post("progress", func(c parallel_support.Client) error { return c.PostEmitProgressReport(pr) }, func(m *model) { m.events = append(m.events, "progress "+dump(pr)) }),
		post("rbs", func(c parallel_support.Client) error { return c.PostReportBeforeSuiteCompleted(types.SpecStatePassed) }, func(m *model) { m.rbs = types.SpecStatePassed }),
		post("rbsF", func(c parallel_support.Client) error {
			return c.PostReportBeforeSuiteCompleted(types.SpecStatePanicked)
		}, func(m *model) { m.rbs = types.SpecStatePanicked }),
		post("sbs", func(c parallel_support.Client) error {
			return c.PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, []byte("da\x00ta\xff"))
		}, func(m *model) { m.bs, m.data = types.SpecStatePassed, "da\x00ta\xff" }),
		post("sbsF", func(c parallel_support.Client) error {
			return c.PostSynchronizedBeforeSuiteCompleted(types.SpecStateFailed, nil)
		}, func(m *model) { m.bs, m.data = types.SpecStateFailed, "" }),
		post("abort", func(c parallel_support.Client) error { return c.PostAbort() }, func(m *model) { m.abort = true }),
		{name: "abort?", do: func(c parallel_support.Client) string { return fmt.Sprint(c.ShouldAbort()) }, model: func(m *model) string { return fmt.Sprint(m.abort) }},
		{name: "counter", do: func(c parallel_support.Client) string {
			n, err := c.FetchNextCounter()
			return fmt.Sprint(n, " ", errs(err))
		},
			model: func(m *model) string { m.counter++; return fmt.Sprint(m.counter-1, " ok") }},
		{name: "write", do: func(c parallel_support.Client) string {
			n, err := c.Write([]byte("ou\x00t\n\xfe"))
			if err != nil && n < 6 && n >= 0 {
				return "short"
			}
			return fmt.Sprint(n, " ", errs(err))
		}, model: func(m *model) string {
			if m.fail > 0 {
				m.out += "ou\x00t\n\xfe"[:m.fail-1]
				return "short"
			}
			m.out += "ou\x00t\n\xfe"
			return "6 ok"
		}},
		{name: "wait rbs", block: true, do: func(c parallel_support.Client) string {
			s, err := c.BlockUntilReportBeforeSuiteCompleted()
			return fmt.Sprint(uint(s), " ", errs(err))
		}, model: (*model).reportBS},
		{name: "wait sbs", block: true, do: func(c parallel_support.Client) string {
			s, d, err := c.BlockUntilSynchronizedBeforeSuiteData()
			return fmt.Sprintf("%d %q %s", uint(s), d, errs(err))
		}, model: (*model).syncBS},
		{name: "wait others", block: true, min: 2, do: func(c parallel_support.Client) string { return errs(c.BlockUntilNonprimaryProcsHaveFinished()) },
			model: func(m *model) string {
				if m.othersDead() {
					return "ok"
				}
				return ""
			}},
		{name: "wait report", block: true, min: 2, do: func(c parallel_support.Client) string {
			r, err := c.BlockUntilAggregatedNonprimaryProcsReport()
			return dump(r) + " " + errs(err)
		}, model: (*model).aggregated},
	}
}

// events that are no calls: a process dies (1..3), writing begins to fail (f)
func name(k int) string {
	if k < len(ops) {
		return ops[k].name
	}
	return []string{"die 1", "die 2", "die 3", "disk full"}[k-len(ops)]
}

const extra = 4

func (m *model) allowed(k int) bool {
	switch {
	case k < len(ops):
		if m.total < ops[k].min {
			return false
		}
		if ops[k].name == "end" || ops[k].name == "endF" {
			return m.ends < m.total
		}
		return true
	case k < len(ops)+3:
		i := k - len(ops)
		return i < m.total && !m.dead[i]
	}
	return m.fail == 0
}

func (m *model) event(k int) {
	if i := k - len(ops); i < 3 {
		m.dead[i] = true
	} else {
		m.fail = 3
	}
}

func (m *model) clone() *model {
	n := *m
	n.dead = append([]bool{}, m.dead...)
	n.holding = append([]string{}, m.holding...)
	n.events = append([]string{}, m.events...)
	return &n
}

/* ---------- sequences ---------- */

type waiting struct {
	o   op
	res chan string
}

// check compares what the server did with the model.
func (u *sut) check(m *model) string {
	u.rec.mu.Lock()
	defer u.rec.mu.Unlock()
	if got, want := strings.Join(u.rec.events, "\n"), strings.Join(m.events, "\n"); got != want {
		return "the reporter was not told what it should be: " + around(got, want)
	}
	if got := u.rec.out.String(); got != m.out {
		return fmt.Sprintf("output %q, not %q", got, m.out)
	}
	select {
	case <-u.srv.GetSuiteDone():
		if !m.done {
			return "the suite is done too early"
		}
	default:
		if m.done {
			return "the suite is not done"
		}
	}
	return ""
}

func sequence(c *lib.Ctx, proto string, total int, seq []int) {
	kase := fmt.Sprintf("%s total=%d:", proto, total)
	for _, k := range seq {
		kase += " " + name(k) + ","
	}
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	u := start(proto, total, 2)
	m := newModel(total)
	var waits []*waiting
	fail := func(sig, detail string) { c.Violation(sig, kase, proto+": "+detail) }
	bad := false
	for i, k := range seq {
		if k >= len(ops) {
			m.event(k)
			if j := k - len(ops); j < 3 {
				u.dead[j].Store(true)
			} else {
				u.rec.mu.Lock()
				u.rec.fail = 3
				u.rec.mu.Unlock()
			}
		} else {
			o := ops[k]
			cl := u.clients[i%2]
			c.Add("calls", 1)
			if o.block {
				w := &waiting{o, make(chan string, 1)}
				go func() { w.res <- o.do(cl) }()
				waits = append(waits, w)
			} else {
				want := o.model(m)
				var got string
				if !within(func() { got = o.do(cl) }) {
					fail("a call does not return: "+o.name, o.name)
					bad = true
					break
				}
				if got != want {
					fail("a call returns the wrong thing: "+o.name, fmt.Sprintf("call %d, %s: %s", i+1, o.name, around(got, want)))
				}
			}
		}
		// the calls that have what they waited for return it now
		still := waits[:0]
		for _, w := range waits {
			want := w.o.model(m)
			if want == "" {
				still = append(still, w)
				continue
			}
			select {
			case got := <-w.res:
				if got != want {
					fail("a blocking call returns the wrong thing: "+w.o.name, fmt.Sprintf("after event %d, %s: %s", i+1, w.o.name, around(got, want)))
				}
			case <-time.After(patience):
				hung()
				fail("a blocking call does not return: "+w.o.name, fmt.Sprintf("after event %d, %s has what it waits for", i+1, w.o.name))
				bad = true
			}
		}
		waits = still
		if bad {
			return
		}
	}
	if e := u.check(m); e != "" {
		fail("a call does not have its effect", e)
	}
	// the others go on asking, and do not return
	if len(waits) > 0 {
		before := make([]int64, total)
		for i := range before {
			before[i] = u.polls[i].Load()
		}
		asked := func(i int) bool { return u.polls[i].Load() >= before[i]+2*int64(len(waits)) }
		until := time.Now().Add(patience)
		for _, w := range waits {
			i := 0
			if w.o.min == 2 {
				for i = 1; m.dead[i]; i++ {
				}
			}
			for !asked(i) && time.Now().Before(until) {
				select {
				case got := <-w.res:
					fail("a blocking call returns too early: "+w.o.name, fmt.Sprintf("%s returned %s", w.o.name, shorten(got)))
					until = time.Now()
				default:
					time.Sleep(50 * time.Microsecond)
				}
			}
			if !asked(i) && !time.Now().Before(until.Add(time.Second)) {
				fail("a blocking call no longer asks: "+w.o.name, w.o.name)
			}
		}
	}
	// the server goes: whatever waits gets an error, and so does every later call
	u.relay.cut(total > 1 || len(waits) == 0)
	for _, w := range waits {
		select {
		case got := <-w.res:
			if !strings.HasSuffix(got, " error") && got != "error" {
				fail("a blocking call returns no error when the server goes: "+w.o.name, w.o.name+" returned "+shorten(got))
			}
		case <-time.After(patience):
			hung()
			fail("a blocking call hangs when the server goes: "+w.o.name, w.o.name)
			return
		}
	}
	c.Add("traces_validated_against_impl", 1)
	c.Add("transitions", int64(len(seq)))
	c.Distinct("states", m.state()+strings.Join(m.events, ";"))
	u.close()
}

/* ---------- a server that is gone ---------- */

func gone(c *lib.Ctx, proto string, k int, hard bool) {
	o := ops[k]
	kase := fmt.Sprintf("%s: server gone (%v) before %s", proto, hard, o.name)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	u := start(proto, 2, 1)
	u.relay.cut(hard)
	for i := 0; i < 2; i++ {
		judgeGone(c, kase, o, u.clients[0])
	}
	fresh := parallel_support.NewClient(strings.Replace(u.srv.Address(), u.relay.backend, u.relay.l.Addr().String(), 1))
	if fresh.Connect() {
		c.Violation("a client connects to a server that is gone", kase, "")
	}
	u.close()
	c.Add("executions", 1)
	c.Add("traces_validated_against_impl", 1)
}

func judgeGone(c *lib.Ctx, kase string, o op, cl parallel_support.Client) {
	var got string
	if !within(func() {
		defer func() {
			if e := recover(); e != nil {
				got = fmt.Sprint("panic: ", e)
			}
		}()
		got = o.do(cl)
	}) {
		c.Violation("a call hangs when the server is gone: "+o.name, kase, "")
		return
	}
	ok := got == "error" || strings.HasSuffix(got, " error") || got == "short"
	if o.name == "abort?" {
		ok = got == "false"
	}
	if !ok {
		c.Violation("a call returns no error when the server is gone: "+o.name, kase, shorten(got))
	}
}

/* ---------- calls cut short ---------- */

// ready brings server and model to where the call does not block.
func ready(u *sut, m *model, o op) {
	switch o.name {
	case "wait rbs":
		m.rbs = types.SpecStateTimedout
		u.probeClient().PostReportBeforeSuiteCompleted(m.rbs)
	case "wait sbs":
		m.bs, m.data = types.SpecStatePassed, "precious"
		u.probeClient().PostSynchronizedBeforeSuiteCompleted(m.bs, []byte(m.data))
	case "wait others":
		m.event(len(ops) + 1)
		u.dead[1].Store(true)
	case "wait report":
		m.event(len(ops) + 1)
		u.dead[1].Store(true)
		a := aggregate{ok: true, specs: []string{"p"}, end: 1}
		m.didEnd(a)
		u.probeClient().PostSuiteDidEnd(endReport(a))
	case "did":
		for i := 0; i < 2; i++ {
			m.begin(dump(types.Report{}))
			u.probeClient().PostSuiteWillBegin(types.Report{})
		}
	case "begin":
		m.begin(dump(types.Report{}))
		u.probeClient().PostSuiteWillBegin(types.Report{})
		m.didRun(dump(types.SpecReport{LeafNodeText: "held"}))
		u.probeClient().PostDidRun(types.SpecReport{LeafNodeText: "held"})
	case "end", "endF":
		a := aggregate{ok: true, specs: []string{"p"}, start: 4, end: 7}
		m.didEnd(a)
		u.probeClient().PostSuiteDidEnd(endReport(a))
	case "abort?":
		m.abort = true
		u.probeClient().PostAbort()
	}
}

// probe asks the server directly for what cannot be seen otherwise.
func (u *sut) probe() string {
	p := u.probeClient()
	for i := range u.dead {
		u.dead[i].Store(true)
	}
	n, err := p.FetchNextCounter()
	s, err2 := p.BlockUntilReportBeforeSuiteCompleted()
	s2, d, err3 := p.BlockUntilSynchronizedBeforeSuiteData()
	return fmt.Sprint(n, errs(err), " ", uint(s), errs(err2), " ", uint(s2), d, errs(err3), " ", p.ShouldAbort())
}

func (m *model) probe() string {
	s, s2, e := m.rbs, m.bs, "ok"
	if s == types.SpecStateInvalid {
		s = types.SpecStateFailed
	}
	if s2 == types.SpecStateInvalid {
		e = "proc 1 disappeared"
	}
	return fmt.Sprint(m.counter, "ok", " ", uint(s), "ok", " ", uint(s2), []byte(m.data), e, " ", m.abort)
}

// torn makes a call of which only so many bytes of the request or of the
// answer are carried.
func torn(c *lib.Ctx, proto string, k int, answer bool, n int64) {
	o := ops[k]
	kase := fmt.Sprintf("%s: %s, cut after byte %d of the request", proto, o.name, n)
	if answer {
		kase = fmt.Sprintf("%s: %s, cut after byte %d of the answer", proto, o.name, n)
	}
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	u := start(proto, 2, 1)
	m := newModel(2)
	ready(u, m, o)
	before := m.clone()
	want := o.model(m)
	if answer {
		u.relay.downTo.Store(u.relay.down.Load() + n)
	} else {
		u.relay.upTo.Store(u.relay.up.Load() + n)
	}
	defer u.close()
	var got string
	if !within(func() {
		defer func() {
			if e := recover(); e != nil {
				got = fmt.Sprint("panic: ", e)
			}
		}()
		got = o.do(u.clients[0])
	}) {
		c.Violation("a call hangs when the connection breaks: "+o.name, kase, "")
		return
	}
	isErr := got == "error" || strings.HasSuffix(got, " error") || got == "short" || o.name == "abort?" && got == "false"
	if got != want && !isErr {
		c.Violation("a call whose connection breaks returns the wrong thing: "+o.name, kase, "got "+shorten(got)+" want "+shorten(want)+" or an error")
	}
	if got == want && !answer && n == 0 && !isErr {
		c.Violation("a call whose request is not sent returns no error: "+o.name, kase, shorten(got))
	}
	// the server did all of it or nothing - all of it, when the call said so
	check := func() string {
		e := u.check(m)
		p := u.probeWith(m)
		if e == "" && p == "" {
			return ""
		}
		if got == want && !isErr {
			return e + p
		}
		// (the server may still be at it, or not have got it at all)
		e2 := u.check(before)
		if e2 == "" {
			e2 = u.probeWith(before)
		}
		if e2 == "" {
			return ""
		}
		return e + p + " / " + e2
	}
	e := ""
	for i := 0; i < 200; i++ {
		u.probed = ""
		if e = check(); e == "" {
			break
		}
		time.Sleep(time.Duration(i) * 100 * time.Microsecond)
		if o.name == "counter" {
			break // (probing changes it)
		}
	}
	if e != "" {
		c.Violation("a call whose connection breaks is done in part: "+o.name, kase, e)
	}
	c.Add("executions", 1)
	c.Add("traces_validated_against_impl", 1)
}

// probeWith compares with a probe made once.
func (u *sut) probeWith(m *model) string {
	if u.probed == "" {
		u.probed = u.probe()
		if i := strings.Index(u.probed, "ok"); u.counter == "" && i > 0 {
			u.counter = u.probed[:i]
		} else if i > 0 {
			u.probed = u.counter + u.probed[i:]
		}
	}
	if got, want := u.probed, m.probe(); got != want {
		return "state " + got + ", not " + want
	}
	return ""
}

// held cuts the connection while the server is in the middle of the call.
func held(c *lib.Ctx, proto string, k int, hard bool) {
	o := ops[k]
	kase := fmt.Sprintf("%s: %s, the server goes (%v) in the middle of it", proto, o.name, hard)
	if !c.Only(kase) {
		return
	}
	c.Case(kase)
	u := start(proto, 2, 1)
	m := newModel(2)
	ready(u, m, o)
	u.rec.hold, u.rec.held = make(chan struct{}), make(chan struct{})
	res := make(chan string, 1)
	go func() { res <- o.do(u.clients[0]) }()
	select {
	case <-u.rec.held:
	case <-time.After(patience):
		hung()
		c.Violation("a call does not reach the server: "+o.name, kase, "")
		return
	}
	u.relay.cut(hard)
	select {
	case got := <-res:
		if got != "error" && got != "short" {
			c.Violation("a call returns no error when the server goes: "+o.name, kase, shorten(got))
		}
	case <-time.After(patience):
		hung()
		c.Violation("a call hangs when the server goes: "+o.name, kase, "")
	}
	h := u.rec.hold
	u.rec.hold = nil
	close(h)
	c.Add("executions", 1)
	u.close()
}

/* ---------- values ---------- */

func values(c *lib.Ctx, proto string) {
	one := func(kase string, total int, f func(u *sut) (got, want string)) {
		if !c.Mine() || c.Stop() || !c.Only(kase) {
			return
		}
		c.Case(kase)
		u := start(proto, total, 1)
		var got, want string
		if !within(func() { got, want = f(u) }) {
			c.Violation("a call does not return", kase, "")
			return
		}
		if got != want {
			i := strings.LastIndex(kase, "=")
			c.Violation("a value does not arrive intact: "+strings.TrimPrefix(kase[:max(i, 0)], proto+" "), kase, around(got, want))
		}
		c.Add("values", 1)
		c.Add("traces_validated_against_impl", 1)
		c.Distinct("states", want)
		u.close()
	}
	last := func(u *sut) string {
		u.rec.mu.Lock()
		defer u.rec.mu.Unlock()
		return strings.Join(u.rec.events, "\n")
	}
	each := func(v any, call string, total int, f func(u *sut, v any) (string, string)) {
		t := reflect.TypeOf(v)
		x := full(t, 0)
		one(proto+" "+call+" "+t.Name()+" zero=", total, func(u *sut) (string, string) { return f(u, reflect.Zero(t).Interface()) })
		one(proto+" "+call+" "+t.Name()+" full=", total, func(u *sut) (string, string) { return f(u, x.Interface()) })
		vary(x, t.Name(), func(path string) {
			one(proto+" "+call+" "+path, total, func(u *sut) (string, string) { return f(u, x.Interface()) })
		})
	}
	each(types.Report{}, "PostSuiteWillBegin", 1, func(u *sut, v any) (string, string) {
		e := errs(u.clients[0].PostSuiteWillBegin(v.(types.Report)))
		return e + last(u), "okbegin " + dump(v)
	})
	each(types.Report{}, "PostSuiteDidEnd", 1, func(u *sut, v any) (string, string) {
		e := errs(u.clients[0].PostSuiteDidEnd(v.(types.Report)))
		return e + last(u), "okend " + dump(v)
	})
	each(types.Report{}, "AggregatedReport", 2, func(u *sut, v any) (string, string) {
		e := errs(u.clients[0].PostSuiteDidEnd(v.(types.Report)))
		u.dead[1].Store(true)
		r, err := u.clients[0].BlockUntilAggregatedNonprimaryProcsReport()
		return e + dump(r) + errs(err), "ok" + dump(v) + "ok"
	})
	each(types.SpecReport{}, "PostDidRun", 1, func(u *sut, v any) (string, string) {
		e := errs(u.clients[0].PostSuiteWillBegin(types.Report{}))
		e += errs(u.clients[0].PostDidRun(v.(types.SpecReport)))
		return e + last(u), "okokbegin " + dump(types.Report{}) + "\nwill " + dump(v) + "\ndid " + dump(v)
	})
	each(types.ProgressReport{}, "PostEmitProgressReport", 1, func(u *sut, v any) (string, string) {
		e := errs(u.clients[0].PostEmitProgressReport(v.(types.ProgressReport)))
		return e + last(u), "okprogress " + dump(v)
	})
	for _, s := range alphabets[reflect.TypeOf(types.SpecState(0))] {
		st := s.(types.SpecState)
		if st == types.SpecStateInvalid {
			continue
		}
		one(fmt.Sprintf("%s PostReportBeforeSuiteCompleted=%d", proto, st), 1, func(u *sut) (string, string) {
			e := errs(u.clients[0].PostReportBeforeSuiteCompleted(st))
			g, err := u.clients[0].BlockUntilReportBeforeSuiteCompleted()
			return fmt.Sprint(e, uint(g), errs(err)), fmt.Sprint("ok", uint(st), "ok")
		})
	}
	var blobs [][]byte
	blobs = append(blobs, nil, []byte{}, bytes.Repeat([]byte("0123456789"), 400000))
	for b := 0; b < 256; b++ {
		blobs = append(blobs, []byte{byte(b)}, []byte{'a', byte(b), 'z'})
	}
	for _, n := range []int{100, 4095, 4096, 4097, 32 << 10, 64<<10 + 1} {
		blobs = append(blobs, bytes.Repeat([]byte{'x', 0, 0xff}, n/3+1)[:n])
	}
	for i, b := range blobs {
		one(fmt.Sprintf("%s data=%d", proto, i), 1, func(u *sut) (string, string) {
			e := errs(u.clients[0].PostSynchronizedBeforeSuiteCompleted(types.SpecStatePassed, b))
			s, d, err := u.clients[0].BlockUntilSynchronizedBeforeSuiteData()
			return fmt.Sprintf("%s %d %q %s", e, s, d, errs(err)), fmt.Sprintf("ok %d %q ok", types.SpecStatePassed, b)
		})
		one(fmt.Sprintf("%s output=%d", proto, i), 1, func(u *sut) (string, string) {
			n, err := u.clients[0].Write(b)
			return fmt.Sprintf("%d %s %q", n, errs(err), u.rec.out.String()), fmt.Sprintf("%d ok %q", len(b), b)
		})
		// a destination that takes only part of it
		if len(b) > 0 {
			one(fmt.Sprintf("%s short output=%d", proto, i), 1, func(u *sut) (string, string) {
				u.rec.fail = (len(b) + 1) / 2
				n, err := u.clients[0].Write(b)
				res := errs(err)
				if n < 0 || n >= len(b) {
					res += " and a full count"
				}
				return fmt.Sprintf("%s %q", res, u.rec.out.String()), fmt.Sprintf("error %q", b[:u.rec.fail-1])
			})
		}
	}
}

func c35(c *lib.Ctx) {
	parallel_support.POLLING_INTERVAL = 100 * time.Microsecond
	depth := c.Pick(3, 4)
	c.Bound("calls in a sequence", fmt.Sprintf("%d, and %d where the state of the server is a new one", depth, c.Pick(5, 7)))
	c.Bound("processes", "1-3")
	c.Bound("payloads", "every field of every report in turn set to each value of an alphabet of difficult ones; all bytes; up to 4 MB")
	c.Bound("faults", "connection cut before, after every byte of request and answer of, and in the middle of every call; destination of output failing")
	for _, proto := range []string{"", "HTTP"} {
		pn := proto
		if pn == "" {
			pn = "RPC"
		}
		for k := range ops {
			for _, hard := range []bool{false, true} {
				if c.Mine() && !c.Stop() {
					gone(c, pn, k, hard)
				}
				switch ops[k].name {
				case "begin", "did", "end", "endF", "progress", "write":
					if c.Mine() && !c.Stop() {
						held(c, pn, k, hard)
					}
				}
			}
			for _, answer := range []bool{false, true} {
				l := length(pn, k, answer)
				c.Max("bytes of a call", l)
				for n := int64(0); n < l+2; n++ {
					if c.Mine() && !c.Stop() {
						torn(c, pn, k, answer, n)
					}
				}
			}
		}
		values(c, pn)
	}
	// sequences: all up to the depth; beyond it those that lead to new states
	for total := 1; total <= 3; total++ {
		type node struct {
			seq []int
			m   *model
		}
		level := []node{{nil, newModel(total)}}
		seen := map[string]bool{}
		for d := 1; d <= c.Pick(5, 7); d++ {
			var next []node
			for _, n := range level {
				for k := 0; k < len(ops)+extra; k++ {
					if !n.m.allowed(k) {
						continue
					}
					m := n.m.clone()
					blocked := false
					if k < len(ops) {
						blocked = ops[k].model(m) == ""
					} else {
						m.event(k)
					}
					seq := append(append([]int{}, n.seq...), k)
					if c.Stop() {
						return
					}
					for _, proto := range []string{"RPC", "HTTP"} {
						if c.Mine() {
							sequence(c, proto, total, seq)
						}
					}
					st := m.state()
					if d < depth || !seen[st] && !blocked {
						if d >= depth {
							seen[st] = true
						}
						next = append(next, node{seq, m})
					}
				}
			}
			level = next
			c.Max("states at depth "+strconv.Itoa(d), int64(len(level)))
		}
	}
}

// length measures the request or the answer of a call.
func length(proto string, k int, answer bool) int64 {
	u := start(proto, 2, 1)
	m := newModel(2)
	ready(u, m, ops[k])
	up, down := u.relay.up.Load(), u.relay.down.Load()
	within(func() { ops[k].do(u.clients[0]) })
	time.Sleep(2 * time.Millisecond)
	defer u.close()
	if answer {
		return u.relay.down.Load() - down
	}
	return u.relay.up.Load() - up
}
