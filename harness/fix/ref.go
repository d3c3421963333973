package fix

import (
	"fmt"
	"sort"

	"github.com/onsi/ginkgo/v2/types"
)

// Ref is the reference semantics: what the documentation says a suite does for
// a given tree, configuration and behaviour of every node body.
type Ref struct {
	Events  []string
	Did     []SpecRes
	Success bool
	Reasons []string
	Aborted bool

	fix         *Fix
	cfg         types.SuiteConfig
	dec         map[string]Act
	seq         map[string]int
	reg         map[*rspec][]*cleanup
	skipAll     bool
	interrupted bool

	cleanups        []*cleanup
	suiteClean      []*cleanup
	selected        map[*N]bool
	curDC           *N
	wasInt, wasLate bool
	cleanupType     types.NodeType
	cur             *rspec
	tm              *Clock
}

type cleanup struct {
	name  string
	gen   *N // node that registered it
	level int
	kind  string // "each", "all", "suite"
	dc    *N     // attributes
}

type rspec struct {
	it       *N
	path     []*N
	skip     bool
	pending  bool
	state    types.SpecState
	msg      string
	failNode types.NodeType
	failCtx  types.FailureNodeContext
	failCI   int
	add      []string
	attempts int
	maxFlake int
	maxMPR   int
}

var ntype = map[Kind]types.NodeType{KIt: types.NodeTypeIt, KBE: types.NodeTypeBeforeEach, KJBE: types.NodeTypeJustBeforeEach, KAE: types.NodeTypeAfterEach, KJAE: types.NodeTypeJustAfterEach,
	KBA: types.NodeTypeBeforeAll, KAA: types.NodeTypeAfterAll, KRBE: types.NodeTypeReportBeforeEach, KRAE: types.NodeTypeReportAfterEach, KBS: types.NodeTypeBeforeSuite, KAS: types.NodeTypeAfterSuite,
	KSBS: types.NodeTypeSynchronizedBeforeSuite, KSAS: types.NodeTypeSynchronizedAfterSuite, KRBS: types.NodeTypeReportBeforeSuite, KRAS: types.NodeTypeReportAfterSuite}

var failing = types.SpecStateFailureStates

// result of one body
type rres struct {
	state types.SpecState
	msg   string
}

func (r *Ref) invoke(name, note string, attrs *N, kind Kind) rres {
	k := fmt.Sprintf("%s#%d", name, r.seq[name])
	r.seq[name]++
	ev := k
	if note != "" {
		ev += "(" + note + ")"
	}
	if r.tm != nil {
		r.Events = append(r.Events, ev+r.tm.stamp())
		return r.passTime(k, attrs, kind)
	}
	r.Events = append(r.Events, ev)
	return r.outcome(k, r.dec[k].Kind)
}

func (r *Ref) outcome(k string, a ActKind) rres {
	switch a {
	case Fail, FailTwice, FailThenRet, FailGoroutine:
		return rres{types.SpecStateFailed, "F:" + k}
	case Panic:
		return rres{types.SpecStatePanicked, "Test Panicked <P:" + k + ">"}
	case PanicNil:
		return rres{types.SpecStatePanicked, "Test Panicked <<nil>>"}
	case Skip, SkipThenFail:
		return rres{types.SpecStateSkipped, "S:" + k}
	case Abort:
		return rres{types.SpecStateAborted, "A:" + k}
	case IntHang:
		r.interrupted = true
		return rres{types.SpecStateInterrupted, "Interrupted by User"}
	}
	return rres{types.SpecStatePassed, ""}
}

// runNode runs a node body if the suite's interrupt state still allows it.
// An interrupted suite still runs teardown and reporting nodes, but no setup nodes or subjects.
func (r *Ref) runNode(name, note string, kind Kind, gen *N, level int, ckind string) rres {
	if l := r.level(); l > 0 {
		need := 0 // at which interrupt the node is no longer run
		switch kind {
		case KRBE, KRAE, KRBS, KRAS:
			need = 3
		case KAE, KJAE, KAA, KAS, KSAS, KDC:
			need = 2
		}
		if l > need-1 {
			return rres{types.SpecStateSkipped, ""}
		}
	}
	if kind == KDC {
		gen = r.curDC
	}
	k := fmt.Sprintf("%s#%d", name, r.seq[name])
	if r.tm != nil {
		r.dec[k] = r.tm.decide(k)
	}
	for i := 0; i < r.dec[k].Defers; i++ {
		c := &cleanup{name: fmt.Sprintf("%s/d%d", k, i), gen: gen, level: level, kind: ckind, dc: r.dec[k].DC}
		r.cleanups = append(r.cleanups, c)
	}
	return r.invoke(name, note, gen, kind)
}

// Expect computes the reference behaviour. order is the sequence of specs as the
// implementation ordered them (ordering has its own property); it is nil when the
// suite has at most one top-level container or spec.
func Expect(f *Fix, cfg types.SuiteConfig, dec map[string]Act, order []*N) *Ref {
	return expect(f, cfg, dec, order, nil, nil)
}

func expect(f *Fix, cfg types.SuiteConfig, dec map[string]Act, order []*N, sel map[*N]bool, tm *Clock) *Ref {
	r := &Ref{fix: f, cfg: cfg, dec: dec, seq: map[string]int{}, selected: sel, tm: tm}
	if order == nil {
		order = f.Specs
	}
	r.Success = true
	specs := map[*N]*rspec{}
	anyFocus := false
	for _, it := range f.Specs {
		s := &rspec{it: it, path: it.Path()}
		s.pending = it.Pending
		focus := it.Focus
		for _, c := range s.path {
			s.pending = s.pending || c.Pending
			focus = focus || c.Focus
		}
		anyFocus = anyFocus || (focus && !s.pending)
		specs[it] = s
	}
	runnable := 0
	for _, s := range specs {
		s.skip = s.pending
		if anyFocus && !r.focused(s) {
			s.skip = true
		}
		if r.cfgSkip(s) {
			s.skip = true
		}
		if !s.skip {
			runnable++
		}
	}

	r.suiteReport(KRBS)
	ranBefore := r.Success
	if r.Success {
		r.beforeSuite(runnable)
	}
	if r.Success {
		// groups: a spec in an ordered container runs with all specs of the outermost such container
		done := map[*N]bool{}
		for _, it := range order {
			if done[it] {
				continue
			}
			oc := outermostOrdered(it)
			var g []*rspec
			if oc == nil {
				g = []*rspec{specs[it]}
			} else {
				for _, o := range f.Specs {
					if outermostOrdered(o) == oc {
						g = append(g, specs[o])
					}
				}
			}
			for _, s := range g {
				done[s.it] = true
			}
			r.runGroup(g, oc)
		}
		anyPending := false
		for _, s := range specs {
			anyPending = anyPending || s.pending
		}
		if cfg.FailOnPending && anyPending {
			r.Success = false
			r.Reasons = append(r.Reasons, "pending")
		}
		if cfg.FailOnEmpty && runnable == 0 {
			r.Success = false
			r.Reasons = append(r.Reasons, "empty")
		}
	}
	if ranBefore {
		r.afterSuite(runnable)
	}
	if r.level() > 0 {
		r.Success, r.wasInt = false, true
	}
	if r.tm.late() {
		r.Success, r.wasLate = false, true
	}
	r.suiteReport(KRAS)
	return r
}

func (r *Ref) focused(s *rspec) bool {
	// nested focus: a focused node with a focused (and not pending) descendant is not itself focused
	var hasFocusedDesc func(n *N) bool
	hasFocusedDesc = func(n *N) bool {
		for _, k := range n.Kids {
			if k.K != KIt && k.K != KC {
				continue
			}
			if k.Pending {
				continue
			}
			if k.Focus || hasFocusedDesc(k) {
				return true
			}
		}
		return false
	}
	for _, n := range append(append([]*N{}, s.path...), s.it) {
		if n.Focus && !hasFocusedDesc(n) {
			return true
		}
	}
	return false
}

func (r *Ref) cfgSkip(s *rspec) bool { return r.selected != nil && !r.selected[s.it] }

func outermostOrdered(it *N) *N {
	for _, c := range it.Path() {
		if c.Ordered {
			return c
		}
	}
	return nil
}

func (r *Ref) suiteReport(kind Kind) {
	for _, n := range r.fix.Root.Kids {
		if n.K != kind {
			continue
		}
		note := ""
		var parts []string
		for _, d := range r.Did {
			l := d.Leaf
			if l == "" {
				l = "[" + d.LeafType.String() + "]"
			}
			parts = append(parts, l+"="+d.State.String())
		}
		note = fmt.Sprintf("ok=%v %s", r.Success, joinComma(parts))
		leaf := ""
		if kind == KRAS {
			leaf = n.Name
		}
		r.will(leaf, ntype[kind], types.SpecStateInvalid)
		res := r.runNode(n.Name, note, kind, n, 0, "")
		d := SpecRes{Leaf: leaf, LeafType: ntype[kind], State: res.state, Msg: res.msg}
		r.leafFail(&d, kind)
		r.process(d)
	}
}

func (r *Ref) leafFail(d *SpecRes, k Kind) {
	if d.Msg != "" {
		d.FailNode = ntype[k]
		d.FailCtx = types.FailureNodeIsLeafNode
	}
}

func joinComma(p []string) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += ","
		}
		s += x
	}
	return s
}

func (r *Ref) will(leaf string, lt types.NodeType, st types.SpecState) {
	if leaf == "" {
		leaf = "[" + lt.String() + "]"
	}
	r.Events = append(r.Events, "will:"+leaf+"="+st.String()+r.tm.stamp())
	r.where(leaf)
}

func (r *Ref) process(d SpecRes) {
	leaf := d.Leaf
	if leaf == "" {
		leaf = "[" + d.LeafType.String() + "]"
	}
	r.Events = append(r.Events, "did:"+leaf+"="+d.State.String()+r.tm.stamp())
	r.Did = append(r.Did, d)
	if d.State.Is(failing) {
		r.Success = false
		if r.cfg.FailFast || d.State.Is(types.SpecStateAborted) {
			r.skipAll = true
		}
	}
}

func (r *Ref) suiteNode(n *N, names []string, notes []string) SpecRes {
	d := SpecRes{LeafType: ntype[n.K]}
	r.will("", d.LeafType, types.SpecStateInvalid)
	if r.cfg.DryRun {
		d.State = types.SpecStatePassed
		return d
	}
	for i, nm := range names {
		if n.K == KSBS && i > 0 && d.State != types.SpecStatePassed {
			break // allProcs only if proc1's part passed
		}
		res := r.runNode(nm, notes[i], n.K, n, 0, "suite")
		if i == 0 || d.State == types.SpecStatePassed || (d.State == types.SpecStateSkipped && res.state.Is(failing)) {
			d.State, d.Msg = res.state, res.msg
		}
	}
	r.leafFail(&d, n.K)
	return d
}

func (r *Ref) beforeSuite(runnable int) {
	if runnable == 0 {
		return
	}
	for _, n := range r.fix.Root.Kids {
		var d SpecRes
		switch n.K {
		case KBS:
			d = r.suiteNode(n, []string{n.Name}, []string{""})
		case KSBS:
			d = r.suiteNode(n, []string{n.Name + ".1", n.Name + ".all"}, []string{"", "data"})
		default:
			continue
		}
		if d.State == types.SpecStateSkipped {
			r.skipAll = true
		}
		r.process(d)
	}
}

func (r *Ref) afterSuite(runnable int) {
	if runnable > 0 {
		for _, n := range r.fix.Root.Kids {
			switch n.K {
			case KAS:
				r.process(r.suiteNode(n, []string{n.Name}, []string{""}))
			case KSAS:
				r.process(r.suiteNode(n, []string{n.Name + ".all", n.Name + ".1"}, []string{"", ""}))
			}
		}
	}
	var cs []*cleanup
	for _, c := range r.cleanups {
		if c.kind == "suite" {
			cs = append(cs, c)
		}
	}
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		d := SpecRes{LeafType: types.NodeTypeCleanupAfterSuite}
		r.will("", d.LeafType, types.SpecStateInvalid)
		r.curDC, r.cleanupType = c.dc, types.NodeTypeCleanupAfterSuite
		res := r.runNode(c.name, "", KDC, nil, 0, "")
		d.State, d.Msg = res.state, res.msg
		if d.Msg != "" {
			d.FailNode = types.NodeTypeCleanupAfterSuite
			d.FailCtx = types.FailureNodeIsLeafNode
		}
		r.process(d)
	}
}

/* ---------- one execution group ---------- */

type onceKey struct {
	n     *N
	scope *N
}

type groupRun struct {
	specs       []*rspec
	cof         bool
	passed      map[onceKey]bool
	skipped     map[onceKey]Kind
	open        map[onceKey]bool // run-once teardown left to a later spec
	failed      bool             // a spec failed
	setupFailed bool             // ...in a run-once setup node
}

// nodesOf lists the setup/teardown nodes around a spec: every non-container
// sibling at every level of its path, outermost level first, in definition order.
func (r *Ref) nodesOf(s *rspec, kinds ...Kind) []*N {
	var out []*N
	chain := append([]*N{r.fix.Root}, s.path...)
	for _, c := range chain {
		for _, k := range c.Kids {
			for _, kk := range kinds {
				if k.K == kk {
					out = append(out, k)
				}
			}
		}
	}
	return out
}

// scopeOf returns the container for which n runs only once (nil: n runs for each spec).
func scopeOf(n *N, s *rspec) *N {
	switch n.K {
	case KBA, KAA:
		return n.Parent
	case KBE, KJBE, KAE, KJAE:
		if !n.OPO {
			return nil
		}
		in := false
		for _, c := range s.path {
			in = in || c.Ordered
			if in && c.Level >= n.Level {
				return c
			}
		}
	}
	return nil
}

func (g *groupRun) lastIn(scope *N, s *rspec) bool {
	var last *rspec
	for _, o := range g.specs {
		if o.skip {
			continue
		}
		for _, c := range o.path {
			if c == scope {
				last = o
			}
		}
	}
	return last == s
}

func (r *Ref) runGroup(specs []*rspec, oc *N) {
	g := &groupRun{specs: specs, passed: map[onceKey]bool{}, skipped: map[onceKey]Kind{}, open: map[onceKey]bool{}}
	if oc != nil {
		g.cof = oc.COF
	}
	for _, s := range specs {
		r.runSpec(g, s)
	}
}

func (r *Ref) initialState(g *groupRun, s *rspec) (types.SpecState, string) {
	switch {
	case s.pending:
		return types.SpecStatePending, ""
	case s.skip:
		return types.SpecStateSkipped, ""
	case r.level() > 0 || r.skipAll || r.tm.late():
		return types.SpecStateSkipped, ""
	case g.failed && !g.cof:
		return types.SpecStateSkipped, "Spec skipped because an earlier spec in an ordered container failed"
	case g.setupFailed && g.cof:
		return types.SpecStateSkipped, "Spec skipped because a BeforeAll node failed"
	}
	for _, n := range r.nodesInSpecOrder(s) {
		if sc := scopeOf(n, s); sc != nil && (n.K == KBA || n.K == KBE || n.K == KJBE) {
			if k, ok := g.skipped[onceKey{n, sc}]; ok {
				return types.SpecStateSkipped, fmt.Sprintf("Spec skipped because Skip() was called in %s", ntype[k])
			}
		}
	}
	if r.cfg.DryRun {
		return types.SpecStatePassed, ""
	}
	return types.SpecStateInvalid, ""
}

func (r *Ref) nodesInSpecOrder(s *rspec) []*N {
	return r.nodesOf(s, KBA, KBE, KJBE)
}

// deepestOf: the most deeply nested decorator wins
func deepestOf(s *rspec, f func(*N) int) (deepest int) {
	for _, n := range append(append([]*N{}, s.path...), s.it) {
		if v := f(n); v > 0 {
			deepest = v
		}
	}
	return
}

func (r *Ref) runSpec(g *groupRun, s *rspec) {
	r.cur = s
	defer func() { r.cur = nil }()
	var flake, mpr int
	s.maxFlake = deepestOf(s, func(n *N) int { return n.Flake })
	flake = s.maxFlake
	s.maxMPR = deepestOf(s, func(n *N) int { return n.MPR })
	mpr = s.maxMPR
	s.state, s.msg = r.initialState(g, s)
	if s.msg != "" {
		s.failNode, s.failCtx = types.NodeTypeIt, types.FailureNodeIsLeafNode
	}
	r.will(s.it.Name, types.NodeTypeIt, s.state)
	r.reportEach(s, KRBE)
	skip := r.cfg.DryRun || s.state.Is(failing|types.SpecStateSkipped|types.SpecStatePending)
	setupFailed := false
	if !skip {
		max := 1
		mustPass, flaky := false, false
		switch {
		case r.cfg.MustPassRepeatedly > 0:
			max, mustPass = r.cfg.MustPassRepeatedly, true
			s.maxMPR = max
		case s.maxMPR > 0:
			max, mustPass = mpr, true
		case r.cfg.FlakeAttempts > 0:
			max, flaky = r.cfg.FlakeAttempts, true
			s.maxFlake = max
		case s.maxFlake > 0:
			max, flaky = flake, true
		}
		for a := 1; a <= max; a++ {
			s.attempts = a
			setupFailed = r.attempt(g, s, a == max || !mustPass, a == max || mustPass)
			if mustPass && s.state.Is(failing|types.SpecStateSkipped) {
				break
			}
			if flaky {
				if s.state.Is(types.SpecStatePassed | types.SpecStateSkipped | types.SpecStateAborted | types.SpecStateInterrupted) {
					break
				}
				if a < max {
					s.add = append(s.add, fmt.Sprintf("%s:Failure recorded during attempt %d:\n%s", s.state, a, s.msg))
				}
			}
		}
	}
	if skip {
		r.leftovers(g, s)
	}
	r.reportEach(s, KRAE)
	d := SpecRes{Leaf: s.it.Name, LeafType: types.NodeTypeIt, State: s.state, Msg: s.msg, FailNode: s.failNode, FailCtx: s.failCtx, FailCI: s.failCI, Add: s.add,
		Attempts: s.attempts, MaxFlake: s.maxFlake, MaxMPR: s.maxMPR, Ordered: outermostOrdered(s.it) != nil}
	for _, c := range s.path {
		d.Containers = append(d.Containers, c.Name)
		d.Serial = d.Serial || c.Serial
	}
	d.Serial = d.Serial || s.it.Serial
	r.process(d)
	if s.state.Is(failing) {
		g.failed = true
		g.setupFailed = g.setupFailed || setupFailed
	}
}

func (r *Ref) reportEach(s *rspec, k Kind) {
	nodes := r.nodesOf(s, k)
	if k == KRAE {
		nodes = desc(nodes)
	}
	for _, n := range nodes {
		note := s.it.Name + "=" + s.state.String() + msgNote(s.msg)
		res := r.runNode(n.Name, note, k, n, n.Level, "")
		if (!s.state.Is(failing) && res.state.Is(failing)) || res.state == types.SpecStateAborted {
			r.setState(s, res, n.K, n.Level)
		}
	}
}

func (r *Ref) setState(s *rspec, res rres, k Kind, level int) {
	r.setStateT(s, res, ntype[k], k == KIt, level)
}

func (r *Ref) setStateT(s *rspec, res rres, nt types.NodeType, leaf bool, level int) {
	s.state, s.msg = res.state, res.msg
	s.failNode, s.failCtx, s.failCI = 0, 0, 0
	if s.msg != "" {
		s.failNode = nt
		switch {
		case leaf:
			s.failCtx = types.FailureNodeIsLeafNode
		case level <= 0:
			s.failCtx = types.FailureNodeAtTopLevel
		default:
			s.failCtx, s.failCI = types.FailureNodeInContainer, level-1
		}
	}
}

func desc(ns []*N) []*N {
	out := append([]*N{}, ns...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Level > out[j].Level })
	return out
}

func asc(ns []*N) []*N {
	out := append([]*N{}, ns...)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Level < out[j].Level })
	return out
}

type todo struct {
	n *N
	c *cleanup
}

// attempt runs one attempt of a spec and says whether it stopped in a run-once setup node.
// finalPass and finalFail say whether it is the last attempt if it passes or fails.
func (r *Ref) attempt(g *groupRun, s *rspec, finalPass, finalFail bool) bool {
	r.tm.beginAttempt(s.it.ST)
	defer r.tm.endAttempt()
	// setup, outermost first: at each level BeforeAll before BeforeEach; then JustBeforeEach; then the subject
	var seq []*N
	seq = append(seq, asc(append(r.nodesOf(s, KBA), r.nodesOf(s, KBE)...))...)
	seq = append(seq, asc(r.nodesOf(s, KJBE))...)
	seq = append(seq, s.it)
	var stop *N
	var stopScope *N
	for _, n := range seq {
		sc := scopeOf(n, s)
		if sc != nil && g.passed[onceKey{n, sc}] {
			continue
		}
		ck := "each"
		if n.K == KBA {
			ck = "all"
		}
		res := r.runNode(n.Name, "", n.K, n, n.Level, ck)
		r.setState(s, res, n.K, n.Level)
		if sc != nil {
			delete(g.skipped, onceKey{n, sc})
			switch res.state {
			case types.SpecStatePassed:
				g.passed[onceKey{n, sc}] = true
			case types.SpecStateSkipped:
				g.skipped[onceKey{n, sc}] = n.K
			}
		}
		if res.state != types.SpecStatePassed {
			stop, stopScope = n, sc
			break
		}
	}
	setupFailed := stopScope != nil

	// teardown of every level that was entered
	inScope := func(scope, gen *N, isCleanup bool, level int) bool {
		// may a run-once teardown run now?
		last := g.lastIn(scope, s)
		switch {
		case s.state == types.SpecStatePassed:
			return last && finalPass
		case s.state == types.SpecStateSkipped:
			return last || (stopScope != nil && stopScope == scope && stop.Level == level)
		case s.state.Is(types.SpecStateFailed | types.SpecStatePanicked | types.SpecStateTimedout):
			if finalFail {
				if g.cof {
					return last || setupFailed
				}
				return true
			}
			if stopScope != nil {
				if isCleanup {
					return stop == gen
				}
				return stopScope == scope && stop.Level == level
			}
			return false
		}
		return true // interrupted or aborted: nothing else will run
	}
	r.teardown(g, s, stop, func(n *N, c *cleanup) bool {
		gen, level := n, 0
		if n != nil {
			level = n.Level
		} else {
			gen, level = c.gen, c.level
		}
		sc := scopeOf(gen, s)
		if sc == nil {
			return true
		}
		if inScope(sc, gen, c != nil, level) {
			delete(g.open, onceKey{gen, sc})
			return true
		}
		g.open[onceKey{gen, sc}] = true
		return false
	})
	return setupFailed
}

// leftovers: a spec that is not run is still the last chance for the run-once
// teardown that earlier specs of its containers left to a later spec.
func (r *Ref) leftovers(g *groupRun, s *rspec) {
	r.tm.beginAttempt(s.it.ST)
	defer r.tm.endAttempt()
	r.teardown(g, s, nil, func(n *N, c *cleanup) bool {
		gen := n
		if c != nil {
			gen = c.gen
		}
		sc := scopeOf(gen, s)
		return sc != nil && g.open[onceKey{gen, sc}] && g.lastIn(sc, s)
	})
	for k := range g.open {
		if g.lastIn(k.scope, s) {
			delete(g.open, k)
		}
	}
}

func (r *Ref) teardown(g *groupRun, s *rspec, stop *N, may func(n *N, c *cleanup) bool) {
	ran := map[*N]bool{}
	ranC := map[*cleanup]bool{}
	first := true
	for {
		var list []todo
		after := append([]*N{}, desc(r.nodesOf(s, KJAE))...)
		after = append(after, desc(append(r.nodesOf(s, KAE), r.nodesOf(s, KAA)...))...)
		for _, n := range after {
			// levels that were not entered have nothing to tear down, unless an earlier spec entered them
			if ran[n] || (stop != nil && stop.K != KJBE && n.Level > stop.Level && !g.open[onceKey{n, scopeOf(n, s)}]) {
				continue
			}
			if may(n, nil) {
				list = append(list, todo{n: n})
			}
		}
		if !first {
			for _, kind := range []string{"each", "all"} {
				for i := len(r.cleanups) - 1; i >= 0; i-- {
					c := r.cleanups[i]
					if c.kind != kind || ranC[c] {
						continue
					}
					if ran[c.gen] || may(nil, c) {
						list = append(list, todo{c: c})
					}
				}
			}
			if len(list) == 0 {
				break
			}
		}
		for _, t := range list {
			var res rres
			var nt types.NodeType
			var level int
			if t.n != nil {
				ran[t.n] = true
				ck := "each"
				if t.n.K == KAA {
					ck = "all"
				}
				res = r.runNode(t.n.Name, "", t.n.K, t.n, t.n.Level, ck)
				nt, level = ntype[t.n.K], t.n.Level
			} else {
				ranC[t.c] = true
				r.dropCleanup(t.c)
				r.curDC = t.c.dc
				nt, level = types.NodeTypeCleanupAfterEach, t.c.level
				if t.c.kind == "all" {
					nt = types.NodeTypeCleanupAfterAll
				}
				r.cleanupType = nt
				res = r.runNode(t.c.name, "", KDC, nil, t.c.level, "")
			}
			switch {
			case s.state == types.SpecStatePassed || res.state == types.SpecStateAborted:
				r.setStateT(s, res, nt, false, level)
			case res.state.Is(failing) && s.state == types.SpecStateSkipped:
				// a failure is never hidden behind a skip
				r.setStateT(s, res, nt, false, level)
			case res.state.Is(failing):
				s.add = append(s.add, fmt.Sprintf("%s:%s", res.state, res.msg))
			}
		}
		first = false
	}
}

func (r *Ref) dropCleanup(c *cleanup) {
	for i := range r.cleanups {
		if r.cleanups[i] == c {
			r.cleanups = append(r.cleanups[:i:i], r.cleanups[i+1:]...)
			return
		}
	}
}
