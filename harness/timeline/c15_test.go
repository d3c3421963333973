package timeline

import (
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func treeRetry(flake, mpr int) func() *fix.N {
	return func() *fix.N {
		it := fix.L(fix.KIt, "a")
		it.Flake, it.MPR = flake, mpr
		return ctx(fix.C("", fix.C("t", ord(fix.C("o", fix.L(fix.KBA, "ba"), fix.L(fix.KBE, "be"), it, fix.L(fix.KIt, "b"), fix.L(fix.KAE, "ae"), fix.L(fix.KAA, "aa"))))))
	}
}

// mixed: contexts only where a timeout needs one
func treeMixed() *fix.N {
	t := treeFlat()
	ctx(t)
	for _, n := range fix.Prepare(t).All {
		switch n.K {
		case fix.KBE, fix.KAE, fix.KAS, fix.KRAE:
			n.Ctx = false
		}
	}
	return t
}

func init() {
	checks["C15"] = func(c *lib.Ctx) { timeouts(c, "C15") }
	checks["C04"] = func(c *lib.Ctx) { timeouts(c, "C04") }
	checks["C05"] = func(c *lib.Ctx) { timeouts(c, "C05") }

	checks["C37"] = func(c *lib.Ctx) {
		var fxs []*Fx
		for _, tr := range []struct {
			name string
			root func() *fix.N
		}{{"flat", func() *fix.N { return ctx(treeFlat()) }}, {"flat-", treeFlat}, {"nested", func() *fix.N { return ctx(treeNested()) }}, {"ordered", func() *fix.N { return ctx(treeOrdered()) }}, {"flake", treeRetry(2, 0)}} {
			x := &Fx{Name: tr.name, Root: tr.root, Reac: reactions[:2]}
			x.Act = func(key string) fix.Act {
				return fix.Act{T: &fix.Timed{Dur: 35 * ms, Late: 1 * ms, Attach: 2, ByAt: 12*ms + 37, Unplugs: 23*ms + 41}}
			}
			x.Bases = []fix.Act{{Kind: fix.Fail}, {T: &fix.Timed{Dur: 8 * ms, Attach: 1}}, {T: &fix.Timed{Dur: 77 * ms}}, {Kind: fix.Skip}, {Defers: 2, DC: &fix.N{K: fix.KDC, Ctx: true}}}
			fxs = append(fxs, x)
			x.Fill = func(x *Fx) {
				f := fix.Prepare(tr.root())
				r, _, _ := x.ref(Case{})
				afters := []time.Duration{0, 5*ms + 1, 16*ms + 1, 50*ms + 1}
				intervals := []time.Duration{0, 7*ms + 3, 100 * ms}
				for _, a := range afters {
					for _, iv := range intervals {
						set := []Setting{{-1, "after", a}, {-1, "interval", iv}}
						x.Start = append(x.Start, Case{Set: set, Lim: 1})
						for _, sp := range r.Clock().Spans {
							for b := range x.Bases {
								if x.Bases[b].Defers > 0 && !deferrable(sp.Key) {
									continue
								}
								x.Start = append(x.Start, Case{Set: set, Base: map[string]int{sp.Key: b}})
							}
							for at := sp.From + 9*ms + 5; at < sp.To; at += 11 * ms {
								x.Start = append(x.Start, Case{Set: set, Asks: []time.Duration{at}})
								x.Start = append(x.Start, Case{Set: set, Asks: []time.Duration{at, at + 4*ms}})
							}
						}
						for i, n := range f.All {
							if n.K == fix.KC {
								continue
							}
							for _, pa := range append([]time.Duration{-1}, afters...) {
								for _, pi := range append([]time.Duration{-1}, intervals...) {
									s := append([]Setting{}, set...)
									if pa >= 0 {
										s = append(s, Setting{i, "PA", pa})
									}
									if pi >= 0 {
										s = append(s, Setting{i, "PI", pi})
									}
									if pa >= 0 || pi >= 0 {
										x.Start = append(x.Start, Case{Set: s, Lim: c.Pick(0, 1)})
									}
								}
							}
							if n.Ctx {
								x.Start = append(x.Start, Case{Set: append(append([]Setting{}, set...), Setting{i, "NT", 19*ms + 500*time.Microsecond}), Lim: c.Pick(0, 1)})
							}
						}
					}
				}
			}
		}
		c.Bound("polling", "4 delays x 3 intervals, overridden by decorators on every node; requests at every 11 ms")
		each(c, fxs)
	}
}

// timeouts: for C15 all of them; for C05 those on specs that are retried; for C04 single ones, with bodies that do more than pass.
func timeouts(c *lib.Ctx, id string) {
	retried, few := id == "C05", id == "C04"
	reac := reactions
	if c.Thorough() {
		reac = moreReactions
	}
	var fxs []*Fx
	for _, tr := range []struct {
		name  string
		root  func() *fix.N
		suite bool
	}{{"flat", func() *fix.N { return ctx(treeFlat()) }, true}, {"mixed", treeMixed, true}, {"nested", func() *fix.N { return ctx(treeNested()) }, true},
		{"ordered", func() *fix.N { return ctx(treeOrdered()) }, true}, {"flake", treeRetry(3, 0), false}, {"mustpass", treeRetry(0, 2), false}} {
		if retried && tr.suite {
			continue
		}
		for _, grace := range []time.Duration{17 * ms, 0} {
			if (retried || few) && grace == 0 {
				continue
			}
			x := &Fx{Name: tr.name, Root: tr.root, Reac: reac}
			x.Deviations = c.Pick(2, 3)
			if grace == 0 { // nobody gets the time to react
				x.Deviations--
			}
			x.Cfg = func(cfg *types.SuiteConfig) { cfg.GracePeriod = grace }
			x.Bases = []fix.Act{{T: &fix.Timed{}}, {T: &fix.Timed{Dur: 26 * ms}}, {Kind: fix.Fail}, {Kind: fix.Skip},
				{Defers: 2, DC: &fix.N{K: fix.KDC, Ctx: true, NT: 4 * ms}}, {Defers: 1, DC: &fix.N{K: fix.KDC, Ctx: true}}}
			fxs = append(fxs, x)
			x.Fill = func(x *Fx) {
				f := fix.Prepare(tr.root())
				var single []Setting
				for i, n := range f.All {
					if !n.Ctx {
						continue
					}
					single = append(single, Setting{i, "NT", 4 * ms}, Setting{i, "NT", 24 * ms})
					if n.K == fix.KIt {
						for v := 4 * ms; v < 60*ms; v += 10 * ms {
							single = append(single, Setting{i, "ST", v})
						}
					}
				}
				r, _, _ := x.ref(Case{})
				if tr.suite {
					for v := 4 * ms; v < r.Clock().Now+10*ms; v += 10 * ms {
						single = append(single, Setting{-1, "timeout", v})
					}
				}
				x.Start = append(x.Start, Case{Lim: 1})
				for i, s := range single {
					x.Start = append(x.Start, Case{Set: []Setting{s}, Lim: c.Pick(1, 2)})
					if s.Node >= 0 {
						for _, g := range []time.Duration{0, 6 * ms, 40 * ms} {
							x.Start = append(x.Start, Case{Set: []Setting{s, {s.Node, "GP", g}}, Lim: c.Pick(0, 1)})
						}
					}
					for _, sp := range r.Clock().Spans {
						for b := range x.Bases {
							if x.Bases[b].Defers > 0 && !deferrable(sp.Key) {
								continue
							}
							x.Start = append(x.Start, Case{Set: []Setting{s}, Base: map[string]int{sp.Key: b}, Lim: c.Pick(0, 1)})
						}
					}
					for _, s2 := range single[:i] {
						if s2.Node == s.Node && s2.Field == s.Field {
							continue
						}
						x.Start = append(x.Start, Case{Set: []Setting{s, s2}, Lim: c.Pick(0, 1), Less: c.Pick(1, 0)})
						if grace == 0 && !c.Thorough() {
							continue
						}
						for b := range x.Bases[:c.Pick(1, 2)] { // both timeouts hit bodies that take longer
							for _, sp := range r.Clock().Spans {
								x.Start = append(x.Start, Case{Set: []Setting{s, s2}, Base: map[string]int{sp.Key: b}, Less: 1})
							}
						}
					}
				}
			}
		}
	}
	if few {
		c.Bound("timeouts", "one node, spec or suite timeout, expiring in every interval between two events, while one body fails, skips, takes longer or registers cleanups")
		each(c, fxs)
		return
	}
	c.Bound("timeouts", "every pair of node, spec and suite timeouts, expiring in every interval between two events")
	each(c, fxs)
}
