package timeline

import (
	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

func ctx(n *fix.N) *fix.N {
	var walk func(n *fix.N)
	walk = func(n *fix.N) {
		if n.K != fix.KC {
			n.Ctx = true
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	n.Ctx = false
	return n
}

func ord(n *fix.N) *fix.N { n.Ordered = true; return n }
func cof(n *fix.N) *fix.N { n.COF = true; return n }

func treeFlat() *fix.N {
	return fix.C("",
		fix.L(fix.KBS, "bs"), fix.L(fix.KAS, "as"), fix.L(fix.KRAS, "ras"),
		fix.C("t", fix.L(fix.KBE, "be"), fix.L(fix.KAE, "ae"), fix.L(fix.KIt, "a"), fix.L(fix.KIt, "b"), fix.L(fix.KRAE, "rae")))
}

func treeNested() *fix.N {
	return fix.C("",
		fix.L(fix.KRBS, "rbs"), fix.L(fix.KSBS, "sbs"), fix.L(fix.KSAS, "sas"),
		fix.C("t", fix.L(fix.KBE, "be"), fix.L(fix.KJBE, "jbe"), fix.L(fix.KRBE, "rbe"),
			fix.C("u", fix.L(fix.KBE, "be2"), fix.L(fix.KJAE, "jae"), fix.L(fix.KIt, "a"), fix.L(fix.KAE, "ae2")),
			fix.L(fix.KAE, "ae")))
}

func treeOrdered() *fix.N {
	return fix.C("",
		fix.C("t", fix.L(fix.KBE, "be"), fix.L(fix.KAE, "ae"),
			ord(fix.C("o", fix.L(fix.KBA, "ba"), fix.L(fix.KAA, "aa"), fix.L(fix.KIt, "a"), fix.L(fix.KIt, "b"))),
			fix.L(fix.KIt, "c"), fix.L(fix.KRAE, "rae")))
}

var reactions = []fix.Timed{{React: fix.Pass, Late: 1 * ms}, {React: fix.Hang}, {React: fix.Fail, Late: 1 * ms}, {React: fix.Pass, Late: 11 * ms}}
var moreReactions = append(append([]fix.Timed{}, reactions...), fix.Timed{React: fix.Skip, Late: 1 * ms}, fix.Timed{React: fix.Panic, Late: 2 * ms}, fix.Timed{React: fix.Abort, Late: 1 * ms})

func init() {
	checks["C14"] = func(c *lib.Ctx) {
		reac := reactions
		if c.Thorough() {
			reac = moreReactions
		}
		var fxs []*Fx
		for _, tr := range []struct {
			name string
			root func() *fix.N
		}{{"flat", treeFlat}, {"nested", treeNested}, {"ordered", treeOrdered}} {
			for _, withCtx := range []bool{true, false} {
				root := tr.root
				name := tr.name
				if withCtx {
					root = func() *fix.N { return ctx(tr.root()) }
					name += "+ctx"
				}
				x := &Fx{Name: name, Root: root, Reac: reac}
				x.Bases = []fix.Act{{Kind: fix.Fail}, {Kind: fix.Skip}, {Kind: fix.Abort}, {T: &fix.Timed{}},
					{Defers: 2, DC: &fix.N{K: fix.KDC, Ctx: withCtx}}}
				fxs = append(fxs, x)
				x.Fill = func(x *Fx) {
					x.Start = append(x.Start, Case{Lim: 3})
					// one body does something else
					r, _, _ := x.ref(Case{})
					lim := c.Pick(2, 3)
					for _, sp := range r.Clock().Spans {
						for b := range x.Bases {
							if x.Bases[b].Defers > 0 && !deferrable(sp.Key) {
								continue
							}
							x.Start = append(x.Start, Case{Base: map[string]int{sp.Key: b}, Lim: lim})
						}
					}
				}
			}
		}
		c.Bound("interrupts", "up to 3, one instant in every interval between two events")
		each(c, fxs)
	}
}
