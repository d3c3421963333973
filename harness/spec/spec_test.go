package spec

import (
	"fmt"
	"os"
	"strings"
	"testing"

	. "github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func acts(kinds ...ActKind) []Act {
	out := []Act{{}}
	for _, k := range kinds {
		out = append(out, Act{Kind: k})
	}
	return out
}

func TestProperty(t *testing.T) {
	id := os.Getenv("VERIF_PROPERTY")
	c := lib.New(id)
	f, ok := map[string]func(*lib.Ctx){"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C23": c23, "C33": c33, "C34": c34}[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	f(c)
	c.Write()
}

// opt is a set of optional parts of a fixture; each enumerates over the bits of a mask.
type opt struct {
	m uint64
	i uint
}

func (o *opt) bit() bool { b := o.m>>o.i&1 == 1; o.i++; return b }
func (o *opt) add(ns []*N, n *N) []*N {
	if o.bit() {
		return append(ns, n)
	}
	return ns
}

// trees calls Check for every mask of the fixture (this shard's part of them).
func trees(c *lib.Ctx, fam *Family, bits int, mk func(o *opt) *N) {
	for m := uint64(0); m < 1<<bits; m++ {
		if !c.Mine() {
			continue
		}
		if c.Stop() {
			return
		}
		o := &opt{m: m}
		root := mk(o)
		if root == nil {
			continue
		}
		if int(o.i) != bits {
			panic(fmt.Sprintf("%s: fixture uses %d bits, not %d", fam.Name, o.i, bits))
		}
		Check(c, fam, root)
	}
}

func single(c *lib.Ctx, fam *Family, root *N) {
	if c.Mine() && !c.Stop() {
		Check(c, fam, root)
	}
}

func opo(n *N) *N { n.OPO = true; return n }

func nest(name string, ns ...*N) *N { return C(name, ns...) }

/* ---------- C01 ---------- */

func c01(c *lib.Ctx) {
	alpha := acts(Fail, Panic, Skip, FailThenRet, PanicNil)
	one := func(i Inv) []Act { return alpha }
	kinds := []Kind{KBE, KJBE, KAE, KJAE}
	// every way of placing the four kinds of setup and teardown nodes at three levels
	fam := &Family{Name: "placement", MaxDev: c.Pick(1, 2), Acts: one, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 12, func(o *opt) *N {
		lv := func(l int) (out []*N) {
			for _, kd := range kinds {
				out = o.add(out, L(kd, fmt.Sprintf("%s%d", kd, l)))
			}
			return
		}
		top, mid, in := lv(0), lv(1), lv(2)
		return C("", append(top, C("A", append(mid, C("B", append(in, L(KIt, "I1"))...))...))...)
	})
	// two nodes of a kind at one level, nodes defined after the spec, two specs and two containers in one suite
	fam = &Family{Name: "siblings", MaxDev: 2, Acts: one, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 8, func(o *opt) *N {
		var a, b, t []*N
		a = o.add(a, L(KBE, "BEa"))
		a = o.add(a, L(KAE, "AEa"))
		a = append(a, L(KIt, "I1"))
		a = o.add(a, L(KBE, "BEa2"))
		a = o.add(a, L(KAE, "AEa2"))
		b = o.add(b, L(KJBE, "JBEb"))
		b = append(b, L(KIt, "I2"))
		b = o.add(b, L(KJAE, "JAEb"))
		t = o.add(t, L(KAE, "AEt"))
		t = append(t, C("A", append(a, C("B", b...))...))
		if o.bit() {
			t = append(t, C("D", L(KIt, "I3")), L(KBE, "BEt"))
		}
		return C("", t...)
	})
	// deviations anywhere on the full fixture
	fam = &Family{Name: "full", MaxDev: c.Pick(3, 5), Acts: func(i Inv) []Act { return acts(Fail, Skip, Panic) }, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 4, func(o *opt) *N {
		t := []*N{L(KBE, "BE0"), L(KAE, "AE0")}
		a := []*N{L(KBE, "BE1"), L(KJBE, "JBE1"), L(KJAE, "JAE1"), L(KAE, "AE1")}
		t = o.add(t, L(KJAE, "JAE0"))
		t = o.add(t, L(KJBE, "JBE0"))
		a = o.add(a, L(KAE, "AE1b"))
		a = o.add(a, L(KBE, "BE1b"))
		return C("", append(t, C("A", append(a, L(KIt, "I1"))...))...)
	})
	// so many nodes at one level that a sort no longer goes by insertion
	fam = &Family{Name: "many", MaxDev: 1, Acts: func(i Inv) []Act { return acts(Fail) }, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 6, func(o *opt) *N {
		var t, a []*N
		out, in := o.bit(), o.bit()
		for _, k := range kinds {
			if !o.bit() {
				continue
			}
			for i := 0; i < 14; i++ {
				if !out || in && i%2 == 0 {
					a = append(a, L(k, fmt.Sprintf("%s%da", k, i)))
				} else {
					t = append(t, L(k, fmt.Sprintf("%s%dt", k, i)))
				}
			}
		}
		return C("", append(t, C("A", append(a, L(KIt, "I1"))...))...)
	})
	c.Bound("many", "64 trees with 14 nodes of each of a set of kinds at one level or spread over two, <=1 failing body")
	c.Bound("placement", "4 kinds of setup/teardown node x 3 levels, every subset (4096 trees), every assignment of outcomes with <=1 (thorough 2) non-passing bodies out of {fail, panic, skip, recovered fail, goexit}")
	c.Bound("siblings", "256 trees with several specs, containers and nodes per level, <=2 non-passing bodies")
	c.Bound("full", "16 dense trees, <=3 (thorough 5) non-passing bodies")
}

/* ---------- C02 ---------- */

func c02(c *lib.Ctx) {
	a3 := acts(Fail, Skip, Panic)
	one := func(i Inv) []Act { return a3 }
	fam := &Family{Name: "ordered", MaxDev: c.Pick(2, 3), Acts: one, Mon: []Monitor{FailureIsVisible, OncePerContainer}}
	trees(c, fam, 11, func(o *opt) *N {
		var t, oc []*N
		t = o.add(t, L(KBE, "BEt"))
		t = o.add(t, L(KAE, "AEt"))
		t = o.add(t, opo(L(KBE, "OBEt")))
		t = o.add(t, opo(L(KAE, "OAEt")))
		oc = o.add(oc, L(KBA, "BA1"))
		oc = o.add(oc, L(KAA, "AA1"))
		oc = o.add(oc, L(KBE, "BE1"))
		oc = o.add(oc, L(KBA, "BA2"))
		oc = o.add(oc, L(KAA, "AA2"))
		oc = append(oc, L(KIt, "I1"), L(KIt, "I2"))
		if o.bit() {
			oc = append(oc, L(KIt, "I3"))
		}
		O := C("O", oc...)
		O.Ordered = true
		O.COF = o.bit()
		return C("", append(t, O)...)
	})
	fam = &Family{Name: "nested", MaxDev: c.Pick(2, 3), Acts: one, Mon: []Monitor{FailureIsVisible, OncePerContainer}}
	trees(c, fam, 11, func(o *opt) *N {
		var t, a, oc, in []*N
		t = o.add(t, opo(L(KJBE, "OJBEt")))
		a = o.add(a, opo(L(KBE, "OBEa")))
		a = o.add(a, opo(L(KJAE, "OJAEa")))
		oc = o.add(oc, L(KBA, "BA1"))
		oc = o.add(oc, L(KAA, "AA1"))
		oc = o.add(oc, opo(L(KBE, "OBEo")))
		oc = o.add(oc, opo(L(KAE, "OAEo")))
		in = o.add(in, L(KBA, "BAi"))
		in = o.add(in, L(KAA, "AAi"))
		in = append(in, L(KIt, "I2"), L(KIt, "I3"))
		I := C("I", in...)
		oc = append(oc, L(KIt, "I1"), I)
		if o.bit() {
			oc = append(oc, L(KIt, "I4"))
		}
		O := C("O", oc...)
		O.Ordered = true
		O.COF = o.bit()
		a = append(a, O)
		return C("", append(t, C("A", a...))...)
	})
	// pending and focused specs inside ordered containers: first/last bookkeeping
	fam = &Family{Name: "gaps", MaxDev: c.Pick(1, 2), Acts: one, Mon: []Monitor{FailureIsVisible, OncePerContainer}}
	trees(c, fam, 9, func(o *opt) *N {
		its := []*N{L(KIt, "I1"), L(KIt, "I2"), L(KIt, "I3"), L(KIt, "I4")}
		for _, it := range its {
			it.Pending = o.bit()
		}
		foc := 0
		if o.bit() {
			foc = 1
		}
		if o.bit() {
			foc += 2
		}
		if foc > 0 {
			if its[foc].Pending {
				return nil // rejected when the tree is built
			}
			its[foc].Focus = true
		}
		in := C("I", L(KBA, "BAi"), L(KAA, "AAi"), its[1], its[2])
		O := C("O", L(KBA, "BA"), its[0], in, its[3], L(KAA, "AA"))
		O.Ordered = true
		O.COF = o.bit()
		in.Pending = o.bit()
		top := []*N{O}
		if o.bit() {
			top = []*N{opo(L(KBE, "OBEt")), opo(L(KAE, "OAEt")), O}
		}
		return C("", top...)
	})
	// ordered containers among other specs
	fam = &Family{Name: "mixed", MaxDev: 2, Acts: one, Mon: []Monitor{FailureIsVisible, OncePerContainer}}
	trees(c, fam, 5, func(o *opt) *N {
		O1 := C("O1", L(KBA, "BA1"), L(KIt, "I1"), L(KIt, "I2"), L(KAA, "AA1"))
		O2 := C("O2", L(KBA, "BA2"), L(KIt, "I3"), L(KIt, "I4"), L(KAA, "AA2"))
		O1.Ordered, O2.Ordered = true, true
		O1.COF = o.bit()
		O2.COF = o.bit()
		t := []*N{}
		t = o.add(t, opo(L(KBE, "OBE")))
		t = o.add(t, opo(L(KAE, "OAE")))
		t = append(t, O1, L(KIt, "I5"), O2)
		root := C("", t...)
		if o.bit() {
			root = C("", C("W", t...))
		}
		return root
	})
	// what reporting nodes do
	fam = &Family{Name: "reported", MaxDev: c.Pick(2, 3), Acts: func(i Inv) []Act {
		if i.K == KRBE || i.K == KRAE {
			return acts(Fail, Panic)
		}
		return a3
	}, Mon: []Monitor{FailureIsVisible, OncePerContainer}}
	trees(c, fam, 9, func(o *opt) *N {
		var t, oc []*N
		t = o.add(t, L(KRBE, "RBEt"))
		t = o.add(t, L(KRAE, "RAEt"))
		t = o.add(t, opo(L(KBE, "OBEt")))
		t = o.add(t, opo(L(KAE, "OAEt")))
		oc = o.add(oc, L(KBA, "BA"))
		oc = o.add(oc, L(KRBE, "RBEo"))
		oc = o.add(oc, L(KRAE, "RAEo"))
		oc = append(oc, L(KIt, "I1"), L(KIt, "I2"), L(KIt, "I3"), L(KAA, "AA"))
		O := C("O", oc...)
		O.Ordered = true
		O.COF = o.bit()
		oc[len(oc)-3].Pending = o.bit()
		return C("", append(t, O)...)
	})
	c.Bound("reported", "512 trees: an Ordered container of three specs with reporting nodes around and in it, <=2 (thorough 3) non-passing bodies, reporting nodes included")
	c.Bound("ordered", "2048 trees: Ordered container with 2-3 specs, BeforeAll/AfterAll/BeforeEach and OncePerOrdered nodes, ContinueOnFailure on/off; <=2 (thorough 3) non-passing bodies of {fail, skip, panic}")
	c.Bound("nested", "2048 trees: containers and OncePerOrdered nodes at three levels around and in an Ordered container")
	c.Bound("gaps", "512 trees: pending/focused subsets of 4 specs in an Ordered container")
	c.Bound("mixed", "32 trees: two Ordered containers and a plain spec")
}

/* ---------- C03 ---------- */

func c03(c *lib.Ctx) {
	dc := []Act{{}, {Defers: 1}, {Defers: 2}, {Kind: Fail, Defers: 1}, {Kind: Fail}, {Kind: Skip, Defers: 1}, {Kind: Panic, Defers: 1}}
	each := func(i Inv) []Act {
		if i.K == KDC { // a cleanup may not register cleanups
			return acts(Fail, Skip, Panic, Abort)
		}
		if i.K == KRBE || i.K == KRAE || i.K == KRBS || i.K == KRAS {
			return dc[:1]
		}
		return dc
	}
	mon := []Monitor{CleanupsRunOnce, FailureIsVisible}
	fam := &Family{Name: "cleanup", MaxDev: c.Pick(2, 3), Acts: each, Mon: mon}
	trees(c, fam, 8, func(o *opt) *N {
		var t, a []*N
		for l, dst := range []*[]*N{&t, &a} {
			for _, k := range []Kind{KBE, KJBE, KJAE, KAE} {
				*dst = o.add(*dst, L(k, fmt.Sprintf("%s%d", k, l)))
			}
		}
		a = append(a, L(KIt, "I1"))
		return C("", append(t, C("A", a...))...)
	})
	fam = &Family{Name: "cleanup-ordered", MaxDev: c.Pick(2, 3), Acts: each, Mon: mon}
	trees(c, fam, 8, func(o *opt) *N {
		var t, oc []*N
		t = o.add(t, L(KBE, "BEt"))
		t = o.add(t, opo(L(KBE, "OBEt")))
		t = o.add(t, opo(L(KAE, "OAEt")))
		oc = o.add(oc, L(KBA, "BA1"))
		oc = o.add(oc, L(KAA, "AA1"))
		oc = o.add(oc, L(KBE, "BE1"))
		in := []*N{}
		in = o.add(in, L(KBA, "BAi"))
		oc = append(oc, L(KIt, "I1"), C("I", append(in, L(KIt, "I2"))...), L(KIt, "I3"))
		O := C("O", oc...)
		O.Ordered = true
		O.COF = o.bit()
		return C("", append(t, O)...)
	})
	fam = &Family{Name: "cleanup-retry", MaxDev: c.Pick(2, 3), Acts: each, Mon: []Monitor{CleanupsRunOnce}}
	trees(c, fam, 5, func(o *opt) *N {
		it := L(KIt, "I1")
		it.Flake = 2
		A := C("A", L(KBE, "BE"), it)
		if o.bit() {
			A = C("A", L(KBA, "BA"), L(KIt, "I0"), it)
			A.Ordered = true
			A.Flake = 2
			it.Flake = 0
		}
		if o.bit() {
			it.Flake, A.Flake, it.MPR = 0, 0, 2
		}
		A.COF = o.bit() && A.Ordered
		t := []*N{}
		t = o.add(t, opo(L(KBE, "OBEt")))
		t = o.add(t, L(KAE, "AEt"))
		return C("", append(t, A)...)
	})
	fam = &Family{Name: "cleanup-suite", MaxDev: c.Pick(3, 4), Acts: each, Mon: mon}
	trees(c, fam, 4, func(o *opt) *N {
		var t []*N
		t = o.add(t, L(KBS, "BS"))
		t = o.add(t, L(KAS, "AS"))
		if o.bit() {
			for i, n := range t {
				if n.K == KBS {
					t[i] = L(KSBS, "SBS")
				} else {
					t[i] = L(KSAS, "SAS")
				}
			}
		}
		t = o.add(t, L(KBE, "BE"))
		return C("", append(t, C("A", L(KIt, "I1"), L(KIt, "I2")))...)
	})
	c.Bound("cleanup", "256 trees (4 kinds x 2 levels); every body registers 0-2 cleanups and passes, fails, skips or panics; cleanups fail, skip, panic and abort likewise; <=2 (thorough 3) deviations")
	c.Bound("cleanup-ordered/retry/suite", "256 + 32 + 16 trees with BeforeAll, OncePerOrdered, retries and suite nodes")
}

/* ---------- C04 ---------- */

func c04(c *lib.Ctx) {
	all := append(acts(Fail, Panic, Skip, Abort, FailTwice, FailThenRet, SkipThenFail, PanicNil, FailGoroutine), Act{Defers: 1})
	each := func(i Inv) []Act {
		if i.K == KDC {
			return all[:len(all)-1]
		}
		switch i.K {
		case KRBE, KRAE, KRBS, KRAS:
			// a Skip in a reporting node is not given a meaning by the documentation
			return acts(Fail, Panic, Abort, FailThenRet, PanicNil)
		}
		return all
	}
	for _, cf := range []struct {
		name string
		f    func(*types.SuiteConfig)
	}{{"plain", nil}, {"failfast", func(s *types.SuiteConfig) { s.FailFast = true }}, {"failonpending", func(s *types.SuiteConfig) { s.FailOnPending = true }}, {"failonempty", func(s *types.SuiteConfig) { s.FailOnEmpty = true }}} {
		fam := &Family{Name: "verdict-" + cf.name, Cfg: cf.f, MaxDev: c.Pick(2, 3), Acts: each, Mon: []Monitor{FailureIsVisible}}
		trees(c, fam, 5, func(o *opt) *N {
			t := []*N{L(KRBS, "RBS"), L(KBS, "BS"), L(KAS, "AS"), L(KRAS, "RAS")}
			if o.bit() {
				t = []*N{L(KSBS, "SBS"), L(KSAS, "SAS")}
			}
			t = append(t, L(KBE, "BE"), L(KAE, "AE"), L(KRBE, "RBE"), L(KRAE, "RAE"))
			A := C("A", L(KIt, "I1"), L(KJBE, "JBE"), L(KJAE, "JAE"), L(KIt, "I2"))
			if o.bit() {
				A = C("A", L(KBA, "BA"), L(KAA, "AA"), L(KIt, "I1"), L(KIt, "I2"))
				A.Ordered = true
				A.COF = o.bit()
			} else {
				A.Kids[0].Pending = o.bit()
			}
			if o.bit() {
				A.Kids[len(A.Kids)-1].Flake = 2
			}
			A.Pending = o.bit()
			return C("", append(t, A)...)
		})
	}
	c.Bound("verdict", "32 trees x 4 configurations (plain, fail-fast, fail-on-pending, fail-on-empty) with every kind of node; <=2 (thorough 3) bodies deviating out of 9 outcomes or registering a cleanup")
}

/* ---------- C05 ---------- */

func c05(c *lib.Ctx) {
	three := func(i Inv) []Act { return acts(Fail, Skip, Abort) }
	each := func(i Inv) []Act { return acts(Fail, Skip, Panic, Abort) }
	for _, cf := range []struct {
		name string
		f    func(*types.SuiteConfig)
	}{{"decorators", nil}, {"cli-flake", func(s *types.SuiteConfig) { s.FlakeAttempts = 3 }}, {"cli-mpr", func(s *types.SuiteConfig) { s.MustPassRepeatedly = 2 }}} {
		fam := &Family{Name: "retry-" + cf.name, Cfg: cf.f, MaxDev: c.Pick(3, 4), Acts: three}
		trees(c, fam, 8, func(o *opt) *N {
			it := L(KIt, "I1")
			v := func(x int) int {
				if o.bit() {
					return x
				}
				return 0
			}
			it.Flake, it.MPR = v(3), v(2)
			if it.Flake > 0 && it.MPR > 0 {
				return nil // rejected when the tree is built
			}
			A := C("A", L(KBE, "BE"), L(KAE, "AE"), it)
			B := C("B", A)
			A.Flake, B.Flake, B.MPR = v(2), v(4), v(3)
			if (A.Flake > 0 && it.MPR > 0) || (B.Flake > 0 && B.MPR > 0) || (B.Flake > 0 && it.MPR > 0) || (B.MPR > 0 && (A.Flake > 0 || it.Flake > 0)) {
				// FlakeAttempts and MustPassRepeatedly on one branch: covered by retry-both
				return nil
			}
			t := []*N{}
			t = o.add(t, L(KRAE, "RAE"))
			t = o.add(t, L(KJAE, "JAE"))
			if o.bit() {
				A.Kids = append(A.Kids, L(KIt, "I2"))
			}
			return C("", append(t, B)...)
		})
	}
	fam := &Family{Name: "retry-ordered", MaxDev: c.Pick(2, 3), Acts: each}
	trees(c, fam, 9, func(o *opt) *N {
		var t, oc []*N
		t = o.add(t, opo(L(KBE, "OBEt")))
		t = o.add(t, opo(L(KAE, "OAEt")))
		oc = o.add(oc, L(KBA, "BA"))
		oc = o.add(oc, L(KAA, "AA"))
		oc = o.add(oc, L(KAE, "AE"))
		a, b := L(KIt, "I1"), L(KIt, "I2")
		O := C("O", append(oc, a, b)...)
		O.Ordered = true
		O.COF = o.bit()
		mode := 0
		for i := 0; i < 3; i++ {
			if o.bit() {
				mode |= 1 << i
			}
		}
		switch mode {
		case 0:
			O.Flake = 2
		case 1:
			a.Flake = 2
		case 2:
			b.Flake = 2
		case 3:
			O.MPR = 2
		case 4:
			a.MPR = 2
		case 5:
			b.MPR = 2
		case 6:
			O.Flake, b.Flake = 3, 2
		case 7:
			a.Flake, b.MPR = 2, 2
		}
		return C("", append(t, O)...)
	})
	fam = &Family{Name: "retry-both", MaxDev: c.Pick(2, 3), Acts: each}
	trees(c, fam, 2, func(o *opt) *N {
		it := L(KIt, "I1")
		A := C("A", L(KBE, "BE"), it)
		if o.bit() {
			A.Flake, it.MPR = 3, 2
		} else {
			A.MPR, it.Flake = 3, 2
		}
		t := []*N{}
		t = o.add(t, L(KAE, "AE"))
		return C("", append(t, A)...)
	})
	c.Bound("retry", "decorators on spec and two containers x CLI settings; <=3 (thorough 4) non-passing bodies of {fail, skip, panic, abort} at any attempt; Ordered containers with once-only nodes: 512 trees, <=2 (thorough 3)")
}

/* ---------- C23 ---------- */

func c23(c *lib.Ctx) {
	each := func(i Inv) []Act {
		switch i.K {
		case KRBE, KRAE, KRBS, KRAS:
			return acts(Fail, Panic, Abort)
		}
		return acts(Fail, Skip, Panic, Abort)
	}
	fam := &Family{Name: "report-each", MaxDev: c.Pick(2, 3), Acts: each, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 8, func(o *opt) *N {
		var t, a []*N
		t = o.add(t, L(KRBE, "RBEt"))
		t = o.add(t, L(KRAE, "RAEt"))
		t = o.add(t, L(KRAE, "RAEt2"))
		a = o.add(a, L(KRBE, "RBEa"))
		a = o.add(a, L(KRAE, "RAEa"))
		a = append(a, L(KBE, "BE"), L(KAE, "AE"), L(KIt, "I1"))
		p := L(KIt, "I2")
		p.Pending = o.bit()
		a = append(a, p)
		A := C("A", a...)
		if o.bit() {
			A.Ordered = true
		}
		A.COF = o.bit() && A.Ordered
		return C("", append(t, A)...)
	})
	fam = &Family{Name: "report-suite", MaxDev: c.Pick(3, 4), Acts: each, Mon: []Monitor{FailureIsVisible}}
	trees(c, fam, 8, func(o *opt) *N {
		var t []*N
		t = o.add(t, L(KRBS, "RBS1"))
		t = o.add(t, L(KRBS, "RBS2"))
		t = o.add(t, L(KRAS, "RAS1"))
		t = o.add(t, L(KRAS, "RAS2"))
		t = o.add(t, L(KBS, "BS"))
		t = o.add(t, L(KAS, "AS"))
		it := L(KIt, "I1")
		it.Pending = o.bit()
		t = append(t, C("A", it))
		t = o.add(t, L(KRAE, "RAE"))
		return C("", t...)
	})
	c.Bound("report", "256 + 256 trees; <=2/3 (thorough 3/4) non-passing bodies")
}

/* ---------- C33 ---------- */

func noBodies(f *Fix, o *Obs) (string, string) {
	for _, e := range o.Events {
		if strings.HasPrefix(e, "will:") || strings.HasPrefix(e, "did:") {
			continue
		}
		n := strings.SplitN(e, "#", 2)[0]
		for _, x := range f.All {
			switch x.K {
			case KRBE, KRAE, KRBS, KRAS, KC:
				continue
			}
			if n == x.Name || n == x.Name+".1" || n == x.Name+".all" {
				return "dry run ran a body", e
			}
		}
	}
	return "", ""
}

func c33(c *lib.Ctx) {
	fam := &Family{Name: "dryrun", Cfg: func(s *types.SuiteConfig) { s.DryRun = true }, MaxDev: 1, Mon: []Monitor{noBodies},
		Acts: func(i Inv) []Act {
			switch i.K {
			case KRBE, KRAE, KRBS, KRAS:
				return acts(Fail, Panic)
			}
			return acts(Fail)
		}}
	trees(c, fam, 13, func(o *opt) *N { return dryTree(o) })
	c.Bound("dryrun", "8192 trees with every kind of node, pending and focused specs, ordered containers")
	preview(c)
}

func dryTree(o *opt) *N {
	var t, a, in []*N
	t = o.add(t, L(KRBS, "RBS"))
	t = o.add(t, L(KRAS, "RAS"))
	if o.bit() {
		t = append(t, L(KBS, "BS"), L(KAS, "AS"))
	} else {
		t = append(t, L(KSBS, "SBS"), L(KSAS, "SAS"))
	}
	t = o.add(t, L(KRBE, "RBE"))
	t = o.add(t, L(KRAE, "RAE"))
	t = append(t, L(KBE, "BE"), L(KAE, "AE"), L(KJBE, "JBE"), L(KJAE, "JAE"))
	i1, i2, i3 := L(KIt, "I1"), L(KIt, "I2"), L(KIt, "I3")
	i1.Pending = o.bit()
	i2.Pending = o.bit()
	i2.Focus = o.bit() && !i2.Pending
	i3.Focus = o.bit()
	I := C("I", append(in, i2)...)
	I.Pending = o.bit()
	a = append(a, i1, I)
	A := C("A", a...)
	if o.bit() {
		A.Ordered = true
		A.Kids = append(A.Kids, L(KBA, "BA"), L(KAA, "AA"))
	}
	if o.bit() {
		A.Flake = 2
	}
	t = append(t, A, i3)
	if o.bit() {
		t = append(t, C("E"))
	}
	return C("", t...)
}

/* ---------- C34 ---------- */

func c34(c *lib.Ctx) {
	each := func(i Inv) []Act {
		switch i.K {
		case KRBE, KRAE, KRBS, KRAS:
			return acts(Fail, Panic)
		case KDC:
			return acts(Fail, Skip, Panic, Abort)
		}
		return append(acts(Fail, Skip, Panic, Abort), Act{Defers: 2}, Act{Kind: Fail, Defers: 1}, Act{Kind: Skip, Defers: 1})
	}
	for _, ff := range []bool{false, true} {
		ff := ff
		fam := &Family{Name: fmt.Sprintf("suite-nodes-failfast=%v", ff), MaxDev: c.Pick(2, 4), Acts: each, Mon: []Monitor{CleanupsRunOnce, FailureIsVisible}, Cfg: func(s *types.SuiteConfig) { s.FailFast = ff }}
		trees(c, fam, 8, func(o *opt) *N {
			var t []*N
			b, a := KBS, KAS
			if o.bit() {
				b = KSBS
			}
			if o.bit() {
				a = KSAS
			}
			t = o.add(t, L(a, "AFT"))
			t = o.add(t, L(b, "BEF"))
			t = o.add(t, L(KRBS, "RBS"))
			t = o.add(t, L(KRAS, "RAS"))
			i1, i2 := L(KIt, "I1"), L(KIt, "I2")
			i1.Pending = o.bit()
			i2.Pending = o.bit()
			return C("", append(t, C("A", i1, i2))...)
		})
	}
	c.Bound("suite-nodes", "256 trees x fail-fast; <=2 (thorough 4) deviations")
}
