package pure

import (
	"fmt"
	"strings"

	. "github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C08"] = c08 }

// seqClient hands out the counter to one process only.
type seqClient struct{ n int }

func (*seqClient) Connect() bool                                        { return true }
func (*seqClient) Close() error                                         { return nil }
func (*seqClient) PostSuiteWillBegin(types.Report) error                { return nil }
func (*seqClient) PostDidRun(types.SpecReport) error                    { return nil }
func (*seqClient) PostSuiteDidEnd(types.Report) error                   { return nil }
func (*seqClient) PostReportBeforeSuiteCompleted(types.SpecState) error { return nil }
func (*seqClient) BlockUntilReportBeforeSuiteCompleted() (types.SpecState, error) {
	return types.SpecStatePassed, nil
}
func (*seqClient) PostSynchronizedBeforeSuiteCompleted(types.SpecState, []byte) error { return nil }
func (*seqClient) BlockUntilSynchronizedBeforeSuiteData() (types.SpecState, []byte, error) {
	return types.SpecStatePassed, nil, nil
}
func (*seqClient) BlockUntilNonprimaryProcsHaveFinished() error { return nil }
func (*seqClient) BlockUntilAggregatedNonprimaryProcsReport() (types.Report, error) {
	return types.Report{}, nil
}
func (s *seqClient) FetchNextCounter() (int, error)                  { s.n++; return s.n - 1, nil }
func (*seqClient) PostAbort() error                                  { return nil }
func (*seqClient) ShouldAbort() bool                                 { return false }
func (*seqClient) PostEmitProgressReport(types.ProgressReport) error { return nil }
func (*seqClient) Write(p []byte) (int, error)                       { return len(p), nil }

type c08cfg struct {
	seed  int64
	all   bool
	procs int
	proc  int
	focus string
	skip  string
}

// c08order runs (dry) the tree and returns the names of its specs in order.
func c08order(c *lib.Ctx, root *N, k c08cfg) ([]string, string) {
	f := Prepare(root)
	cfg := DefaultCfg()
	cfg.RandomSeed, cfg.RandomizeAllSpecs, cfg.ParallelTotal, cfg.ParallelProcess = k.seed, k.all, k.procs, k.proc
	cfg.DryRun = k.procs == 1 && k.seed%2 == 0
	if k.focus != "" {
		cfg.FocusStrings = []string{k.focus}
	}
	if k.skip != "" {
		cfg.SkipStrings = []string{k.skip}
	}
	r := &Runner{Cfg: cfg, Decide: func(Inv) Act { return Act{} }}
	if k.procs > 1 {
		r.Client = &seqClient{}
	}
	o := r.Run(f)
	c.Add("executions", 1)
	c.Add("steps", int64(len(o.Events)))
	if o.Panicked != "" {
		return nil, o.Panicked
	}
	var out []string
	for _, d := range o.Did {
		if d.LeafType == types.NodeTypeIt {
			out = append(out, d.Leaf)
		}
	}
	return out, ""
}

// shape i of a top-level node called p
func c08shape(i int, p string) *N {
	it := func(s string) *N { return L(KIt, p+s) }
	ser := func(n *N) *N { n.Serial = true; return n }
	ord := func(n *N) *N { n.Ordered = true; return n }
	switch i {
	case 0:
		return it("1")
	case 1:
		return C(p, it("1"), it("2"))
	case 2:
		return ord(C(p, it("1"), it("2"), it("3")))
	case 3:
		return C(p, C(p+"i", it("1"), it("2")), it("3"))
	case 4:
		return C(p, ord(C(p+"o", it("1"), it("2"))), it("3"))
	case 5:
		return ser(it("1"))
	case 6:
		return ser(ord(C(p, it("1"), it("2"))))
	case 7:
		return C(p, ser(it("1")), it("2"), ser(C(p+"s", it("3"))))
	case 8:
		return ord(C(p, it("1"), C(p+"n", it("2"), it("3"))))
	case 9:
		return C(p, it("1"), ord(C(p+"o", it("2"), it("3"))), ord(C(p+"q", it("4"), it("5"))))
	}
	return nil
}

const c08shapes = 10

type c08info struct {
	top    map[string]int    // spec -> top-level node
	def    map[string]int    // spec -> definition index
	group  map[string]string // spec -> outermost Ordered container ("" if none)
	serial map[string]bool
	n      int
}

func c08analyse(root *N) *c08info {
	f := Prepare(root)
	in := &c08info{top: map[string]int{}, def: map[string]int{}, group: map[string]string{}, serial: map[string]bool{}}
	for i, s := range f.Specs {
		in.def[s.Name] = i
		path := append(s.Path(), s)
		for ti, t := range root.Kids {
			if t == path[0] {
				in.top[s.Name] = ti
			}
		}
		for _, n := range path {
			if n.Serial {
				in.serial[s.Name] = true
			}
			if n.Ordered && in.group[s.Name] == "" {
				in.group[s.Name] = n.Name
			}
		}
		in.n++
	}
	return in
}

func (in *c08info) judge(order []string, all bool) string {
	if len(order) != in.n {
		return fmt.Sprintf("%d of %d specs appear", len(order), in.n)
	}
	seen := map[string]bool{}
	for _, s := range order {
		if _, ok := in.def[s]; !ok || seen[s] {
			return "not a permutation: " + s
		}
		seen[s] = true
	}
	contiguous := func(key func(string) string, what string) string {
		last, done, prev := "", map[string]bool{}, ""
		for _, s := range order {
			k := key(s)
			if k != last {
				if k != "" && done[k] {
					return fmt.Sprintf("specs of %s %s are not contiguous", what, k)
				}
				done[k] = true
			} else if k != "" && in.def[s] < in.def[prev] {
				return fmt.Sprintf("specs %s, %s of %s %s are not in definition order", prev, s, what, k)
			}
			last, prev = k, s
		}
		return ""
	}
	if e := contiguous(func(s string) string { return in.group[s] }, "Ordered container"); e != "" {
		return e
	}
	if !all {
		return contiguous(func(s string) string { return fmt.Sprint(in.top[s]) }, "top-level node")
	}
	return ""
}

func c08(c *lib.Ctx) {
	seeds := c.Pick(6, 16)
	tops := c.Pick(3, 4)
	c.Bound("trees", fmt.Sprintf("all sequences of 1..3 (thorough 4) top-level nodes from %d shapes with Ordered and Serial marks (4-node trees: first node fixed to the first 3 shapes)", c08shapes))
	c.Bound("seeds", fmt.Sprint(seeds))
	for n := 1; n <= tops; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = c08shapes
		}
		if n == 4 {
			dims[0] = 3
		}
		ok := lib.Product(dims, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			mk := func() *N {
				root := C("")
				for i, x := range ix {
					root.Kids = append(root.Kids, c08shape(x, string(rune('a'+i))))
				}
				return root
			}
			root := mk()
			in := c08analyse(root)
			for seed := 0; seed < seeds; seed++ {
				for _, all := range []bool{false, true} {
					kase := fmt.Sprintf("%s seed=%d randomize-all=%v", root, seed, all)
					c.Case(kase)
					c08case(c, mk, in, kase, int64(seed), all)
				}
			}
			return !c.Stop()
		})
		if !ok {
			return
		}
	}
	c08locations(c)
	c08generated(c)
	c08shuffle(c)
}

func c08case(c *lib.Ctx, mk func() *N, in *c08info, kase string, seed int64, all bool) {
	ref, pan := c08order(c, mk(), c08cfg{seed: seed, all: all, procs: 1, proc: 1})
	if pan != "" {
		c.Violation("order: panic", kase, pan)
		return
	}
	c.Distinct("states", strings.Join(ref, ","))
	if e := in.judge(ref, all); e != "" {
		c.Violation("order: constraint", kase, e+"\norder: "+strings.Join(ref, " "))
		return
	}
	same := func(what string, got, want []string) {
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.Violation("order: "+what, kase, fmt.Sprintf("got  %s\nwant %s", strings.Join(got, " "), strings.Join(want, " ")))
		}
	}
	for _, k := range []c08cfg{{seed: seed, all: all, procs: 1, proc: 1, focus: "[2]$"}, {seed: seed, all: all, procs: 1, proc: 1, skip: "a[12]"}} {
		got, pan := c08order(c, mk(), k)
		if pan != "" {
			c.Violation("order: panic", kase, pan)
			return
		}
		same("depends on filters", got, ref)
	}
	var par, ser []string
	for _, s := range ref {
		if in.serial[s] {
			ser = append(ser, s)
		} else {
			par = append(par, s)
		}
	}
	for proc := 1; proc <= 3; proc++ {
		got, pan := c08order(c, mk(), c08cfg{seed: seed, all: all, procs: 3, proc: proc})
		if pan != "" {
			c.Violation("order: panic", kase, pan)
			return
		}
		if proc == 1 {
			same("process 1", got, append(append([]string{}, par...), ser...))
		} else {
			same("other process", got, par)
		}
	}
	if c.R.Counters["executions"]%4001 < 6 {
		c.Sample(map[string]any{"case": kase, "order": strings.Join(ref, " ")})
	}
}

// The order depends on where nodes are, not on the order in which the program happened to construct them.
func c08locations(c *lib.Ctx) {
	place := func(n *N, file string, line int) *N { n.File, n.Line = file, line; return n }
	trees := []func() []*N{
		func() []*N { // one line each, several files
			return []*N{place(L(KIt, "w"), "a.go", 10), place(C("B", place(L(KIt, "x"), "b.go", 3), place(L(KIt, "y"), "b.go", 4)), "b.go", 2), place(L(KIt, "z"), "a.go", 9), place(C("C", place(L(KIt, "v"), "a.go", 12)), "a.go", 11)}
		},
		func() []*N { // a loop over a map: everything on the same lines, texts differ
			var out []*N
			for _, s := range []string{"p", "q", "r", "s"} {
				out = append(out, place(C("C"+s, place(L(KIt, s+"1"), "l.go", 6), place(L(KIt, s+"2"), "l.go", 7)), "l.go", 5))
			}
			return out
		},
		func() []*N {
			var out []*N
			for _, s := range []string{"p", "q", "r"} {
				n := place(C("C"+s, place(L(KIt, s+"2"), "l.go", 6), place(L(KIt, s+"1"), "l.go", 6)), "l.go", 5)
				n.Ordered = true
				out = append(out, n)
			}
			return append(out, place(L(KIt, "solo"), "l.go", 5))
		},
	}
	for ti, t := range trees {
		k := len(t())
		for seed := int64(0); seed < int64(c.Pick(8, 40)); seed++ {
			for _, all := range []bool{false, true} {
				if !c.Mine() {
					continue
				}
				var ref []string
				lib.Permutations(k, func(p []int) bool {
					nodes := t()
					root := C("")
					for _, i := range p {
						root.Kids = append(root.Kids, nodes[i])
					}
					kase := fmt.Sprintf("locations tree %d %v seed=%d randomize-all=%v", ti, p, seed, all)
					c.Case(kase)
					got, pan := c08order(c, root, c08cfg{seed: seed, all: all, procs: 1, proc: 1})
					if ref == nil {
						ref = got
					}
					if pan != "" || strings.Join(got, " ") != strings.Join(ref, " ") {
						c.Violation("order: depends on construction order", kase, fmt.Sprintf("%s\ngot  %v\nwant %v", pan, got, ref))
					}
					return true
				})
			}
		}
	}
	// generated inside one container
	for seed := int64(0); seed < 8; seed++ {
		for _, all := range []bool{false, true} {
			if !c.Mine() {
				continue
			}
			var ref []string
			lib.Permutations(4, func(p []int) bool {
				in := place(C("in"), "m.go", 1)
				for _, i := range p {
					in.Kids = append(in.Kids, place(L(KIt, fmt.Sprint("t", i)), "m.go", 2))
				}
				kase := fmt.Sprintf("generated specs %v seed=%d randomize-all=%v", p, seed, all)
				got, pan := c08order(c, C("", in, place(L(KIt, "z"), "m.go", 9)), c08cfg{seed: seed, all: all, procs: 1, proc: 1})
				if ref == nil {
					ref = got
				}
				if pan != "" || strings.Join(got, " ") != strings.Join(ref, " ") {
					c.Violation("order: depends on construction order", kase, fmt.Sprintf("%s\ngot  %v\nwant %v", pan, got, ref))
				}
				return true
			})
		}
	}
}

// c08gen is a node of a generated program: text, line, and children in some order.
type c08gen struct {
	text string
	line int
	ord  bool
	kids []*c08gen // nil: a spec
}

func (g *c08gen) label() string {
	return fmt.Sprintf("%s%d%v", g.text, g.line, g.ord && g.kids != nil)
}

// paths lists what tells the units of the tree apart; false if two units look alike
func (g *c08gen) paths(prefix string, seen map[string]bool) bool {
	k := prefix + "/" + g.text + fmt.Sprint(g.line)
	if g.kids == nil || g.ord {
		if seen[k] {
			return false
		}
		seen[k] = true
		return true
	}
	for _, kid := range g.kids {
		if !kid.paths(k, seen) {
			return false
		}
	}
	return true
}

// orders yields the node with the children of every not Ordered container in every order
func (g *c08gen) orders(yield func(*N)) {
	place := func(n *N) *N { n.File, n.Line = "gen.go", g.line; return n }
	if g.kids == nil {
		yield(place(L(KIt, g.text)))
		return
	}
	c08orders(g.kids, !g.ord, func(kids []*N) {
		n := place(C(g.text, append([]*N{}, kids...)...))
		n.Ordered = g.ord
		yield(n)
	})
}

func c08orders(gs []*c08gen, permute bool, yield func([]*N)) {
	var fill func(p []int, done []*N)
	fill = func(p []int, done []*N) {
		if len(p) == 0 {
			yield(done)
			return
		}
		gs[p[0]].orders(func(n *N) { fill(p[1:], append(append([]*N{}, done...), n)) })
	}
	if !permute {
		p := make([]int, len(gs))
		for i := range p {
			p[i] = i
		}
		fill(p, nil)
		return
	}
	lib.Permutations(len(gs), func(p []int) bool { fill(append([]int{}, p...), nil); return true })
}

// Programs that generate nodes on the same lines in an arbitrary order (by iterating over maps): every tree of a family
// with every order of siblings; the order of specs must not depend on it as long as texts and lines tell them apart.
func c08generated(c *lib.Ctx) {
	var leaves, l2, l3 []*c08gen
	for _, t := range []string{"p", "q"} {
		for _, line := range []int{1, 2} {
			leaves = append(leaves, &c08gen{text: t, line: line})
		}
	}
	wrap := func(kids []*c08gen, ordered bool) (out []*c08gen) {
		for _, t := range []string{"p", "q"} {
			for _, line := range []int{1, 2} {
				out = append(out, &c08gen{text: t, line: line, ord: ordered, kids: kids})
			}
		}
		return
	}
	for i, a := range leaves {
		l2 = append(l2, wrap([]*c08gen{a}, false)...)
		for j, b := range leaves {
			if i <= j {
				l2 = append(l2, wrap([]*c08gen{a, b}, false)...)
			}
		}
	}
	for _, p := range [][2]int{{0, 3}, {2, 1}, {1, 0}} {
		l2 = append(l2, wrap([]*c08gen{leaves[p[0]], leaves[p[1]]}, true)...)
	}
	small := append(append([]*c08gen{}, leaves...), l2...)
	for i, a := range small {
		for _, b := range small[i:] {
			l3 = append(l3, &c08gen{text: "o", line: 1, kids: []*c08gen{a, b}})
		}
	}
	check := func(gs []*c08gen, label string) bool {
		if !c.Mine() {
			return true
		}
		seen := map[string]bool{}
		for _, g := range gs {
			if !g.paths("", seen) {
				return true
			}
		}
		for _, all := range []bool{false, true} {
			kase := fmt.Sprintf("%s randomize-all=%v", label, all)
			if !c.Only(kase) {
				continue
			}
			ref, first := "", ""
			c.Case(kase)
			c08orders(gs, true, func(kids []*N) {
				root := C("", kids...)
				text := root.String()
				f := Prepare(root)
				cfg := DefaultCfg()
				cfg.RandomSeed, cfg.RandomizeAllSpecs, cfg.DryRun = 7, all, true
				o := (&Runner{Cfg: cfg, Decide: func(Inv) Act { return Act{} }}).Run(f)
				c.Add("executions", 1)
				c.Add("steps", int64(len(o.DidRaw)))
				var got []string
				for _, d := range o.DidRaw {
					if d.LeafNodeType == types.NodeTypeIt {
						k := ""
						for i, t := range d.ContainerHierarchyTexts {
							k += fmt.Sprintf("%s%d/", t, d.ContainerHierarchyLocations[i].LineNumber)
						}
						got = append(got, fmt.Sprintf("%s%s%d", k, d.LeafNodeText, d.LeafNodeLocation.LineNumber))
					}
				}
				g := strings.Join(got, " ")
				if first == "" {
					ref, first = g, text
					c.Distinct("states", g)
				}
				if o.Panicked != "" || g != ref {
					c.Violation("order: depends on construction order", kase, fmt.Sprintf("%s\n%s: %s\n%s: %s", o.Panicked, text, g, first, ref))
				}
			})
		}
		return !c.Stop()
	}
	for i, a := range small {
		for j, b := range small[i:] {
			if !check([]*c08gen{a, b}, fmt.Sprintf("generated tops %d %d", i, i+j)) {
				return
			}
		}
	}
	for i, a := range l3 {
		if !check([]*c08gen{a}, fmt.Sprintf("generated nested %d", i)) {
			return
		}
	}
	if c.Thorough() {
		for i, a := range small {
			for j, b := range small[i:] {
				for k, d := range small[i+j:] {
					if (len(a.kids)+len(b.kids)+len(d.kids)) <= 4 && !check([]*c08gen{a, b, d}, fmt.Sprintf("generated tops %d %d %d", i, i+j, i+j+k)) {
						return
					}
				}
			}
		}
	}
	c.Bound("generated programs", fmt.Sprintf("%d pairs and %d nested trees of nodes with 2 texts and 2 lines, siblings in every order", len(small)*(len(small)+1)/2, len(l3)))
}

// Over many seeds every order that the rules allow is produced.
func c08shuffle(c *lib.Ctx) {
	type tc struct {
		shapes []int
		all    bool
		want   int
	}
	for _, t := range []tc{{[]int{0, 1, 2}, false, 6}, {[]int{1, 2}, true, 6}, {[]int{4, 0}, true, 6}, {[]int{3}, true, 6}, {[]int{2, 9}, false, 2}, {[]int{0, 0, 0, 0}, false, 24}, {[]int{8, 6, 5}, true, 6}} {
		if !c.Mine() {
			continue
		}
		seen := map[string]bool{}
		root := C("")
		for i, x := range t.shapes {
			root.Kids = append(root.Kids, c08shape(x, string(rune('a'+i))))
		}
		kase := fmt.Sprintf("%s randomize-all=%v, 400 seeds", root, t.all)
		c.Case(kase)
		for seed := int64(0); seed < 400; seed++ {
			r, _ := c08order(c, root.Clone(), c08cfg{seed: seed, all: t.all, procs: 1, proc: 1})
			seen[strings.Join(r, " ")] = true
		}
		if len(seen) != t.want {
			c.Violation("order: not all orders are produced", kase, fmt.Sprintf("%d different orders, want %d: %v", len(seen), t.want, lib.SortedKeys(seen)))
		}
	}
}
