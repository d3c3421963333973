package par

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

const parBound = "every interleaving of the processes' steps (a step ends at a call on the server, at the end of a node body and at the process's exit), pruned only at states seen before"

// item builds one top-level item of a fixture; its subjects are named after their group.
func item(code byte, i int) *fix.N {
	n := string(rune('a' + i))
	it := func(k string) *fix.N { return fix.L(fix.KIt, n+k) }
	switch code {
	case 'I':
		return it("")
	case 'P':
		x := it("")
		x.Pending = true
		return x
	case 'S':
		x := it("")
		x.Serial = true
		return x
	case 'K':
		return fix.C("K"+n, it("1"), it("2"))
	case 'k': // a container of which one spec is serial
		s := it("1")
		s.Serial = true
		return fix.C("k"+n, s, it("2"))
	case 'W': // a serial container inside one that is not
		s := fix.C("w"+n, it("1"))
		s.Serial = true
		return fix.C("W"+n, s, it("2"))
	case 'O', 'T', 'U':
		c := fix.C("O"+n, fix.L(fix.KBA, n+"BA"), it("1"), it("2"), fix.L(fix.KAA, n+"AA"))
		c.Ordered = true
		c.Serial = code == 'T'
		if code == 'U' { // ordered containers nested in a plain one
			d := c
			e := it("9")
			return fix.C("U"+n, d, e)
		}
		return c
	}
	panic(code)
}

// groupOf says which specs must stay together.
func groupsOf(root *fix.N) (group map[string]string, serial map[string]bool, order map[string][]string) {
	group, serial, order = map[string]string{}, map[string]bool{}, map[string][]string{}
	var rec func(n *fix.N, g string, s bool)
	rec = func(n *fix.N, g string, s bool) {
		s = s || n.Serial
		if g == "" && n.K == fix.KC && n.Ordered {
			g = n.Name
		}
		if n.K == fix.KIt {
			if g == "" {
				g = n.Name
			}
			group[n.Name] = g
			serial[n.Name] = s
			order[g] = append(order[g], n.Name)
		}
		for _, k := range n.Kids {
			rec(k, g, s)
		}
	}
	rec(root, "", false)
	return
}

// alone runs the fixture's suite in one process.
func alone(fx *Fixture) *fix.Obs {
	r := &fix.Runner{Cfg: fix.DefaultCfg()}
	if fx.Cfg != nil {
		fx.Cfg(&r.Cfg)
	}
	r.Decide = func(inv fix.Inv) fix.Act { return fx.Acts[inv.Name] }
	return r.Run(fix.Prepare(fx.Tree()))
}

func specStates(rs []types.SpecReport) map[string][]string {
	m := map[string][]string{}
	for _, r := range rs {
		if r.LeafNodeType.Is(types.NodeTypeIt) {
			m[r.LeafNodeText] = append(m[r.LeafNodeText], r.State.String()+" "+fix.FailMsg(r.Failure))
		}
	}
	return m
}

// begun lists, in order, the node bodies a process started.
func (w *world) begun(p int, pred func(string) bool) []string {
	var out []string
	for _, e := range w.log {
		if (p == 0 || e.P == p) && strings.HasPrefix(e.What, "begin ") && pred(e.What[6:]) {
			out = append(out, e.What[6:])
		}
	}
	return out
}

func (w *world) deadProc() *proc {
	for _, p := range w.procs {
		if p.dead {
			return p
		}
	}
	return nil
}

func init() {
	checks["C09"] = c09
}

func c09(c *lib.Ctx, t *testing.T) {
	c.Bound("interleavings", parBound)
	codes := "IPSKkOTUW"
	var fixtures []*Fixture
	add := func(n int, seq string, crash int, fail string, mod string, cfg func(*types.SuiteConfig)) {
		fixtures = append(fixtures, &Fixture{
			Name: fmt.Sprintf("n=%d %s crash=%d fail=%s %s", n, seq, crash, fail, mod), N: n, Crash: crash,
			Tree: func() *fix.N {
				root := fix.C("")
				for i := range seq {
					root.Kids = append(root.Kids, item(seq[i], i))
				}
				return root
			},
			Acts: map[string]fix.Act{fail: {Kind: fix.Fail}},
			Cfg:  cfg,
		})
	}
	max2 := c.Pick(2, 3)
	var rec func(seq string)
	rec = func(seq string) {
		if len(seq) > 0 {
			for crash := 0; crash <= 1; crash++ {
				add(2, seq, crash, "", "", nil)
				if crash == 0 {
					add(2, seq, crash, "a1", "", nil)
					add(2, seq, crash, "", "randomize-all", func(c *types.SuiteConfig) { c.RandomizeAllSpecs, c.RandomSeed = true, 17 })
				}
			}
		}
		if len(seq) < max2 {
			for i := range codes {
				rec(seq + codes[i:i+1])
			}
		}
	}
	rec("")
	for _, seq := range []string{"ISI", "OIS", "KTO", "UIT", "PIP", "SSI", "TST", "OOI", "IIII", "IISS", "kOk", "KKS", "WI", "IW"} {
		add(2, seq, 1, "", "", nil)
		add(2, seq, 0, "b1", "seed 3", func(c *types.SuiteConfig) { c.RandomSeed = 3 })
	}
	for _, seq := range []string{"I", "S", "II", "IS", "OI", "SS", "T", "OS", "K", "P", "k", "W"} {
		add(3, seq, c.Pick(0, 1), "", "", nil)
	}
	for _, seq := range []string{"I", "S", "O", "P"} {
		add(3, seq, 1, "", "", nil)
	}
	if c.Thorough() {
		for _, seq := range []string{"ISO", "IIS", "OTI", "III"} {
			add(3, seq, 1, "", "", nil)
		}
		for _, seq := range []string{"I", "S", "II", "IS"} {
			add(4, seq, 0, "", "", nil)
		}
	}
	c.Bound("suites", fmt.Sprintf("all sequences of up to %d top-level items of %d kinds (subject, pending, serial, container, container with a serial spec, ordered, serial ordered, nested ordered) with 2 processes, selected ones up to 4 items and up to 3 (thorough: 4) processes", max2, len(codes)))
	c.Bound("crashes", "at most one process dies, at any point before its suite ends, before or after the call it is in took effect")
	each(c, fixtures, func(fx *Fixture) func(*world, bool) (string, string) {
		ref := alone(fx)
		want := specStates(ref.End.SpecReports)
		group, serial, order := groupsOf(fx.Tree())
		isSpec := func(n string) bool { return group[n] != "" }
		return func(w *world, complete bool) (string, string) {
			ranOn := map[string]int{}
			gone := map[int]bool{}
			groupOn := map[string]int{}
			pos := map[string]int{}
			for _, e := range w.log {
				switch {
				case e.What == "returned" || e.What == "crash":
					gone[e.P] = true
				case strings.HasPrefix(e.What, "begin ") && isSpec(e.What[6:]):
					n := e.What[6:]
					if q := ranOn[n]; q != 0 {
						return "a spec ran twice", fmt.Sprintf("%s on %d and on %d", n, q, e.P)
					}
					ranOn[n] = e.P
					g := group[n]
					if q := groupOn[g]; q != 0 && q != e.P {
						return "the specs of an ordered container were spread over processes", n
					}
					groupOn[g] = e.P
					for i, x := range order[g] {
						if x == n {
							if i < pos[g] {
								return "the specs of an ordered container ran out of order", n
							}
							pos[g] = i
						}
					}
					if serial[n] {
						if e.P != 1 {
							return "a serial spec did not run on process 1", fmt.Sprintf("%s ran on %d", n, e.P)
						}
						for q := 2; q <= fx.N; q++ {
							if !gone[q] {
								return "a serial spec started before another process had finished", fmt.Sprintf("%s while process %d was not done", n, q)
							}
						}
					}
				}
			}
			for _, p := range w.procs[1:] {
				if p.obs != nil && w.procs[0].obs != nil && p.obs.Begin.PreRunStats != w.procs[0].obs.Begin.PreRunStats {
					return "processes disagree on the specs", fmt.Sprintf("%v %v", p.obs.Begin.PreRunStats, w.procs[0].obs.Begin.PreRunStats)
				}
			}
			if !complete {
				return "", ""
			}
			dead := w.deadProc()
			got := specStates(w.rep.did)
			if dead != nil {
				// (the server holds back reports until every process has begun)
				got = map[string][]string{}
				for _, p := range w.procs {
					for n, s := range specStates(p.did) {
						got[n] = append(got[n], s...)
					}
				}
			}
			missing := map[string]bool{}
			for _, n := range lib.SortedKeys(want) {
				switch len(got[n]) {
				case 0:
					missing[group[n]] = true
					if dead == nil {
						return "a spec did not run", n
					}
					if dead.id == 1 && serial[n] {
						delete(missing, group[n])
						continue
					}
					if !strings.Contains(dead.trace.String(), "counter=") {
						return "a spec nobody had been given was lost", n
					}
				case 1:
					if got[n][0] != want[n][0] {
						return "a spec ended differently than in a serial run", fmt.Sprintf("%s: %s, alone: %s", n, got[n][0], want[n][0])
					}
				default:
					return "a spec was reported more than once", fmt.Sprintf("%s: %v", n, got[n])
				}
			}
			for n := range got {
				if want[n] == nil {
					return "an unknown spec was reported", n
				}
			}
			if len(missing) > 1 {
				ks := lib.SortedKeys(missing)
				sort.Strings(ks)
				return "more specs were lost than the dead process had been given", strings.Join(ks, " ")
			}
			if dead != nil {
				return "", ""
			}
			success := true
			for _, p := range w.procs {
				success = success && p.obs.Success
			}
			if success != ref.Success {
				return "the outcome differs from a serial run", fmt.Sprintf("%v, alone %v", success, ref.Success)
			}
			return "", ""
		}
	})
}
