package micro

import (
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
	"github.com/onsi/ginkgo/v2/types"
)

type failOp struct {
	kind string // fail panic skip abort drain state failure
}

func init() {
	checks["C16"] = func(c *lib.Ctx) {
		kinds := []string{"fail", "panic", "skip", "abort"}
		var scs [][][]string
		// every pair of threads of up to two operations, and every triple of single operations
		ops := append(append([]string{}, kinds...), "drain", "get")
		var seqs [][]string
		for _, a := range ops {
			seqs = append(seqs, []string{a})
		}
		for _, a := range ops {
			for _, b := range ops {
				seqs = append(seqs, []string{a, b})
			}
		}
		for i, a := range seqs {
			for _, b := range seqs[i:] {
				scs = append(scs, [][]string{a, b})
			}
		}
		for i, a := range ops {
			for j, b := range ops[i:] {
				for _, d := range ops[i+j:] {
					scs = append(scs, [][]string{{a}, {b}, {d}})
				}
			}
		}
		for _, th := range scs {
			var names []string
			for _, t := range th {
				names = append(names, strings.Join(t, ","))
			}
			bound := c.Pick(2, 4)
			explore(c, failerScenario("failer: "+strings.Join(names, " | "), th, bound))
		}
		suiteFailures(c)
	}
}

// every operation is called by a thread with a message of its own; the history must be that of some order.
func failerScenario(name string, threads [][]string, bound int) scenario {
	var hist string
	return scenario{name: name, bound: bound, obs: func() string { return hist }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		f := internal.NewFailer()
		type ev struct {
			op, id     string
			start, end int
			got        string
		}
		var evs []*ev
		clock := 0
		show := func(st types.SpecState, fl types.Failure) string {
			return fmt.Sprintf("%s/%s/%s/%s", st, fl.Message, fl.Location.FileName, fl.ForwardedPanic)
		}
		for ti, ops := range threads {
			s.Spawn(fmt.Sprintf("t%d", ti), func() {
				for oi, op := range ops {
					id := fmt.Sprintf("m%d.%d", ti, oi)
					cl := types.CodeLocation{FileName: id}
					clock++
					e := &ev{op: op, id: id, start: clock}
					evs = append(evs, e)
					switch op {
					case "fail":
						f.Fail(id, cl)
					case "panic":
						f.Panic(cl, id)
					case "skip":
						f.Skip(id, cl)
					case "abort":
						f.AbortSuite(id, cl)
					case "drain":
						e.got = show(f.Drain())
					case "get":
						st := f.GetState()
						e.got = st.String()
					}
					clock++
					e.end = clock
				}
			})
		}
		return func(*vsched.S) (string, string) {
			// what is left
			last := &ev{op: "drain", id: "end", start: clock + 1, end: clock + 2, got: show(f.Drain())}
			all := append(append([]*ev{}, evs...), last)
			hist = ""
			for _, e := range all {
				hist += fmt.Sprintf(" %s:%s=%s[%d,%d]", e.id, e.op, e.got, e.start, e.end)
			}
			// is there an order that respects real time and explains every result?
			pass := show(types.SpecStatePassed, types.Failure{})
			var search func(done uint, state string) bool
			search = func(done uint, state string) bool {
				if done == 1<<len(all)-1 {
					return true
				}
				for i, e := range all {
					if done&(1<<i) != 0 {
						continue
					}
					ok := true
					for j, o := range all {
						if done&(1<<j) == 0 && j != i && o.end < e.start {
							ok = false
						}
					}
					if !ok {
						continue
					}
					next := state
					set := func(st types.SpecState, msg, fp string) {
						if state == pass {
							next = show(st, types.Failure{Message: msg, Location: types.CodeLocation{FileName: e.id}, ForwardedPanic: fp})
						}
					}
					switch e.op {
					case "fail":
						set(types.SpecStateFailed, e.id, "")
					case "panic":
						set(types.SpecStatePanicked, "Test Panicked", e.id)
					case "skip":
						set(types.SpecStateSkipped, e.id, "")
					case "abort":
						set(types.SpecStateAborted, e.id, "")
					case "drain":
						if e.got != state {
							continue
						}
						next = pass
					case "get":
						if e.got != strings.SplitN(state, "/", 2)[0] {
							continue
						}
					}
					if search(done|1<<i, next) {
						return true
					}
				}
				return false
			}
			if !search(0, pass) {
				return "no order of the calls explains the results", hist
			}
			return "", ""
		}
	}}
}
