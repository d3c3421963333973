package par

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/fix"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

func init() { checks["C11"] = c11 }

func c11(c *lib.Ctx, t *testing.T) {
	c.Bound("interleavings", parBound)
	c.Bound("suites", "with and without BeforeSuite (registering a cleanup on one or all processes), AfterSuite or SynchronizedAfterSuite, up to two ReportAfterSuites; one parallel and one serial or parallel spec; 2 and 3 processes")
	c.Bound("outcomes", "every outcome of the end-of-suite functions (on one process or on all), of the cleanups and of a spec")
	c.Bound("crashes", "at most one process dies, at any point before its suite ends, before or after the call it is in took effect")
	var fixtures []*Fixture
	add := func(n int, shape string, act string, k fix.ActKind, crash int, timeout bool) {
		acts := map[string]fix.Act{"BS": {Defers: 1}}
		if strings.Contains(shape, "1d") {
			acts = map[string]fix.Act{"BS@1": {Defers: 1}}
		}
		if act != "" {
			a := acts[act]
			a.Kind = k
			acts[act] = a
		}
		fixtures = append(fixtures, &Fixture{
			Name: fmt.Sprintf("n=%d %s %s=%v crash=%d", n, shape, act, fix.Act{Kind: k}, crash), N: n, Crash: crash, Acts: acts,
			Tree: func() *fix.N {
				root := fix.C("")
				for _, p := range strings.Fields(shape) {
					switch p {
					case "1d", "BS":
						root.Kids = append(root.Kids, fix.L(fix.KBS, "BS"))
					case "SAS", "AS":
						x := fix.L(fix.Kind(p), p)
						x.Ctx = timeout
						if timeout {
							x.Decs = []any{ginkgo.NodeTimeout(time.Second)}
						}
						root.Kids = append(root.Kids, x)
					case "RAS":
						root.Kids = append(root.Kids, fix.L(fix.KRAS, "RAS0"))
					case "RAS2":
						root.Kids = append(root.Kids, fix.L(fix.KRAS, "RAS0"), fix.L(fix.KRAS, "RAS1"))
					case "S":
						b := fix.L(fix.KIt, "b")
						b.Serial = true
						root.Kids = append(root.Kids, b)
					default:
						root.Kids = append(root.Kids, fix.L(fix.KIt, p))
					}
				}
				return root
			},
		})
	}
	bad := []fix.ActKind{fix.Fail, fix.Panic, fix.Skip, fix.PanicNil, fix.Abort}
	for _, shape := range []string{"SAS a", "SAS RAS a", "BS SAS RAS2 a S", "BS a RAS", "1d AS a S RAS2", "RAS2 a b", "AS BS a b", "SAS RAS a b"} {
		for crash := 0; crash <= 1; crash++ {
			add(2, shape, "", 0, crash, false)
			add(2, shape, "a", fix.Fail, crash, false)
		}
		for i, k := range bad {
			for _, at := range []string{"SAS.all", "SAS.all@1", "SAS.all@2", "SAS.1", "AS", "AS@2", "BS", "BS@1", "BS@2", "RAS0", "RAS1", "BS#0/d0", "BS#0/d0@1", "BS#0/d0@2"} {
				in := false
				for _, w := range strings.Fields(shape) {
					if w == "RAS2" && (at == "RAS0" || at == "RAS1") || w == "1d" && strings.HasPrefix(at, "BS") && !strings.HasSuffix(at, "2") {
						in = true
					}
					in = in || strings.HasPrefix(at, w) && (len(at) == len(w) || strings.ContainsAny(at[len(w):len(w)+1], ".@#")) || (w == "RAS" && at == "RAS0")
				}
				if in {
					add(2, shape, at, k, 0, false)
					if i == 0 {
						add(2, shape, at, k, 1, false)
					}
				}
			}
		}
	}
	add(2, "BS SAS RAS a", "SAS.all@2", fix.Hang, 1, true)
	add(2, "BS SAS RAS a", "SAS.1", fix.Hang, 1, true)
	for _, shape := range []string{"SAS RAS a", "1d AS a S RAS2"} {
		add(3, shape, "", 0, 0, false)
		if c.Thorough() || shape == "SAS RAS a" {
			add(3, shape, "", 0, 1, false)
		}
		if c.Thorough() {
			add(3, shape, "a", fix.Fail, 1, false)
			add(3, shape, "BS#0/d0@2", fix.Fail, 0, false)
			add(3, shape, "SAS.all@3", fix.Fail, 0, false)
			add(3, shape, "SAS.1", fix.Fail, 0, false)
			add(3, shape, "RAS0", fix.Fail, 0, false)
		}
	}
	each(c, fixtures, func(*Fixture) func(*world, bool) (string, string) { return checkTeardown })
}

func checkTeardown(w *world, complete bool) (string, string) {
	fx := w.fx
	has := map[fix.Kind]int{}
	for _, k := range fx.Tree().Kids {
		has[k.K]++
	}
	ended := map[int]bool{} // told the server
	endedOK := map[int]bool{}
	out := map[int]bool{} // exited or dead
	counts := map[string]int{}
	ras := 0
	for _, e := range w.log {
		switch {
		case e.What == "call ended":
			ended[e.P], endedOK[e.P] = true, e.Note == "true"
		case e.What == "exit" || e.What == "crash":
			out[e.P] = true
		case strings.HasPrefix(e.What, "begin "):
			name := e.What[6:]
			counts[fmt.Sprintf("%s@%d", name, e.P)]++
			alone := name == "SAS.1" || strings.HasPrefix(name, "RAS") || (strings.Contains(name, "/d") && e.P == 1)
			if alone {
				for q := 2; q <= fx.N; q++ {
					if !out[q] {
						return "process 1 did not wait for the other processes", fmt.Sprintf("%s on %d while %d is there", name, e.P, q)
					}
				}
			}
			if (name == "SAS.1" || strings.HasPrefix(name, "RAS")) && e.P != 1 {
				return "a function for process 1 ran on another process", fmt.Sprintf("%s on %d", name, e.P)
			}
			if strings.HasPrefix(name, "RAS") {
				for q := 2; q <= fx.N; q++ {
					if !ended[q] {
						return "ReportAfterSuite ran although a process had disappeared without reporting", fmt.Sprint(q)
					}
				}
				ras++
			}
		}
	}
	for k, n := range counts {
		if n > 1 {
			return "a node ran twice on a process", k
		}
	}
	if !complete {
		return "", ""
	}
	dead := w.deadProc()
	lost := false // a process is gone without having reported
	for _, p := range w.procs[1:] {
		if p.dead && !ended[p.id] {
			lost = true
		}
	}
	success := dead == nil
	for _, p := range w.procs {
		if p.obs == nil {
			continue
		}
		success = success && p.obs.Success
		if has[fix.KSAS] > 0 && counts[fmt.Sprintf("SAS.all@%d", p.id)] != 1 {
			return "the function for all processes did not run", fmt.Sprint(p.id)
		}
		if has[fix.KAS] > 0 && counts[fmt.Sprintf("AS@%d", p.id)] != 1 {
			return "AfterSuite did not run", fmt.Sprint(p.id)
		}
		for _, d := range p.obs.Registered {
			if counts[fmt.Sprintf("%s@%d", d, p.id)] != 1 {
				return "a cleanup did not run", fmt.Sprintf("%s on %d", d, p.id)
			}
		}
	}
	p1 := w.procs[0]
	if p1.obs != nil {
		if has[fix.KSAS] > 0 && counts["SAS.1@1"] != 1 {
			return "the function for process 1 did not run", ""
		}
		if lost {
			if has[fix.KRAS] > 0 && p1.obs.Success {
				return "process 1 passed although a process had disappeared", ""
			}
			said := false
			for _, r := range p1.obs.End.SpecReports {
				said = said || strings.Contains(r.Failure.Message, "disappeared")
			}
			if has[fix.KRAS] > 0 && !said {
				return "nothing says that a process had disappeared", ""
			}
		} else if ras != has[fix.KRAS] {
			return "ReportAfterSuite did not run", fmt.Sprint(ras)
		}
		// what the report nodes were given
		var mine []string
		ok := true
		for _, e := range p1.obs.Events {
			switch {
			case strings.HasPrefix(e, "did:"):
				mine = append(mine, e[4:])
				ok = ok && !failing(e)
			case strings.HasPrefix(e, "RAS"):
				want := append([]string{}, mine...)
				wantOK := ok
				for _, q := range w.procs[1:] {
					for _, r := range q.did {
						want = append(want, specName(r)+"="+r.State.String())
					}
					wantOK = wantOK && endedOK[q.id]
				}
				sort.Strings(want)
				var got []string
				gotOK := strings.Contains(e, "(ok=true ")
				if i := strings.Index(e, " "); i >= 0 {
					if l := strings.TrimSuffix(e[i+1:], ")"); l != "" {
						got = strings.Split(l, ",")
					}
				}
				sort.Strings(got)
				if d := lib.Diff(got, want); d != "" {
					return "ReportAfterSuite was not given the reports of all processes", e + "\n" + d
				}
				if gotOK != wantOK {
					return "the report given to ReportAfterSuite has the wrong outcome", fmt.Sprintf("%s, want %v", e, wantOK)
				}
			}
		}
	}
	if dead == nil {
		if len(w.rep.end) != 1 {
			return "the server did not end the suite once", fmt.Sprint(len(w.rep.end))
		}
		if w.rep.end[0].SuiteSucceeded != success {
			return "the server's report disagrees with the processes", fmt.Sprint(success)
		}
		var got, want []string
		for _, r := range w.rep.end[0].SpecReports {
			got = append(got, specName(r)+"="+r.State.String())
		}
		for _, p := range w.procs {
			for _, r := range p.did {
				want = append(want, specName(r)+"="+r.State.String())
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if d := lib.Diff(got, want); d != "" {
			return "the server's final report does not contain every report once", d
		}
		anyBad := false
		for _, s := range got {
			anyBad = anyBad || failing(s)
		}
		if anyBad == success {
			return "the outcome does not follow from the reports", fmt.Sprintf("%v %v", success, got)
		}
	}
	return "", ""
}

func failing(s string) bool {
	for _, x := range []string{"failed", "panicked", "aborted", "interrupted", "timedout"} {
		if strings.HasSuffix(s, "="+x) {
			return true
		}
	}
	return false
}
