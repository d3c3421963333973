// Package compile explores the interleavings of the parallel compiler, its consumer and stop (C25).
package compile

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/explore"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vexec"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
	"github.com/onsi/ginkgo/v2/types"
)

func TestProperty(t *testing.T) {
	c := lib.New(os.Getenv("VERIF_PROPERTY"))
	root := filepath.Join(os.Getenv("VERIF_TMP"), "suites")
	for i := 0; i < 6; i++ {
		d := filepath.Join(root, fmt.Sprintf("s%d", i))
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, "p.test"), nil, 0o755)
		os.WriteFile(filepath.Join(d, "pre.test"), nil, 0o755)
	}
	synctest.Test(t, func(t *testing.T) {
		c25(c, root)
		c.Write()
		os.Exit(0)
	})
}

// One execution: suites as written (c compiles, f fails, q fails silently, e has no tests, m leaves no binary, p is
// compiled already), n compilers; the consumer takes suites, stops before taking number stop (-1: never), and then
// goes away or takes the rest; or another thread stops (stop = -2).
type config struct {
	suites  string
	n, stop int
	leave   bool
	twice   bool // compile the lot again with the same compiler
	bound   int
	delay   bool
}

func (k config) String() string {
	s := fmt.Sprintf("suites=%s compilers=%d", k.suites, k.n)
	switch {
	case k.stop == -2:
		s += " stopped by somebody else"
	case k.stop >= 0:
		s += fmt.Sprintf(" stopped after %d", k.stop)
		if k.leave {
			s += ", left"
		}
	}
	if k.twice {
		s += " twice"
	}
	return s
}

func c25(c *lib.Ctx, root string) {
	var ks []config
	for _, s := range []string{"", "c", "cc", "ccc", "cccc", "fc", "cfc", "ec", "cec", "mc", "cm", "qc", "pc", "cp", "pp", "cpfc", "ccccc"} {
		for n := 1; n <= 3; n++ {
			b := 2
			if len(s) <= 2 && n <= 2 {
				b = 3
			}
			add := func(stop int, leave, twice bool) {
				if c.Thorough() {
					ks = append(ks, config{s, n, stop, leave, twice, b - 1, false}, config{s, n, stop, leave, twice, b + 1, true})
				} else {
					ks = append(ks, config{s, n, stop, leave, twice, b, true})
				}
			}
			add(-1, false, false)
			if len(s) == 0 {
				continue
			}
			add(-2, false, false)
			for k := 0; k <= len(s); k++ {
				add(k, false, false)
				add(k, true, false)
			}
			if len(s) <= 2 {
				add(-1, false, true)
				add(1, false, true)
			}
		}
	}
	for _, k := range ks {
		if c.Stop() {
			return
		}
		explore.Run(c, scenario(k, root))
	}
	c.Bound("suites and compilers", "up to 5 suites, up to 3 compilers; stopped before each suite, by the consumer (which goes on or leaves) or by another thread; up to two rounds")
}

type run struct {
	begun, ended   map[string]int
	running, most  int
	atStop         int // compilations begun when the stop returned
	idleAtStop     int
	stopping       bool // the stop has been called
	stopped        bool // and has returned
	order          []string
	bad            string
	firstCompiling bool
}

func (r *run) fail(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}

func scenario(k config, root string) explore.Scenario {
	var r *run
	kind := "preempt"
	if k.delay {
		kind = "delay"
	}
	return explore.Scenario{Name: "compiler " + kind + ": " + k.String(), Bound: k.bound, Delay: k.delay, Obs: func() string {
		return fmt.Sprint(k.String(), r.order, r.atStop, r.most)
	}, Setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		r = &run{}
		what := map[string]byte{}
		var suites internal.TestSuites
		for i := range k.suites {
			p := filepath.Join(root, fmt.Sprintf("s%d", i))
			what[p] = k.suites[i]
			t := internal.TestSuite{Path: p, PackageName: "p", IsGinkgo: true, State: internal.TestSuiteStateUncompiled}
			if k.suites[i] == 'm' {
				t.PackageName = "none"
			}
			if k.suites[i] == 'p' {
				t.Precompiled, t.PathToCompiledTest, t.State = true, filepath.Join(p, "pre.test"), internal.TestSuiteStateCompiled
			}
			suites = append(suites, t)
		}
		vexec.Hook = func(dir string, args []string) (string, bool) {
			rr := r
			w, ok := what[dir]
			if !ok {
				rr.fail("compiles in %q", dir)
			}
			if w == 'p' {
				rr.fail("compiles a compiled suite")
			}
			rr.begun[dir]++
			rr.order = append(rr.order, "+"+filepath.Base(dir))
			rr.running++
			if rr.running > rr.most {
				rr.most = rr.running
			}
			rr.firstCompiling = true
			vsched.P("go build")
			rr.running--
			rr.ended[dir]++
			rr.order = append(rr.order, "-"+filepath.Base(dir))
			switch w {
			case 'f':
				return "no good", false
			case 'q':
				return "", false
			case 'e':
				return "?   p   [no test files]", true
			}
			return "", true
		}
		opc := internal.NewOrderedParallelCompiler(k.n)
		total := func() int {
			n := 0
			for _, v := range r.begun {
				n += v
			}
			return n
		}
		stop := func() {
			r.stopping = true
			opc.StopAndDrain()
			r.stopped, r.atStop, r.idleAtStop = true, total(), k.n-r.running
			r.order = append(r.order, "stop")
		}
		rounds := 1
		if k.twice {
			rounds = 2
		}
		s.Spawn("consumer", func() {
			for round := 0; round < rounds; round++ {
				*r = run{bad: r.bad, begun: map[string]int{}, ended: map[string]int{}}
				opc.StartCompiling(suites, types.GoFlagsConfig{}, false)
				for i := 0; ; i++ {
					if i == k.stop {
						stop()
						if k.leave {
							break
						}
					}
					idx, got := opc.Next()
					if idx >= len(suites) {
						if idx != len(suites) || i != len(suites) {
							r.fail("after %d of %d suites, Next returns %d", i, len(suites), idx)
						}
						break
					}
					r.order = append(r.order, fmt.Sprint(idx))
					if idx != i {
						r.fail("Next number %d returns suite %d", i, idx)
						break
					}
					r.check(i, suites[i], got, k.suites[i])
				}
				for i := 0; i < 5 && s.Alive("stopper") != ""; i++ {
					vsched.Sleep()
				}
				if a := s.Alive("stopper"); a != "" {
					r.fail("left running: %s", a)
				}
				n := total()
				switch {
				case r.stopped && n-r.atStop > r.idleAtStop:
					r.fail("%d compilations begin after the stop, when %d compilers were free", n-r.atStop, r.idleAtStop)
				case !r.stopped && n != len(suites)-strings.Count(k.suites, "p"):
					r.fail("%d compilations of %d suites", n, len(suites))
				}
				if r.most > k.n {
					r.fail("%d compilations at a time", r.most)
				}
				for p, n := range r.begun {
					if n != 1 {
						r.fail("%s is compiled %d times", filepath.Base(p), n)
					}
				}
			}
		})
		if k.stop == -2 {
			s.Spawn("stopper", func() {
				vsched.Self().Block("until compiling", func() bool { return r.firstCompiling || k.suites == strings.Repeat("p", len(k.suites)) })
				stop()
			})
		}
		return func(s *vsched.S) (string, string) {
			if r.bad != "" {
				return r.bad, strings.Join(r.order, " ")
			}
			return "", ""
		}
	}}
}

func (r *run) check(i int, in, got internal.TestSuite, w byte) {
	if got.Path != in.Path || got.PackageName != in.PackageName {
		r.fail("Next number %d returns another suite: %s", i, got.Path)
	}
	b, e := r.begun[in.Path], r.ended[in.Path]
	switch {
	case w == 'p':
		if got != in {
			r.fail("a compiled suite is changed")
		}
		return
	case b != e:
		r.fail("suite %d is handed out while it is being compiled", i)
	case b == 0:
		if !r.stopping {
			r.fail("suite %d is handed out uncompiled", i)
		}
		if got.State != internal.TestSuiteStateUncompiled || got.PathToCompiledTest != "" || got.CompilationError != nil {
			r.fail("suite %d has not been compiled but is %v", i, got.State)
		}
		return
	}
	want := map[byte]internal.TestSuiteState{'c': internal.TestSuiteStateCompiled, 'f': internal.TestSuiteStateFailedToCompile, 'q': internal.TestSuiteStateFailedToCompile, 'm': internal.TestSuiteStateFailedToCompile, 'e': internal.TestSuiteStateSkippedDueToEmptyCompilation}[w]
	if got.State != want {
		r.fail("suite %d is %v, should be %v", i, got.State, want)
	}
	if (got.CompilationError != nil) != (want == internal.TestSuiteStateFailedToCompile) {
		r.fail("suite %d: compilation error %v", i, got.CompilationError)
	}
	if w == 'f' && got.CompilationError != nil && !strings.Contains(got.CompilationError.Error(), "no good") {
		r.fail("suite %d: the compilation error does not say what the compiler said", i)
	}
	if w == 'c' && got.PathToCompiledTest != filepath.Join(in.Path, "p.test") {
		r.fail("suite %d: compiled to %q", i, got.PathToCompiledTest)
	}
}
