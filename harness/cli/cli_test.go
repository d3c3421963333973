// Package cli runs the real ginkgo command line tool in scratch directories. The go command it calls is a stand-in
// (a script that links this very test binary), and so are the suites: this binary, run in a directory with a plan.
package cli

import (
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

var checks = map[string]func(*lib.Ctx){}

func TestMain(m *testing.M) {
	if p, err := os.ReadFile("plan"); err == nil {
		suite(m, string(p))
	}
	os.Exit(m.Run())
}

func TestProperty(t *testing.T) {
	c := lib.New(os.Getenv("VERIF_PROPERTY"))
	f, ok := checks[c.R.Property]
	if !ok {
		t.Fatalf("unknown property %q", c.R.Property)
	}
	setup()
	f(c)
	c.Write()
	os.RemoveAll(filepath.Join(tmp, "w"))
	os.Exit(0)
}

// ---- the suite ----

func logLine(s string) {
	f, err := os.OpenFile(os.Getenv("ZZ_LOG"), os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	f.WriteString(s + "\n")
	f.Close()
}

func count(what string) int {
	b, _ := os.ReadFile(os.Getenv("ZZ_LOG"))
	return strings.Count("\n"+string(b), "\n"+what+"\n")
}

// suite runs this binary as a test suite; plan[i] is what happens the i-th time.
func suite(m *testing.M, plan string) {
	wd, _ := os.Getwd()
	name := filepath.Base(wd)
	proc, cover, blocking := "1", "", ""
	set := []string{}
	for _, a := range os.Args {
		if v, ok := strings.CutPrefix(a, "--ginkgo.parallel.process="); ok {
			proc = v
		}
		if v, ok := strings.CutPrefix(a, "--test.coverprofile="); ok {
			cover = v
			continue
		}
		if v, ok := strings.CutPrefix(a, "--test.blockprofile="); ok {
			blocking = v
			continue
		}
		if strings.HasPrefix(a, "--") {
			set = append(set, a)
		}
	}
	i := count("run " + name + " " + proc)
	logLine("run " + name + " " + proc)
	if i >= len(plan) {
		i = len(plan) - 1
	}
	k := plan[i]
	end := func(code int) {
		if blocking != "" && k != 'x' {
			f, err := os.Create(blocking)
			must(err)
			must(pprof.Lookup("block").WriteTo(f, 0))
			must(f.Close())
		}
		if cover != "" && k != 'x' {
			must(os.WriteFile(cover, []byte(profileOf(name, proc).String()), 0o644))
		}
		logLine("end " + name + " " + proc)
		os.Exit(code)
	}
	switch k {
	case 'x':
		end(7)
	case 'k':
		logLine("end " + name + " " + proc)
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	case 'g':
		end(0)
	case 'G':
		end(1)
	case 'n':
		os.Args = append(append([]string{os.Args[0]}, set...), "-test.run", "^NoSuchTest$")
		end(m.Run())
	}
	os.Args = append(append([]string{os.Args[0]}, set...), "-test.run", "^TestSuite$")
	ginkgo.Describe("suite "+name, func() {
		ginkgo.It("one", func() {})
		two := ginkgo.It
		if k == 'F' {
			two = ginkgo.FIt
		}
		two("two", func(ctx ginkgo.SpecContext) {
			switch k {
			case 'f':
				ginkgo.Fail("no good")
			case 'X':
				os.Exit(7)
			case 'T':
				<-ctx.Done()
			case 'i':
				syscall.Kill(os.Getppid(), syscall.SIGINT)
				syscall.Kill(os.Getpid(), syscall.SIGINT)
				<-ctx.Done()
				time.Sleep(patience())
			}
		})
		if k == 'P' {
			ginkgo.PIt("three", func() {})
		}
	})
	end(m.Run())
}

func patience() time.Duration {
	d, _ := time.ParseDuration(lib.Env("ZZ_PATIENCE", "300ms"))
	return d
}

func TestSuite(t *testing.T) {
	if _, err := os.Stat("plan"); err != nil {
		t.Skip("the suite")
	}
	wd, _ := os.Getwd()
	ginkgo.RunSpecs(t, "suite "+filepath.Base(wd))
}

// ---- running the tool ----

var tmp, cli, self string

const fakeGo = `#!/bin/sh
# stands in for go: only "go test -c" does something
[ "$1 $2" = "tool cover" ] && echo "total:	(statements)	50.0%" && exit 0
[ "$1" = test ] || exit 1
case "$(cat plan)" in
c*) echo "does not compile: $PWD"; exit 1;;
e*) echo "?   	$PWD	[no test files]"; exit 0;;
I*) echo "compiling" >> "$ZZ_LOG"; kill -INT $PPID; sleep ${ZZ_PATIENCE%ms*}e-3;;
esac
out=
while [ $# -gt 0 ]; do
  case "$1" in
  -o) out="$2"; shift;;
  -o=*) out="${1#-o=}";;
  --o=*) out="${1#--o=}";;
  esac
  shift
done
ln -f "$ZZ_SELF" "$out"
`

func setup() {
	tmp, cli = os.Getenv("VERIF_TMP"), os.Getenv("VERIF_CLI")
	self, _ = os.Executable()
	os.MkdirAll(filepath.Join(tmp, "bin"), 0o755)
	must(os.WriteFile(filepath.Join(tmp, "bin", "go"), []byte(fakeGo), 0o755))
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type outcome struct {
	exit   int // -1: it had to be killed
	out    string
	log    []string
	panics bool
}

func (o outcome) ran(name string) int {
	n := 0
	for _, l := range o.log {
		if strings.HasPrefix(l, "run "+name+" ") {
			n++
		}
	}
	return n
}

// run runs the tool in directory w.
func run(w string, env []string, args ...string) outcome {
	log := filepath.Join(tmp, "log")
	os.Remove(log)
	var env2 []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GINKGO_") && !strings.HasPrefix(e, "PATH=") && !strings.HasPrefix(e, "VERIF_") {
			env2 = append(env2, e)
		}
	}
	env2 = append(env2, "PATH="+filepath.Join(tmp, "bin")+":"+os.Getenv("PATH"), "ZZ_LOG="+log, "ZZ_SELF="+self)
	cmd := exec.Command(cli, args...)
	cmd.Dir = w
	cmd.Env = append(env2, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 3 * time.Second
	must(cmd.Start())
	t := time.AfterFunc(60*time.Second, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	cmd.Wait()
	t.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	o := outcome{exit: cmd.ProcessState.ExitCode(), out: b.String()}
	l, _ := os.ReadFile(log)
	o.log = strings.Split(strings.TrimSpace(string(l)), "\n")
	return o
}

// suitesIn makes a scratch directory with a suite per name and plan.
func suitesIn(plans map[string]string) string {
	w := filepath.Join(tmp, "w")
	must(os.RemoveAll(w))
	for n, p := range plans {
		d := filepath.Join(w, n)
		must(os.MkdirAll(d, 0o755))
		src := "package x\n\nimport _ \"github.com/onsi/ginkgo/v2\"\n"
		if p[0] == 'g' || p[0] == 'G' {
			src = "package x\n"
		}
		must(os.WriteFile(filepath.Join(d, "x_test.go"), []byte(src), 0o644))
		must(os.WriteFile(filepath.Join(d, "plan"), []byte(p), 0o644))
	}
	return w
}

func brief(s string) string {
	if len(s) > 1500 {
		s = s[:700] + "\n[...]\n" + s[len(s)-700:]
	}
	return s
}
