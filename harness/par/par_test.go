package par

import (
	"encoding/gob"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

var checks = map[string]func(*lib.Ctx, *testing.T){}

func TestProperty(t *testing.T) {
	// the runtime's signal goroutine must not belong to a bubble
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	id := os.Getenv("VERIF_PROPERTY")
	var saved *state
	if f := os.Getenv("PAR_RESUME"); f != "" {
		saved = load(f)
		os.Setenv("VERIF_DEADLINE_S", strconv.FormatInt(saved.Deadline-time.Now().Unix(), 10))
	}
	deadline := time.Now().Unix()
	if n, err := strconv.Atoi(lib.Env("VERIF_DEADLINE_S", "120")); err == nil {
		deadline += int64(n)
	}
	c := lib.New(id)
	if saved != nil {
		c.R = saved.R
		deadline = saved.Deadline
	}
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	resume, absDeadline = saved, deadline
	synctest.Test(t, func(t *testing.T) {
		f(c, t)
		c.Write()
		os.Exit(0) // bodies that were left behind are still there
	})
}

// state is an exploration that is under way. Ginkgo leaves the goroutine of a node behind that does
// not stop when it is interrupted; as they add up, Ginkgo's own stack dumps become slow. The
// exploration is therefore carried on in a fresh image of this process now and then.
type state struct {
	Fixture  int
	Stack    [][]int
	Seen     []uint64
	R        lib.Result
	Deadline int64
}

var resume *state
var absDeadline int64

func load(f string) *state {
	fd, err := os.Open(f)
	if err != nil {
		panic(err)
	}
	defer fd.Close()
	var s state
	if err := gob.NewDecoder(fd).Decode(&s); err != nil {
		panic(err)
	}
	return &s
}

func reexec(s *state) {
	f := filepath.Join(lib.Env("VERIF_TMP", os.TempDir()), "resume"+strconv.Itoa(os.Getpid()))
	fd, err := os.Create(f)
	if err != nil {
		return
	}
	s.R.Samples = nil
	if err := gob.NewEncoder(fd).Encode(s); err != nil {
		panic(err)
	}
	fd.Close()
	os.Setenv("PAR_RESUME", f)
	panic(syscall.Exec("/proc/self/exe", os.Args, os.Environ()))
}

// each explores those of the fixtures that are this shard's.
func each(c *lib.Ctx, fixtures []*Fixture, check func(*Fixture) func(w *world, complete bool) (sig, detail string)) {
	for i, fx := range fixtures {
		if c.Stop() {
			return
		}
		if !c.Mine() || (resume != nil && i < resume.Fixture) {
			continue
		}
		explore(c, i, fx, check(fx))
	}
}

// explore runs every interleaving of a fixture.
func explore(c *lib.Ctx, index int, fx *Fixture, check func(w *world, complete bool) (sig, detail string)) {
	seen := map[uint64]bool{}
	fresh := func(s string) bool {
		h := lib.Hash(s)
		if seen[h] {
			return false
		}
		seen[h] = true
		return true
	}
	stack := [][]int{nil}
	if resume != nil && resume.Fixture == index {
		stack = resume.Stack
		for _, h := range resume.Seen {
			seen[h] = true
		}
		resume = nil
	}
	maxStates := c.Pick(60000, 400000)
	for len(stack) > 0 && !c.Stop() {
		prefix := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		kase := fx.Name + " schedule=" + lib.IntsString(prefix)
		c.Case(kase)
		w, taken, widths, steps, complete := runOnce(fx, prefix, fresh)
		c.Add("executions", 1)
		c.Add("transitions", int64(len(taken)-len(prefix)+1))
		c.Max("steps in one history", int64(len(taken)))
		if complete {
			c.Add("complete histories", 1)
		}
		report := func(sig, detail string) {
			c.Violation(sig, kase, fx.Name+"\nsteps: "+strings.Join(steps, " ")+"\nhistory: "+w.history()+"\n"+detail)
		}
		if w.hung != "" {
			report("a process waits for ever", w.hung)
		}
		for _, p := range w.procs {
			if p.obs != nil && p.obs.Panicked != "" {
				report("a process panicked", p.obs.Panicked)
			}
		}
		if sig, detail := check(w, complete); sig != "" {
			report(sig, detail)
		} else if complete {
			c.Sample(map[string]any{"fixture": fx.Name, "steps": strings.Join(steps, " "), "history": w.history()})
		}
		for i := len(taken) - 1; i >= len(prefix); i-- {
			for v := widths[i] - 1; v >= 1; v-- {
				p := make([]int, i+1)
				copy(p, taken[:i])
				p[i] = v
				stack = append(stack, p)
			}
		}
		if runtime.NumGoroutine() > 50 {
			st := &state{Fixture: index, Stack: stack, R: c.R, Deadline: absDeadline}
			for h := range seen {
				st.Seen = append(st.Seen, h)
			}
			reexec(st)
		}
		if len(seen) > maxStates {
			c.R.Exhaustive = false
			c.Note("stopped exploring " + fx.Name + " at the state bound")
			break
		}
	}
	if os.Getenv("PAR_SIZES") != "" {
		println(len(seen), fx.Name)
	}
	c.Add("states", int64(len(seen)))
	c.Max("states of one fixture", int64(len(seen)))
}
