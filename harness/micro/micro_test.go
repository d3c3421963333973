// Package micro explores the interleavings of the implementation's own threads: the code is instrumented with
// scheduling points (tools/vrun/micro.go) and run under package vsched's scheduler, depth-first over all schedules
// within a bound on preemptions.
package micro

import (
	"os"
	"os/signal"
	"syscall"
	"testing"
	"testing/synctest"

	engine "github.com/onsi/ginkgo/v2/internal/zzverif/explore"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
)

var checks = map[string]func(*lib.Ctx){}

func TestProperty(t *testing.T) {
	signal.Notify(make(chan os.Signal, 1), syscall.SIGUSR2)
	id := os.Getenv("VERIF_PROPERTY")
	c := lib.New(id)
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	synctest.Test(t, func(t *testing.T) {
		f(c)
		c.Write()
		os.Exit(0)
	})
}

// scenario is a set of threads; judge looks at the outcome once all have ended.
type scenario struct {
	name  string
	bound int  // preemptions
	delay bool // delays (deviations from the default order) instead of preemptions
	setup func(s *vsched.S) (judge func(s *vsched.S) (sig, detail string))
	obs   func() string // what was observed, for counting distinct outcomes
}

func explore(c *lib.Ctx, sc scenario) {
	engine.Run(c, engine.Scenario{Name: sc.name, Bound: sc.bound, Delay: sc.delay, Setup: sc.setup, Obs: sc.obs})
}
