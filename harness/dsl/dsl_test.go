// Package dsl decides properties of how suites are written down: which programs are accepted, and what tree they make.
// os.Exit in the implementation is replaced by a stand-in, so that a rejected program ends a goroutine only.
package dsl

import (
	"bytes"
	"context"
	"io"
	"os"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/formatter"
	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/global"
	"github.com/onsi/ginkgo/v2/internal/interrupt_handler"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vos"
	"github.com/onsi/ginkgo/v2/reporters"
	"github.com/onsi/ginkgo/v2/types"
)

var checks = map[string]func(*lib.Ctx){}

func TestProperty(t *testing.T) {
	id := os.Getenv("VERIF_PROPERTY")
	c := lib.New(id)
	f, ok := checks[id]
	if !ok {
		t.Fatalf("unknown property %q", id)
	}
	f(c)
	c.Write()
}

// outcome is what a program did.
type outcome struct {
	exited   bool   // it asked to end the process
	code     int    //
	errs     string // what was printed on stderr
	panicked any    // it panicked outside of any node
	built    bool   // the tree was built
	success  bool
	specs    []types.SpecReport
}

type recReporter struct {
	reporters.NoopReporter
	o *outcome
}

func (r *recReporter) DidRun(s types.SpecReport) { r.o.specs = append(r.o.specs, s) }

type noInterrupts struct{}

func (noInterrupts) Status() interrupt_handler.InterruptStatus {
	return interrupt_handler.InterruptStatus{Channel: make(chan any)}
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// program declares a suite with decl (at the top level), builds the tree and, if run is set, runs it.
func program(decl func(), run bool) *outcome {
	o := &outcome{}
	buf := &lockedBuf{}
	oldErr, oldS, oldF := formatter.ColorableStdErr, global.Suite, global.Failer
	formatter.ColorableStdErr = buf
	global.InitializeGlobals()
	suite, failer := global.Suite, global.Failer
	exit := make(chan int, 1)
	vos.Hook = func(code int) {
		select {
		case exit <- code:
		default:
		}
		runtime.Goexit()
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { o.panicked = recover() }()
		decl()
		if err := suite.BuildTree(); err != nil {
			o.exited, o.code = true, 1 // (RunSpecs passes the error to exitIfErr)
			buf.Write([]byte(err.Error()))
			return
		}
		o.built = true
		if !run {
			return
		}
		w := internal.NewWriter(io.Discard)
		w.SetMode(internal.WriterModeBufferOnly)
		o.success, _ = suite.Run("suite", nil, "/path", failer, &recReporter{o: o}, w, internal.NoopOutputInterceptor{}, noInterrupts{}, nil,
			func(func()) context.CancelFunc { return func() {} }, types.SuiteConfig{RandomSeed: 1, ParallelTotal: 1, ParallelProcess: 1, GracePeriod: 30 * time.Second})
	}()
	<-done
	select {
	case o.code = <-exit:
		o.exited = true
	default:
	}
	formatter.ColorableStdErr, global.Suite, global.Failer = oldErr, oldS, oldF
	vos.Hook = nil
	o.errs = ansi.ReplaceAllString(buf.String(), "")
	return o
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func oneline(s string) string { return strings.ReplaceAll(s, "\n", "⏎") }
