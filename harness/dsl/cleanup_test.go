package dsl

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

type cleanupFn struct {
	name  string
	make_ func(got func(ctx bool, args ...any), fails bool) any
	in    []string // the types of its parameters after the context
	vari  bool
	ctx   bool
	own   bool // the context is a context.Context
	err   bool // it can return an error
}

var errCleanup = errors.New("the cleanup failed")

func errIf(b bool) error {
	if b {
		return errCleanup
	}
	return nil
}

var cleanupFns = []cleanupFn{
	{"func()", func(g func(bool, ...any), f bool) any { return func() { g(false) } }, nil, false, false, false, false},
	{"func() error", func(g func(bool, ...any), f bool) any { return func() error { g(false); return errIf(f) } }, nil, false, false, false, true},
	{"func() (int, error)", func(g func(bool, ...any), f bool) any { return func() (int, error) { g(false); return 1, errIf(f) } }, nil, false, false, false, true},
	{"func() int", func(g func(bool, ...any), f bool) any { return func() int { g(false); return 1 } }, nil, false, false, false, false},
	{"func(string)", func(g func(bool, ...any), f bool) any { return func(s string) { g(false, s) } }, []string{"string"}, false, false, false, false},
	{"func(string, int) error", func(g func(bool, ...any), f bool) any {
		return func(s string, i int) error { g(false, s, i); return errIf(f) }
	}, []string{"string", "int"}, false, false, false, true},
	{"func(...string)", func(g func(bool, ...any), f bool) any {
		return func(ss ...string) {
			var a []any
			for _, s := range ss {
				a = append(a, s)
			}
			g(false, a...)
		}
	}, []string{"string"}, true, false, false, false},
	{"func(any)", func(g func(bool, ...any), f bool) any { return func(x any) { g(false, x) } }, []string{"any"}, false, false, false, false},
	{"func(error) error", func(g func(bool, ...any), f bool) any { return func(e error) error { g(false, e); return errIf(f) } }, []string{"error"}, false, false, false, true},
	{"func(*int)", func(g func(bool, ...any), f bool) any { return func(p *int) { g(false, p) } }, []string{"*int"}, false, false, false, false},
	{"func(SpecContext) error", func(g func(bool, ...any), f bool) any {
		return func(c ginkgo.SpecContext) error { g(c != nil); return errIf(f) }
	}, nil, false, true, false, true},
	{"func(Context)", func(g func(bool, ...any), f bool) any { return func(c context.Context) { g(isSpecContext(c)) } }, nil, false, true, true, false},
	{"func(SpecContext, string)", func(g func(bool, ...any), f bool) any {
		return func(c ginkgo.SpecContext, s string) { g(c != nil, s) }
	}, []string{"string"}, false, true, false, false},
	{"func(Context, *int) error", func(g func(bool, ...any), f bool) any {
		return func(c context.Context, p *int) error { g(isSpecContext(c), p); return errIf(f) }
	}, []string{"*int"}, false, true, true, true},
	{"func(Context, ...string)", func(g func(bool, ...any), f bool) any {
		return func(c context.Context, ss ...string) {
			var a []any
			for _, s := range ss {
				a = append(a, s)
			}
			g(isSpecContext(c), a...)
		}
	}, []string{"string"}, true, true, true, false},
}

func isSpecContext(c context.Context) bool { _, ok := c.(ginkgo.SpecContext); return ok }

var theInt = 5

type ctxKey struct{}

var ownCtx = context.WithValue(context.Background(), ctxKey{}, "own")

type cleanupArg struct {
	name string
	val  any
	fits []string
}

var cleanupArgs = []cleanupArg{
	{"string", "a", []string{"string", "any"}},
	{"int", 7, []string{"int", "any"}},
	{"nil", nil, []string{"any", "error", "*int"}},
	{"*int", &theInt, []string{"*int", "any"}},
	{"error", errCleanup, []string{"error", "any"}},
	{"context", ownCtx, []string{"any"}},
}

func fits(a cleanupArg, t string) bool {
	for _, f := range a.fits {
		if f == t {
			return true
		}
	}
	return false
}

// c31cleanups: DeferCleanup calls the function it is given with the arguments it is given.
func c31cleanups(c *lib.Ctx) {
	na := len(cleanupArgs)
	c.Bound("DeferCleanup", fmt.Sprintf("%d types of functions x every list of up to 2 arguments of %d kinds x success or error, from a spec, BeforeAll and BeforeSuite, and what is not a function", len(cleanupFns), na))
	var lists [][]int
	lists = append(lists, nil)
	for i := 0; i < na; i++ {
		lists = append(lists, []int{i})
		for j := 0; j < na; j++ {
			lists = append(lists, []int{i, j})
		}
	}
	for _, fn := range cleanupFns {
		for _, l := range lists {
			for _, fails := range []bool{false, true} {
				for host := 0; host < 3; host++ {
					if !c.Mine() || c.Stop() || fails && !fn.err {
						continue
					}
					var args []any
					var names []string
					for _, i := range l {
						args = append(args, cleanupArgs[i].val)
						names = append(names, cleanupArgs[i].name)
					}
					kase := fmt.Sprintf("DeferCleanup %s (%s) fails=%v from %d", fn.name, strings.Join(names, ", "), fails, host)
					if !c.Only(kase) {
						continue
					}
					c.Add("evaluations", 1)
					c.Add("states", 1)
					c.Case(kase)
					// what is to happen
					rest, wantSpecCtx := l, fn.ctx
					if fn.own && len(l) > 0 && cleanupArgs[l[0]].name == "context" {
						rest, wantSpecCtx = l[1:], false // the caller's own context is used
					}
					unclear := false
					ok := len(rest) == len(fn.in) || fn.vari && len(rest) >= len(fn.in)-1
					for i := 0; ok && i < len(rest); i++ {
						t := fn.in[min(i, len(fn.in)-1)]
						ok = fits(cleanupArgs[rest[i]], t)
						// (nil for a type without nil: as zero value, as in tables, or not at all)
						unclear = unclear || cleanupArgs[rest[i]].val == nil && !ok
					}
					if unclear {
						continue
					}
					var wantArgs []any
					for _, i := range rest {
						wantArgs = append(wantArgs, cleanupArgs[i].val)
					}
					calls := 0
					var gotArgs []any
					gotCtx := false
					cb := fn.make_(func(ctx bool, a ...any) { calls++; gotCtx, gotArgs = ctx, a }, fails)
					reg := func() { ginkgo.DeferCleanup(append(append([]any{cb}, args...), at(7))...) }
					o := program(func() {
						switch host {
						case 0:
							ginkgo.It("host", reg)
						case 1:
							ginkgo.Describe("o", ginkgo.Ordered, func() { ginkgo.BeforeAll(reg); ginkgo.It("i", nop) })
						case 2:
							ginkgo.BeforeSuite(reg)
							ginkgo.It("i", nop)
						}
					}, true)
					if !judge(c, kase, o, nil) {
						continue
					}
					var fs []types.Failure
					for _, s := range o.specs {
						if s.Failed() {
							fs = append(fs, s.Failure)
						}
					}
					if !ok { // it cannot be called: this is a failure of the spec
						if o.success || len(fs) == 0 || calls > 0 {
							c.Violation("a cleanup that cannot be called does not fail", kase, fmt.Sprint(calls, o.success, fs))
						}
						continue
					}
					if calls != 1 || gotCtx != wantSpecCtx || len(gotArgs) != len(wantArgs) {
						c.Violation("a cleanup function is not called as it should be", kase, fmt.Sprintf("%d calls, given SpecContext %v, args %v; want %v %v; %v", calls, gotCtx, gotArgs, wantSpecCtx, wantArgs, fs))
						continue
					}
					for i, w := range wantArgs {
						g := gotArgs[i]
						if g == nil || reflect.ValueOf(g).Kind() == reflect.Pointer && reflect.ValueOf(g).IsNil() && w == nil {
							g = nil
						}
						if g != w {
							c.Violation("a cleanup function gets another argument", kase, fmt.Sprint(gotArgs))
						}
					}
					if fails != !o.success || fails && (len(fs) != 1 || !strings.Contains(fs[0].Message, errCleanup.Error()) || fs[0].Location.LineNumber != 7) {
						c.Violation("an error returned by a cleanup function is not a failure at its place", kase, fmt.Sprint(o.success, fs))
					}
				}
			}
		}
	}
	for name, v := range map[string]any{"nothing": nil, "a string": "x", "a struct": unknown{}} {
		if c.Shard != 0 {
			break
		}
		kase := "DeferCleanup " + name
		if !c.Only(kase) {
			continue
		}
		c.Add("evaluations", 1)
		c.Case(kase)
		o := program(func() {
			ginkgo.It("host", func() {
				if name == "nothing" {
					ginkgo.DeferCleanup(at(7))
				} else {
					ginkgo.DeferCleanup(v, at(7))
				}
			})
		}, true)
		judge(c, kase, o, []rejection{{heading(ge.DeferCleanupInvalidFunction(nocl)), loc(7)}})
	}
}
