// Package lib is the common part of the verification harnesses: enumeration
// (choice trees with a deviation bound), sharding, deadlines, and the result
// file that /verif/tools/vrun merges into evidence.
package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type Violation struct {
	Sig    string `json:"sig"`    // stable identification of what fails
	Case   string `json:"case"`   // the input / schedule / history that fails
	Detail string `json:"detail"` // what was observed and what was expected
	Sub    string `json:"sub,omitempty"`
}

type Result struct {
	Property   string            `json:"property"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []any             `json:"samples"`
	Violations []Violation       `json:"violations"`
	NumViol    int64             `json:"num_violations"`
	Exhaustive bool              `json:"exhaustive"`
	Notes      []string          `json:"notes"`
	Bounds     map[string]string `json:"bounds"`
}

type Ctx struct {
	R        Result
	Tier     string
	Shard    int
	NShards  int
	Deadline time.Time
	replay   string
	idx      int64
	mu       sync.Mutex
	sigs     map[string]int
	late     atomic.Bool
	expired  bool
	seen     map[uint64]struct{}
	caseMem  []byte
	ticks    atomic.Int64
	caseStr  atomic.Pointer[string]
}

func Env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func New(property string) *Ctx {
	c := &Ctx{}
	c.R.Property = property
	c.R.Counters = map[string]int64{}
	c.R.Bounds = map[string]string{}
	c.R.Exhaustive = true
	c.Tier = Env("VERIF_TIER", "quick")
	c.NShards = 1
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		p := strings.Split(s, "/")
		c.Shard, _ = strconv.Atoi(p[0])
		c.NShards, _ = strconv.Atoi(p[1])
	}
	secs, _ := strconv.Atoi(Env("VERIF_DEADLINE_S", "120"))
	c.Deadline = time.Now().Add(time.Duration(secs) * time.Second)
	c.replay = os.Getenv("VERIF_REPLAY_CASE")
	c.sigs = map[string]int{}
	c.seen = map[uint64]struct{}{}
	if f := os.Getenv("VERIF_CASE_FILE"); f != "" {
		if fd, err := os.Create(f); err == nil {
			fd.Truncate(4096)
			if m, err := syscall.Mmap(int(fd.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.caseMem = m
			}
			fd.Close()
		}
	}
	go c.watch()
	return c
}

// Case says what is about to be executed, so that a crash or a hang can be attributed.
func (c *Ctx) Case(s string) {
	c.ticks.Add(1)
	c.caseStr.Store(&s)
	if c.caseMem != nil {
		n := copy(c.caseMem[:4095], s)
		c.caseMem[n] = 0
	}
}

// HangLimit is how long one execution (normally well under a millisecond) may take before it counts as hanging.
var HangLimit = 100 * time.Second

func (c *Ctx) watch() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		if time.Now().After(c.Deadline) {
			c.late.Store(true)
		}
		if n := c.ticks.Load(); n != last {
			last, since = n, time.Now()
			continue
		}
		if last > 0 && time.Since(since) > HangLimit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Violation("the execution does not end", *c.caseStr.Load(), fmt.Sprintf("no progress for %v\n%s", HangLimit, buf))
			c.R.Exhaustive = false
			c.Write()
			os.Exit(0)
		}
	}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// SkipMine passes over n cases.
func (c *Ctx) SkipMine(n int) { c.idx += int64(n) }

// Mine deals out the top-level cases of an enumeration over the shards.
func (c *Ctx) Mine() bool {
	i := c.idx
	c.idx++
	n := int64(c.NShards) // (not simply i%n: neighbours follow a pattern)
	return int((i+i/n+i/(n*n)+i/(n*n*n))%n) == c.Shard
}

// Expired reports whether the run is out of time; the run is then no longer exhaustive.
func (c *Ctx) Expired() bool {
	if c.expired {
		return true
	}
	// (in a synctest bubble time.Now is not the real time)
	var tv syscall.Timeval
	if c.late.Load() || (syscall.Gettimeofday(&tv) == nil && tv.Sec > c.Deadline.Unix()) {
		c.expired = true
		c.R.Exhaustive = false
		c.Note("stopped at the deadline before the enumeration was complete")
	}
	return c.expired
}

func (c *Ctx) Add(name string, n int64) { c.mu.Lock(); c.R.Counters[name] += n; c.mu.Unlock() }

func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if c.R.Counters["max:"+name] < n {
		c.R.Counters["max:"+name] = n
	}
	c.mu.Unlock()
}

// Distinct counts, under the given counter, values that were not seen before in this shard.
func (c *Ctx) Distinct(counter string, s string) bool {
	h := Hash(counter + "\x00" + s)
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.seen[h]; ok {
		return false
	}
	c.seen[h] = struct{}{}
	c.R.Counters[counter]++
	return true
}

func Hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.R.Samples) < 4 {
		c.R.Samples = append(c.R.Samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Note(s string) {
	c.mu.Lock()
	if len(c.R.Notes) < 20 {
		c.R.Notes = append(c.R.Notes, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Bound(k, v string) { c.R.Bounds[k] = v }

func (c *Ctx) Violation(sig, kase, detail string) {
	if c.replay != "" && c.replay != kase {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.R.NumViol++
	c.sigs[sig]++
	if c.sigs[sig] > 2 || len(c.R.Violations) > 40 {
		return
	}
	if len(detail) > 6000 {
		detail = detail[:6000] + "...(truncated)"
	}
	c.R.Violations = append(c.R.Violations, Violation{Sig: sig, Case: kase, Detail: detail})
}

// TooMany says that there is no point in collecting more.
func (c *Ctx) TooMany() bool { return len(c.R.Violations) >= 20 || c.R.NumViol > 3000 }

func (c *Ctx) Stop() bool { return c.Expired() || c.TooMany() }

// Only reports whether the case is to be run (always, unless a single case is being replayed).
func (c *Ctx) Only(kase string) bool { return c.replay == "" || c.replay == kase }

func (c *Ctx) Write() {
	out := os.Getenv("VERIF_OUT")
	b, _ := json.MarshalIndent(c.R, "", " ")
	if out == "" {
		fmt.Println(string(b))
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println("cannot write result:", err)
		os.Exit(3)
	}
}

/* ---------- choice trees ---------- */

// Chooser replays a prefix of choices and takes option 0 afterwards.
type Chooser struct {
	prefix []int
	Trace  []int
	ns     []int
	costs  []func(int) int
	dev    int
}

// Choose returns one of 0..n-1; option 0 is the default, any other costs one deviation.
func (c *Chooser) Choose(n int) int { return c.ChooseCost(n, nil) }

// ChooseCost is Choose with a cost per option (option 0 must cost 0 for the bound to make sense).
func (c *Chooser) ChooseCost(n int, cost func(int) int) int {
	i := len(c.Trace)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			panic(fmt.Sprintf("replay divergence: choice %d wants %d of %d", i, v, n))
		}
	}
	c.Trace = append(c.Trace, v)
	c.ns = append(c.ns, n)
	c.costs = append(c.costs, cost)
	c.dev += costOf(cost, v)
	return v
}

func costOf(f func(int) int, v int) int {
	if f != nil {
		return f(v)
	}
	if v == 0 {
		return 0
	}
	return 1
}

func (c *Chooser) String() string { return IntsString(c.Trace) }

func IntsString(xs []int) string {
	// trailing zeros are defaults
	n := len(xs)
	for n > 0 && xs[n-1] == 0 {
		n--
	}
	s := make([]string, n)
	for i := 0; i < n; i++ {
		s[i] = strconv.Itoa(xs[i])
	}
	return strings.Join(s, ".")
}

func ParseInts(s string) []int {
	out := []int{}
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, ".") {
		v, _ := strconv.Atoi(p)
		out = append(out, v)
	}
	return out
}

func NewChooser(prefix []int) *Chooser { return &Chooser{prefix: prefix} }

// Explore runs every choice sequence whose total deviation cost is at most maxDev,
// each exactly once (depth-first). It returns the number of runs; run returns false to stop.
func Explore(maxDev int, run func(*Chooser) bool) int64 {
	type item struct{ prefix []int }
	stack := []item{{nil}}
	var n int64
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		ch := &Chooser{prefix: it.prefix}
		ok := run(ch)
		n++
		if !ok {
			return n
		}
		// branch on every choice made after the prefix
		dev := 0
		for i := 0; i < len(it.prefix) && i < len(ch.Trace); i++ {
			dev += costOf(ch.costs[i], ch.Trace[i])
		}
		for i := len(it.prefix); i < len(ch.Trace); i++ {
			for v := ch.ns[i] - 1; v >= 1; v-- {
				if maxDev >= 0 && dev+costOf(ch.costs[i], v) > maxDev {
					continue
				}
				p := make([]int, i+1)
				copy(p, ch.Trace[:i])
				p[i] = v
				stack = append(stack, item{p})
			}
			dev += costOf(ch.costs[i], ch.Trace[i])
		}
	}
	return n
}

/* ---------- small helpers ---------- */

// Product enumerates all tuples with 0<=t[i]<dims[i].
func Product(dims []int, f func([]int) bool) bool {
	t := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return true
		}
	}
	for {
		if !f(t) {
			return false
		}
		i := len(dims) - 1
		for i >= 0 {
			t[i]++
			if t[i] < dims[i] {
				break
			}
			t[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// Permutations calls f with every permutation of 0..n-1.
func Permutations(n int, f func([]int) bool) bool {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(p)
		}
		for v := 0; v < n; v++ {
			if used[v] {
				continue
			}
			used[v] = true
			p[i] = v
			if !rec(i + 1) {
				return false
			}
			used[v] = false
		}
		return true
	}
	return rec(0)
}

func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Diff describes the first difference between two traces.
func Diff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "<end>", "<end>"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			return fmt.Sprintf("position %d: got %q, want %q\n got: %s\nwant: %s", i, g, w, strings.Join(got, " | "), strings.Join(want, " | "))
		}
	}
	return ""
}
