// vrun runs one check: it builds the harness for a property against /repo's
// working tree (the harness sources are laid over it with go's -overlay, so
// /repo itself is not touched), runs it in parallel shards, merges what they
// explored into the evidence file, and reports violations.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	Sig    string `json:"sig"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Group  string `json:"group,omitempty"` // the group of harnesses that found it
}

type result struct {
	Property   string            `json:"property"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []any             `json:"samples"`
	Violations []violation       `json:"violations"`
	NumViol    int64             `json:"num_violations"`
	Exhaustive bool              `json:"exhaustive"`
	Notes      []string          `json:"notes"`
	Bounds     map[string]string `json:"bounds"`
}

type group struct {
	Root    string   // where the harness directories appear in /repo, default internal/zzverif
	Dir     string   // under harness/ and, in the overlay, under internal/zzverif/
	Pkg     string   // package path in /repo to build, default internal/zzverif/<Dir>
	Libs    []string // further harness directories
	Race    bool
	Shards  int // 0: number of CPUs
	MaxProc int // GOMAXPROCS of a shard, default 1
	NeedCLI bool
	Instr   []target // what is instrumented for schedule exploration
}

var groups = map[string]group{
	"spec":  {Dir: "spec", Libs: []string{"fix"}},
	"pure":  {Dir: "pure", Libs: []string{"fix"}},
	"trans": {Dir: "trans"},
	"dsl":   {Dir: "dsl", Libs: []string{"vos"}, Instr: []target{{Path: ".", Swap: map[string]string{"os.Exit": "vos"}}}},
	"tool":  {Dir: "tool", Root: "ginkgo/zzverif"},
	"watch": {Dir: "watch", Root: "ginkgo/zzverif", Libs: []string{"vwatch"}, Instr: []target{{Path: "ginkgo/watch", Swap: map[string]string{
		"github.com/onsi/ginkgo/v2/internal/interrupt_handler":                          "vwatch",
		"github.com/onsi/ginkgo/v2/ginkgo/internal.CompileSuite":                        "vwatch",
		"github.com/onsi/ginkgo/v2/ginkgo/internal.RunCompiledSuite":                    "vwatch",
		"github.com/onsi/ginkgo/v2/ginkgo/internal.Cleanup":                             "vwatch",
		"github.com/onsi/ginkgo/v2/ginkgo/internal.FinalizeProfilesAndReportsForSuites": "vwatch",
		"github.com/onsi/ginkgo/v2/ginkgo/internal.VerifyCLIAndFrameworkVersion":        "vwatch",
	}}}},
	"par":      {Dir: "par", Libs: []string{"fix"}},
	"timeline": {Dir: "timeline", Libs: []string{"fix"}},
	"compile":  {Dir: "compile", Root: "ginkgo/zzverif", Libs: []string{"vsched", "vsync", "vsignal", "vexec", "explore"}, Instr: []target{{Path: "ginkgo/internal/compile.go", Imports: map[string]string{"os/exec": "vexec"}, Mute: map[string]bool{"CompileSuite": true}}}},
	"cli":      {Dir: "cli", Root: "ginkgo/zzverif", NeedCLI: true},
	"micro":    {Dir: "micro", Libs: []string{"fix", "vsched", "vsync", "vsignal", "explore"}, Instr: []target{{Path: "internal", Skip: "progress_report."}, {Path: "internal/parallel_support"}, {Path: "internal/interrupt_handler"}}},
}

var repo = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func fatal(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vrun ID quick|thorough [REPLAYFILE]")
	}
	id, tier := os.Args[1], os.Args[2]
	if id == "overlay" { // for development: vrun overlay GROUP DIR
		os.MkdirAll(os.Args[3], 0o755)
		f, err := overlay(envOr("VERIF_DIR", "/verif"), os.Args[3], groups[tier])
		fmt.Println(f, err)
		return
	}
	verif := envOr("VERIF_DIR", "/verif")
	replay, only := "", ""
	if len(os.Args) > 3 {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fatal("%v", err)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		replay, only = v.Case, v.Group
	}
	p, ok := props[id]
	if !ok {
		fatal("unknown property %s", id)
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vrun-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	gs := strings.Split(p.Group, ",")
	var parts []part
	for _, g := range gs {
		if only == "" || only == g {
			d := filepath.Join(tmp, g)
			os.MkdirAll(d, 0o755)
			parts = append(parts, explore(id, tier, verif, d, replay, g, p, len(gs)))
		}
	}
	code := finish(id, tier, verif, p, parts, start)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func goTool() string {
	for _, g := range []string{"go", "/opt/veriftools/go1.27.3/bin/go", "go1.27", "go1.26", "go1.25"} {
		out, err := exec.Command(g, "env", "GOVERSION").Output()
		if err != nil {
			continue
		}
		v := strings.TrimSpace(string(out))
		v = strings.TrimPrefix(v, "go1.")
		n, _ := strconv.Atoi(strings.SplitN(v, ".", 2)[0])
		if n >= 25 {
			return g
		}
	}
	fatal("no go >= 1.25 found")
	return ""
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED="+envOr("CGO_ENABLED", "1"))
}

// overlay maps harness files into /repo's tree.
func overlay(verif, tmp string, g group) (string, error) {
	rep := map[string]string{}
	groot := g.Root
	if groot == "" {
		groot = "internal/zzverif"
	}
	dirs := append([]string{"lib", g.Dir}, g.Libs...)
	for _, d := range dirs {
		es, err := os.ReadDir(filepath.Join(verif, "harness", d))
		if err != nil {
			return "", err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				at := "internal/zzverif"
				if d == g.Dir {
					at = groot
				}
				rep[filepath.Join(repo, at, d, e.Name())] = filepath.Join(verif, "harness", d, e.Name())
			}
		}
	}
	// files that join an existing package: harness/inject/<group>/<path in repo>
	root := filepath.Join(verif, "harness", "inject", g.Dir)
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			rep[filepath.Join(repo, rel)] = p
		}
		return nil
	})
	if len(g.Instr) > 0 {
		if err := instrument(tmp, rep, g.Instr); err != nil {
			return "", err
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	f := filepath.Join(tmp, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}

// part is what the harnesses of one group found.
type part struct {
	group string
	m     *result
	n     int
	built time.Duration
}

// explore builds and runs the harnesses of one group.
func explore(id, tier, verif, tmp, replay, gname string, p prop, of int) part {
	g, start := groups[gname], time.Now()
	gt := goTool()
	ov, err := overlay(verif, tmp, g)
	if err != nil {
		fatal("overlay: %v", err)
	}
	pkg := g.Pkg
	if pkg == "" {
		pkg = "internal/zzverif/" + g.Dir
		if g.Root != "" {
			pkg = g.Root + "/" + g.Dir
		}
	}
	bin := filepath.Join(tmp, "harness.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin}
	if g.Race {
		args = append(args, "-race")
	}
	cmd := exec.Command(gt, append(args, "./"+pkg)...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("%s\n", out)
		fatal("the harness does not build: %v", err)
	}
	cli := ""
	if g.NeedCLI {
		cli = filepath.Join(tmp, "ginkgo")
		cmd := exec.Command(gt, "build", "-o", cli, "./ginkgo")
		cmd.Dir = repo
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			fmt.Printf("%s\n", out)
			fatal("ginkgo does not build: %v", err)
		}
	}
	built := time.Since(start)

	n := g.Shards
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
	}
	if p.Shards > 0 {
		n = p.Shards
	}
	deadline := 300
	if tier == "thorough" {
		deadline = 3600
	}
	if of > 1 {
		deadline = deadline * 5 / (4 * of)
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		deadline, _ = strconv.Atoi(s)
	}
	results := make([]*result, n)
	var crashes []violation
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			dir := filepath.Join(tmp, fmt.Sprintf("shard%d", i))
			os.MkdirAll(dir, 0o755)
			out := filepath.Join(dir, "result.json")
			cur := filepath.Join(dir, "case")
			var log bytes.Buffer
			cmd := exec.Command(bin, "-test.run", "^TestProperty$", "-test.timeout", "0")
			cmd.Dir = dir
			mp := g.MaxProc
			if mp == 0 {
				mp = 1
			}
			cmd.Env = append(goEnv(), "VERIF_PROPERTY="+id, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SHARD=%d/%d", i, n), "VERIF_OUT="+out, "VERIF_CASE_FILE="+cur,
				fmt.Sprintf("VERIF_DEADLINE_S=%d", deadline), "VERIF_REPLAY_CASE="+replay, fmt.Sprintf("GOMAXPROCS=%d", mp), "GOGC=300", "VERIF_CLI="+cli, "VERIF_TMP="+dir, "VERIF_GO="+gt, "VERIF_REPO="+repo, "VERIF_DIR="+verif, "NO_COLOR=")
			cmd.Stdout, cmd.Stderr = &log, &log
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			cmd.WaitDelay = 5 * time.Second
			if err := cmd.Start(); err != nil {
				fatal("%v", err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			hung := false
			select {
			case err = <-done:
			case <-time.After(time.Duration(deadline+240) * time.Second):
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
			}
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			b, rerr := os.ReadFile(out)
			var r result
			if rerr == nil && json.Unmarshal(b, &r) == nil {
				results[i] = &r
				return
			}
			c, _ := os.ReadFile(cur)
			c, _, _ = bytes.Cut(c, []byte{0})
			tail := log.Bytes()
			if len(tail) > 4000 {
				tail = append(append([]byte{}, tail[:2500]...), tail[len(tail)-1500:]...)
			}
			v := violation{Sig: "the process running the suite died", Case: string(c), Detail: fmt.Sprintf("%v\n%s", err, tail)}
			if hung {
				v.Sig = "the execution does not end"
			}
			mu.Lock()
			crashes = append(crashes, v)
			mu.Unlock()
		}(i)
	}
	wg.Wait()

	m := merge(results)
	m.Violations = append(m.Violations, crashes...)
	m.NumViol += int64(len(crashes))
	if len(crashes) > 0 {
		m.Exhaustive = false
	}
	for i := range m.Violations {
		m.Violations[i].Group = gname
	}
	return part{gname, m, n, built}
}

func finish(id, tier, verif string, p prop, parts []part, start time.Time) int {
	var ms []*result
	for _, x := range parts {
		r := *x.m
		r.Counters = map[string]int64{}
		for k, v := range x.m.Counters {
			r.Counters[k] = v
		}
		if len(parts) > 1 {
			for k, v := range x.m.Counters {
				r.Counters[x.group+": "+strings.TrimPrefix(k, "max:")] = v
				delete(r.Counters, k)
			}
			r.Bounds = map[string]string{}
			for k, v := range x.m.Bounds {
				r.Bounds[x.group+": "+k] = v
			}
		}
		for _, k := range [][]string{{"states", "distinct_traces"}, {"transitions", "steps"}, {"executions"}} {
			for _, s := range k {
				if v := x.m.Counters[s]; v > 0 {
					r.Counters[k[0]] = v
					break
				}
			}
		}
		ms = append(ms, &r)
	}
	m := merge(ms)
	var built time.Duration
	n := 0
	for _, x := range parts {
		built += x.built
		n = x.n
	}
	known := loadKnown(filepath.Join(verif, "known_findings.jsonl"))
	rdir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, id+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	fresh := 0
	seenKnown := map[string]bool{}
	printed := map[string]bool{}
	for i, v := range m.Violations {
		if k := known.match(id, v); k != "" {
			if !seenKnown[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			seenKnown[k] = true
			continue
		}
		fresh++
		if printed[v.Sig] || len(printed) >= 8 {
			continue
		}
		printed[v.Sig] = true
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		d := v.Detail
		if len(d) > 2500 {
			d = d[:2500] + "..."
		}
		fmt.Print(printable(fmt.Sprintf("  %s\n  case: %s\n  %s\n", v.Sig, v.Case, strings.ReplaceAll(d, "\n", "\n  "))))
	}
	writeEvidence(verif, id, tier, p, m, fresh, n, built, time.Since(start))
	fmt.Printf("property=%s tier=%s exhaustive=%v violations=%d wall=%.1fs %s\n", id, tier, m.Exhaustive, fresh, time.Since(start).Seconds(), counters(m.Counters))
	if fresh > 0 {
		return 1
	}
	return 0
}

func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' {
			return '?'
		}
		return r
	}, s)
}

func counters(c map[string]int64) string {
	var ks []string
	for k := range c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%s=%d", k, c[k]))
	}
	return strings.Join(s, " ")
}

func merge(rs []*result) *result {
	m := &result{Counters: map[string]int64{}, Exhaustive: true, Bounds: map[string]string{}}
	notes := map[string]bool{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		for k, v := range r.Counters {
			if strings.HasPrefix(k, "max:") {
				if v > m.Counters[k] {
					m.Counters[k] = v
				}
			} else {
				m.Counters[k] += v
			}
		}
		if len(m.Samples) < 6 {
			m.Samples = append(m.Samples, r.Samples...)
		}
		m.Violations = append(m.Violations, r.Violations...)
		m.NumViol += r.NumViol
		m.Exhaustive = m.Exhaustive && r.Exhaustive
		for _, x := range r.Notes {
			if !notes[x] {
				notes[x] = true
				m.Notes = append(m.Notes, x)
			}
		}
		for k, v := range r.Bounds {
			m.Bounds[k] = v
		}
	}
	return m
}

func writeEvidence(verif, id, tier string, p prop, m *result, viol, shards int, built, wall time.Duration) {
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	c := m.Counters
	first := func(ks ...string) int64 {
		for _, k := range ks {
			if c[k] > 0 {
				return c[k]
			}
		}
		return 0
	}
	traces := c["traces_validated_against_impl"]
	if traces == 0 {
		traces = c["executions"]
		for k, v := range c {
			if k == "schedules" || strings.HasSuffix(k, ": schedules") {
				traces += v
			}
		}
	}
	if len(m.Samples) == 0 {
		m.Samples = []any{"(no sample was kept by this run)"}
	}
	cov := map[string]any{
		"states":                        first("states", "distinct_traces", "distinct outcomes", "accepted", "executions"),
		"transitions":                   first("transitions", "steps", "executions"),
		"traces_validated_against_impl": traces,
		"samples":                       m.Samples,
		"exhaustive":                    m.Exhaustive,
		"counters":                      c,
		"bounds":                        m.Bounds,
		"rule":                          p.rule(),
		"shards":                        shards,
		"build_s":                       built.Seconds(),
	}
	if len(m.Notes) > 0 {
		cov["notes"] = m.Notes
	}
	e := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": p.assume(), "wall_s": wall.Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

/* ---------- known findings ---------- */

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Sig      string `json:"sig"`    // exact signature
	Case     string `json:"case"`   // if set, a substring the case must contain
	What     string `json:"what"`
}

type findings []finding

func loadKnown(f string) findings {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out findings
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var x finding
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			fatal("known findings: %v", err)
		}
		out = append(out, x)
	}
	return out
}

func (fs findings) match(id string, v violation) string {
	for _, f := range fs {
		if f.Status == "known" && f.Property == id && f.Sig == v.Sig && strings.Contains(v.Case, f.Case) {
			return f.What
		}
	}
	return ""
}
