package cli

import (
	"fmt"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"

	"github.com/onsi/ginkgo/v2/ginkgo/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
)

func init() { checks["C26"] = c26 }

var positions = [][2]int{{1, 1}, {1, 5}, {2, 1}, {2, 5}, {10, 3}}

type block struct{ a, b int } // positions

func (k block) String() string {
	p, q := positions[k.a], positions[k.b]
	return fmt.Sprintf("%d.%d,%d.%d", p[0], p[1], q[0], q[1])
}

func overlap(x, y block) bool {
	return x != y && (x.a == y.a || x.a < y.a && y.a < x.b || y.a < x.a && x.a < y.b)
}

// one line of a profile
type line struct {
	file  string
	k     block
	stmts int
	count int
}

type prof struct {
	mode  string
	lines []line
}

func (p prof) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "mode: %s\n", p.mode)
	for _, l := range p.lines {
		fmt.Fprintf(&b, "%s:%s %d %d\n", l.file, l.k, l.stmts, l.count)
	}
	return b.String()
}

// merged is what merging should give: the text, or "" if it cannot be done.
func merged(ps []prof) (string, bool) {
	type key struct {
		file string
		k    block
	}
	count, stmts := map[key]int{}, map[key]int{}
	mode := ""
	for _, p := range ps {
		if len(p.lines) == 0 {
			continue
		}
		if mode != "" && p.mode != mode {
			return "", false
		}
		mode = p.mode
		for _, l := range p.lines {
			k := key{l.file, l.k}
			if mode == "set" {
				count[k] = max(count[k], l.count)
			} else {
				count[k] += l.count
			}
			stmts[k] = l.stmts
		}
	}
	ks := slices.Collect(maps.Keys(count))
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].file != ks[j].file {
			return ks[i].file < ks[j].file
		}
		return ks[i].k.a < ks[j].k.a
	})
	for i, x := range ks {
		for _, y := range ks[:i] {
			if x.file == y.file && overlap(x.k, y.k) {
				return "", false
			}
		}
	}
	if mode == "" {
		return "", true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "mode: %s\n", mode)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s:%s %d %d\n", k.file, k.k, stmts[k], count[k])
	}
	return b.String(), true
}

func merge(ps []prof) (string, error) {
	var fs []string
	for i, p := range ps {
		f := filepath.Join(tmp, fmt.Sprintf("in%d", i))
		must(os.WriteFile(f, []byte(p.String()), 0o644))
		fs = append(fs, f)
	}
	dst := filepath.Join(tmp, "merged")
	os.Remove(dst)
	if err := internal.MergeAndCleanupCoverProfiles(fs, dst); err != nil {
		return "", err
	}
	b, err := os.ReadFile(dst)
	return string(b), err
}

// profileOf is the profile that a process of a suite writes.
func profileOf(name, proc string) prof {
	n := len(name) + int(name[0]) + 10*int(proc[0])
	return prof{mode: "count", lines: []line{{"common.go", block{0, 1}, 1, n}, {"common.go", block{1 + n%2, 2 + n%2}, 2, 1 + n%3}, {name + ".go", block{0, 4}, 4, n % 2}}}
}

func sorted(s string) string {
	l := strings.Split(s, "\n")
	slices.Sort(l)
	return strings.Join(l, "\n")
}

// profiles compares the profiles found after an invocation with what they should be.
func (v invocation) profiles(w string, names []string, e expectation) string {
	dir := w
	if v.outdir {
		dir = filepath.Join(w, "out")
	}
	procs := max(1, v.procs)
	of := func(n string) []prof {
		if e.final[n] != "passed" && e.final[n] != "failed" || strings.ContainsRune("FxX", rune(e.last[n])) {
			return nil
		}
		var ps []prof
		for i := 1; i <= procs; i++ {
			ps = append(ps, profileOf(n, fmt.Sprint(i)))
		}
		return ps
	}
	check := func(f string, ps []prof) string {
		got, err := os.ReadFile(f)
		if len(ps) == 0 {
			return ""
		}
		if err != nil {
			return "there is no cover profile " + strings.TrimPrefix(f, w)
		}
		var lines []prof
		for _, p := range ps {
			p.lines = slices.Clone(p.lines)
			lines = append(lines, p)
		}
		if want, ok := merged(lines); ok && sorted(string(got)) != sorted(want) {
			return fmt.Sprintf("the cover profile %s is wrong: got\n%s\nshould be\n%s", strings.TrimPrefix(f, w), got, want)
		}
		return ""
	}
	var all []prof
	for _, n := range names {
		crashed := procs > 1 && e.last[n] == 'X' // the process that lived has a profile
		if crashed {
			return ""
		}
		all = append(all, of(n)...)
		if v.separate {
			f := filepath.Join(w, n, "coverprofile.out")
			if v.outdir {
				f = filepath.Join(dir, n+"_coverprofile.out")
			}
			if s := check(f, of(n)); s != "" {
				return s
			}
		}
	}
	if !v.separate {
		return check(filepath.Join(dir, "coverprofile.out"), all)
	}
	return ""
}

func c26(c *lib.Ctx) {
	for _, procs := range []int{1, 2} {
		for n := 1; n <= 2+c.Pick(0, 1); n++ {
			alpha := "pfFxce"
			if procs == 2 {
				alpha = "pfFce"
			}
			dims := slices.Repeat([]int{len(alpha)}, n)
			lib.Product(dims, func(x []int) bool {
				var p []string
				for _, i := range x {
					p = append(p, alpha[i:i+1])
				}
				for flags := 0; flags < 8; flags++ {
					v := invocation{plans: p, procs: procs, cover: true, keep: flags&1 != 0, outdir: flags&2 != 0, separate: flags&4 != 0, sepcov: flags&4 != 0}
					if !c.Mine() || c.Stop() || !c.Only(v.String()) {
						continue
					}
					c.Case(v.String())
					sig, detail := v.check(c, "300ms")
					c.Add("executions", 1)
					c.Add("invocations of the tool", 1)
					if sig != "" {
						c.Violation(sig, v.String(), detail)
					}
				}
				return true
			})
		}
	}
	c.Bound("invocations", "1-2 (thorough: 3) suites, serial and in two processes, that pass, fail, crash, are focused, do not compile or are empty; keep-going, output-dir, keep-separate-coverprofiles")
	try := func(ps []prof) {
		if c.Stop() || !c.Mine() {
			return
		}
		var in []string
		for _, p := range ps {
			in = append(in, strings.ReplaceAll(p.String(), "\n", "; "))
		}
		kase := strings.Join(in, " + ")
		if !c.Only(kase) {
			return
		}
		c.Case(kase)
		want, ok := merged(ps)
		got, err := merge(ps)
		c.Add("executions", 1)
		switch {
		case ok && err != nil:
			c.Violation("profiles that can be merged are refused", kase, err.Error())
		case !ok && err == nil:
			c.Violation("profiles that cannot be merged are merged", kase, got)
		case got != want:
			c.Violation("the merged profile is wrong", kase, "got\n"+got+"\nshould be\n"+want)
		}
		if c.Distinct("states", want) && ok && want != "" { // merged once more, it stays as it is
			f := filepath.Join(tmp, "again")
			must(os.WriteFile(f, []byte(got), 0o644))
			must(internal.MergeAndCleanupCoverProfiles([]string{f}, f+"2"))
			if b, _ := os.ReadFile(f + "2"); string(b) != got && got == want {
				c.Violation("dumping and parsing again changes the profile", kase, "from\n"+got+"\nto\n"+string(b))
			}
		}
	}
	var blocks []block
	for a := range positions {
		for b := a; b < len(positions); b++ {
			blocks = append(blocks, block{a, b})
		}
	}
	// every set of blocks of one file that do not overlap
	var sets [][]block
	var rec func(from int, s []block)
	rec = func(from int, s []block) {
		sets = append(sets, slices.Clone(s))
		for i := from; i < len(blocks); i++ {
			ok := true
			for _, x := range s {
				ok = ok && !overlap(x, blocks[i])
			}
			if ok {
				rec(i+1, append(s, blocks[i]))
			}
		}
	}
	rec(0, nil)
	c.Bound("sets of blocks", fmt.Sprint(len(sets)))
	fill := func(s []block, file, mode string, pattern int) prof {
		p := prof{mode: mode}
		for i, k := range s {
			n := (pattern >> i) & 1
			if mode != "set" {
				n *= 3 + i
			}
			p.lines = append(p.lines, line{file, k, 1 + k.b - k.a, n})
		}
		return p
	}
	modes := []string{"set", "count", "atomic"}
	// two profiles of one file
	for _, s := range sets {
		for _, t := range sets {
			for _, pt := range [][2]int{{-1, -1}, {5, -1}, {0, 6}} {
				try([]prof{fill(s, "f.go", "set", pt[0]), fill(t, "f.go", "set", pt[1])})
				try([]prof{fill(s, "f.go", "count", pt[0]), fill(t, "f.go", "count", pt[1])})
			}
		}
	}
	small := sets[:0:0]
	for _, s := range sets {
		if len(s) <= c.Pick(1, 2) {
			small = append(small, s)
		}
	}
	c.Bound("sets of blocks of three profiles", fmt.Sprint(len(small)))
	for _, s := range small {
		for _, t := range small {
			for _, u := range small {
				for _, m := range []string{"set", "atomic"} {
					try([]prof{fill(s, "f.go", m, -1), fill(t, "f.go", m, 2), fill(u, "f.go", m, -1)})
				}
			}
		}
	}
	// several files, in every distribution over three profiles: profile i has the files of its mask
	files := []string{"a.go", "b.go", "pkg/a.go"}
	lib.Product([]int{8, 8, 8, 2, 6}, func(x []int) bool {
		var ps []prof
		for i := 0; i < 3; i++ {
			p := prof{mode: modes[x[3]*2]}
			for f := range files {
				if x[i]>>f&1 == 1 {
					for j, k := range [][]block{{{0, 1}, {1, 2}, {3, 4}}, {{1, 2}}, {{0, 1}, {2, 4}}, {{0, 1}, {1, 2}}, {}, {{3, 4}}}[(i*f+x[4])%6] {
						n := 1
						if p.mode != "set" {
							n = i + j + f
						}
						p.lines = append(p.lines, line{files[f], k, 1 + j, n})
						p.lines[len(p.lines)-1].stmts = 1 + k.b - k.a
					}
				}
			}
			if x[4]%2 == 1 {
				slices.Reverse(p.lines) // in any order
			}
			ps = append(ps, p)
		}
		try(ps)
		return true
	})
	// modes
	lib.Product([]int{3, 3, 2, 2, 2}, func(x []int) bool {
		s := [][]block{{{0, 1}}, {}}
		try([]prof{fill(s[x[2]], "f.go", modes[x[0]], -1), fill(s[x[3]], []string{"f.go", "g.go"}[x[4]], modes[x[1]], -1)})
		return true
	})
	// a block listed several times in one profile
	for _, m := range modes {
		for n := 0; n < 4; n++ {
			p := prof{mode: m}
			for i := 0; i <= n; i++ {
				v := i % 2
				if m != "set" {
					v = i
				}
				p.lines = append(p.lines, line{"f.go", block{0, 2}, 1, v}, line{"f.go", block{2, 3}, 1, 0})
			}
			try([]prof{p})
			try([]prof{p, p})
		}
	}
	c.Bound("profiles", "two profiles of one file: all sets of blocks over five positions x counts; three: sets of limited size; three files in every distribution over three profiles; all pairs of modes")
}
