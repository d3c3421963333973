package pure

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/onsi/ginkgo/v2"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func init() { checks["C07"] = c07 }

/* Oracle: a recursive-descent parser over tokens (the implementation is an
   operator-precedence tree surgery over characters), sets computed eagerly. */

type tok struct {
	text string // how it is written
	typ  byte   // 'a' atom, '!', '&', '|', '(', ')'
	// an atom's meaning
	eval func(labels []string) bool
}

func norm(s string) string { return strings.ToLower(strings.TrimSpace(s)) }

func setOf(key string, labels []string) map[string]bool {
	out := map[string]bool{}
	for _, l := range labels {
		if i := strings.IndexByte(l, ':'); i >= 0 && norm(l[:i]) == norm(key) {
			out[norm(l[i+1:])] = true
		}
	}
	return out
}

func literal(l string) tok {
	return tok{text: l, typ: 'a', eval: func(ls []string) bool {
		for _, x := range ls {
			if norm(x) == norm(l) {
				return true
			}
		}
		return false
	}}
}
func rexp(re string) tok {
	r := regexp.MustCompile(re)
	return tok{text: "/" + re + "/", typ: 'a', eval: func(ls []string) bool {
		for _, x := range ls {
			if r.MatchString(x) {
				return true
			}
		}
		return false
	}}
}
func setop(text, key, op string, args ...string) tok {
	want := map[string]bool{}
	for _, a := range args {
		want[norm(a)] = true
	}
	return tok{text: text, typ: 'a', eval: func(ls []string) bool {
		have := setOf(key, ls)
		n := 0
		for w := range want {
			if have[w] {
				n++
			}
		}
		switch op {
		case "isEmpty":
			return len(have) == 0
		case "containsAny":
			return n > 0
		case "containsAll":
			return n == len(want)
		case "consistsOf":
			return n == len(want) && n == len(have)
		case "isSubsetOf":
			return n == len(have)
		}
		panic(op)
	}}
}

type expr func([]string) bool

// parse returns nil if the tokens are not a sentence.
func parse(ts []tok) expr {
	pos := 0
	ok := true
	var or func() expr
	peek := func() byte {
		if pos < len(ts) {
			return ts[pos].typ
		}
		return 0
	}
	var unary func() expr
	unary = func() expr {
		switch peek() {
		case '!':
			pos++
			e := unary()
			return func(l []string) bool { return !e(l) }
		case '(':
			pos++
			e := or()
			if peek() != ')' {
				ok = false
				return e
			}
			pos++
			return e
		case 'a':
			e := ts[pos].eval
			pos++
			return e
		}
		ok = false
		pos++
		return func([]string) bool { return false }
	}
	and := func() expr {
		e := unary()
		for ok && peek() == '&' {
			pos++
			a, b := e, unary()
			e = func(l []string) bool { return a(l) && b(l) }
		}
		return e
	}
	or = func() expr {
		e := and()
		for ok && peek() == '|' {
			pos++
			a, b := e, and()
			e = func(l []string) bool { return a(l) || b(l) }
		}
		return e
	}
	e := or()
	if !ok || pos != len(ts) {
		return nil
	}
	return e
}

func tryParse(s string) (f types.LabelFilter, err error, pan any) {
	defer func() { pan = recover() }()
	f, err = types.ParseLabelFilter(s)
	return
}

func c07(c *lib.Ctx) {
	alphabet := []tok{
		literal("A"), literal("k:v"), rexp("^b$"),
		{text: "!", typ: '!'}, {text: "&&", typ: '&'}, {text: "||", typ: '|'}, {text: ",", typ: '|'}, {text: "(", typ: '('}, {text: ")", typ: ')'},
		setop("K: isEmpty", "K", "isEmpty"),
		setop("k: containsAny {v, X}", "k", "containsAny", "v", "x"),
	}
	atoms := []tok{
		literal("a"), literal("B"), literal("b c"), literal("K:V"), literal("é"), literal("a:b:c"),
		rexp("a"), rexp("[bB]"), rexp("^k:(v|w)$"), rexp("x|y"), rexp(""), rexp("b c"), rexp(`k\:`),
		setop("k: isempty", "k", "isEmpty"), setop("  K :   ISEMPTY ", "k", "isEmpty"), setop("zz: isEmpty", "zz", "isEmpty"), setop("a: isEmpty", "a", "isEmpty"),
	}
	for _, op := range []string{"containsAny", "containsAll", "consistsOf", "isSubsetOf"} {
		atoms = append(atoms, setop("k: "+op+"{v,w}", "k", op, "v", "w"))
		for _, v := range [][]string{{"v"}, {"W"}, {"z"}, {"v", "w"}, {"V", " w "}, {"w", "v"}, {"v", "z"}, {"v", "v"}, {"v", "w", "z"}, {"v", "w", "v"}, {"b:c"}} {
			args := "{" + strings.Join(v, ",") + "}"
			for _, key := range []string{"k", "K", "a"} {
				atoms = append(atoms, setop(key+": "+op+" "+args, key, op, v...))
			}
			atoms = append(atoms, setop("k:  "+strings.ToUpper(op)+"   { "+strings.Join(v, " ,  ")+" }", "k", op, v...))
			if len(v) == 1 {
				atoms = append(atoms, setop("k: "+op+" "+v[0], "k", op, v...), setop("k: "+op+"  "+v[0]+" ", "k", op, v...))
			}
		}
	}
	base := []string{"A", "b", "k:v", "K: W", "b c", "é", "a:b:c", "k:Z"}
	universe := func(n int) [][]string {
		var out [][]string
		for m := 0; m < 1<<n; m++ {
			var ls []string
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					ls = append(ls, base[i])
				}
			}
			out = append(out, ls)
		}
		return out
	}
	small, large := universe(4), universe(len(base))
	// the same label twice, and differing only in case
	large = append(large, []string{"a", "A"}, []string{"k:v", "K:V"}, []string{"k:v", "k: v "}, []string{"k:v", "k:V", "k:w"}, []string{"É"})

	judge := func(ts []tok, text string, uni [][]string) {
		want := parse(ts)
		c.Add("executions", 1)
		got, err, pan := tryParse(text)
		if pan != nil {
			c.Violation("label filter: parser panics", text, fmt.Sprint(pan))
			return
		}
		if (want != nil) != (err == nil) {
			c.Violation("label filter: acceptance", text, fmt.Sprintf("accepted=%v (%v), want %v", err == nil, err, want != nil))
			return
		}
		if want == nil {
			c.Add("rejected", 1)
			return
		}
		c.Add("accepted", 1)
		for _, ls := range uni {
			c.Add("steps", 1)
			if g, w := got(ls), want(ls); g != w {
				c.Violation("label filter: meaning", text, fmt.Sprintf("on labels %q: matches=%v, want %v", ls, g, w))
				return
			}
		}
		if c.R.Counters["accepted"]%50021 == 7 {
			c.Sample(map[string]any{"filter": text, "label_sets_compared": len(uni)})
		}
	}
	join := func(ts []tok, mode int) string {
		var b strings.Builder
		for i, t := range ts {
			switch {
			case mode == 1:
				b.WriteByte(' ')
			case mode == 2 && i%2 == 0:
				b.WriteString("   ")
			case mode == 0 && i > 0 && t.typ == 'a' && ts[i-1].typ == 'a':
				b.WriteByte(' ') // otherwise they would be one label
			}
			b.WriteString(t.text)
		}
		if mode == 1 {
			b.WriteByte(' ')
		}
		return b.String()
	}

	// 1. all token sequences
	maxLen := c.Pick(6, 8)
	c.Bound("token sequence length", fmt.Sprint(maxLen))
	c.Bound("token alphabet", fmt.Sprint(len(alphabet)))
	c.Bound("label sets", fmt.Sprintf("all %d subsets of 4 labels for sequences, all subsets of %d labels plus duplicates for atoms", len(small), len(base)))
	for n := 1; n <= maxLen; n++ {
		dims := make([]int, n)
		for i := range dims {
			dims[i] = len(alphabet)
		}
		ts := make([]tok, n)
		ok := lib.Product(dims, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			adj := false
			for i, x := range ix {
				ts[i] = alphabet[x]
				// adjacent label-like atoms are a different label, not two: rendering would not be faithful
				if i > 0 && ts[i].typ == 'a' && ts[i-1].typ == 'a' && ts[i].text[0] != '/' && ts[i-1].text[0] != '/' {
					adj = true
				}
			}
			if adj {
				return true
			}
			s := join(ts, 0)
			if c.R.Counters["executions"]%64 == 0 {
				c.Case(s)
				if c.Stop() {
					return false
				}
			}
			judge(ts, s, small)
			if n <= 4 {
				judge(ts, join(ts, 1), small)
				judge(ts, join(ts, 2), small)
			}
			return true
		})
		if !ok {
			return
		}
	}
	// 2. every atom, alone, in every operator context, with every pair of atoms
	for i, a := range atoms {
		if !c.Mine() {
			continue
		}
		c.Case(a.text)
		n := tok{text: "!", typ: '!'}
		l, r := tok{text: "(", typ: '('}, tok{text: ")", typ: ')'}
		and, or := tok{text: "&&", typ: '&'}, tok{text: "||", typ: '|'}
		for m := 0; m < 3; m++ {
			judge([]tok{a}, join([]tok{a}, m), large)
			judge([]tok{n, a}, join([]tok{n, a}, m), large)
			judge([]tok{l, a, r}, join([]tok{l, a, r}, m), large)
			judge([]tok{n, l, n, a, r}, join([]tok{n, l, n, a, r}, m), large)
		}
		for j, b := range atoms {
			if (i+j)%7 != 0 && !c.Thorough() && i != j {
				continue
			}
			for _, ts := range [][]tok{{a, and, b}, {a, or, b}, {a, and, n, b}, {n, a, or, b}, {n, l, a, or, b, r}, {a, {text: ",", typ: '|'}, b}, {l, a, r, and, l, b, r}} {
				judge(ts, join(ts, 1), large)
			}
		}
		if c.Stop() {
			return
		}
	}
	if c.Shard == 0 {
		c07malformed(c)
	}
	c07chars(c)
	c07labels(c)
}

// Malformed sentences that the token alphabet cannot express.
func c07malformed(c *lib.Ctx) {
	for _, s := range []string{"A & B", "A | B", "&", "|", "A &", "A |", "A &&& B", "A ||| B", ":", ": isEmpty", "K:", "K: ", "K: foo", "K: foo v", "K: containsAny", "K: containsAny ", "K: containsAny {", "K: containsAny {v", "K: containsAny {v,",
		"K: containsAny {}", "K: containsAny {,}", "K: containsAny {v,}", "K: containsAny {v,,w}", "K: containsAny { }", "K: containsAny /v/", "K: isEmpty v", "K: isEmpty {v}", "K: containsAny {v} w", "K: containsAny {v}{w}", "K: containsAny {v&w}", "K: containsAny {v|w}",
		"K: containsAny {!v}", "K: containsAny {(v)}", "K: containsAny {v/w}", "K isEmpty", "K containsAny v", "/[/", "/(/", "A /b/", "/b/ A", "/a/ /b/", "(A", "A)", "()", "( )", "!", "!!", "A !", "A ! B", "(A)(B)", "(A) B", "A (B)", "A && (", "A && )", ")(", "(!)", "(A &&)", "&& A", ", A", "A,", "A,,B", "|| A", "A ||", "K: consistsOf v && ", "K: isSubsetOf {v} || ", "!K: ", "K: K: isEmpty", "K: isEmpty K: isEmpty"} {
		c.Add("executions", 1)
		c.Add("rejected", 1)
		_, err, pan := tryParse(s)
		if pan != nil || err == nil {
			c.Violation("label filter: malformed filter accepted", s, fmt.Sprintf("err=%v panic=%v", err, pan))
		}
	}
	if f, err := types.ParseLabelFilter(""); err != nil || !f(nil) || !f([]string{"a"}) {
		c.Violation("label filter: empty filter", "", fmt.Sprint(err))
	}
}

// Every string over a small alphabet of characters: no crash, and over
// alphabets without the set and regexp syntax exact agreement with the oracle.
func c07chars(c *lib.Ctx) {
	full := []rune{'a', ' ', ':', '&', '|', '!', ',', '(', ')', '/', '{', '}', 'é'}
	n := c.Pick(5, 7)
	c.Bound("character strings", fmt.Sprintf("all strings up to length %d over %q; all up to length %d over %q against the oracle", n, string(full), n+2, "aB !&|,()"))
	buf := make([]rune, 0, 16)
	for l := 1; l <= n; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = len(full)
		}
		ok := lib.Product(dims, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			buf = buf[:0]
			for _, x := range ix {
				buf = append(buf, full[x])
			}
			s := string(buf)
			c.Add("executions", 1)
			f, err, pan := tryParse(s)
			if pan != nil {
				c.Violation("label filter: parser panics", s, fmt.Sprint(pan))
			}
			if err == nil && f != nil {
				func() {
					defer func() {
						if e := recover(); e != nil {
							c.Violation("label filter: filter panics", s, fmt.Sprint(e))
						}
					}()
					f(nil)
					f([]string{"a", "a:a", ":"})
				}()
			}
			if c.R.Counters["executions"]%4096 == 0 {
				c.Case(s)
				return !c.Stop()
			}
			return true
		})
		if !ok {
			return
		}
	}
	// exact: letters, blanks and the boolean operators
	set := []byte("aB !&|,()")
	labels := [][]string{nil, {"a"}, {"b"}, {"A", "b"}, {"ab"}, {"a b"}, {"aa", "b"}}
	for l := 1; l <= n+2; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = len(set)
		}
		b := make([]byte, l)
		ok := lib.Product(dims, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			for i, x := range ix {
				b[i] = set[x]
			}
			s := string(b)
			ts, lexOK := lexBool(s)
			var want expr
			if lexOK {
				want = parse(ts)
			}
			c.Add("executions", 1)
			f, err, pan := tryParse(s)
			if pan != nil {
				c.Violation("label filter: parser panics", s, fmt.Sprint(pan))
				return true
			}
			if (want != nil) != (err == nil) {
				c.Violation("label filter: acceptance", s, fmt.Sprintf("accepted=%v (%v), want %v", err == nil, err, want != nil))
				return !c.Stop()
			}
			if want != nil {
				c.Add("accepted", 1)
				for _, ls := range labels {
					if f(ls) != want(ls) {
						c.Violation("label filter: meaning", s, fmt.Sprintf("on labels %q: matches=%v, want %v", ls, f(ls), want(ls)))
						break
					}
				}
			}
			if c.R.Counters["executions"]%4096 == 0 {
				c.Case(s)
				return !c.Stop()
			}
			return true
		})
		if !ok {
			return
		}
	}
}

func lexBool(s string) ([]tok, bool) {
	var ts []tok
	for i := 0; i < len(s); {
		switch s[i] {
		case ' ':
			i++
		case '&', '|':
			if i+1 >= len(s) || s[i+1] != s[i] {
				return nil, false
			}
			ts = append(ts, tok{text: s[i : i+2], typ: s[i]})
			i += 2
		case ',':
			ts = append(ts, tok{text: ",", typ: '|'})
			i++
		case '!', '(', ')':
			ts = append(ts, tok{text: s[i : i+1], typ: s[i]})
			i++
		default:
			j := i
			for j < len(s) && strings.IndexByte("!&|,()", s[j]) < 0 {
				j++
			}
			ts = append(ts, literal(strings.TrimSpace(s[i:j])))
			i = j
		}
	}
	return ts, true
}

// Which labels are valid, and what they are cleaned up to.
func c07labels(c *lib.Ctx) {
	set := []rune{'a', 'B', ' ', '\t', ':', '&', '|', '!', ',', '(', ')', '/', 'é'}
	n := c.Pick(4, 5)
	c.Bound("labels", fmt.Sprintf("all strings up to length %d over %q", n, string(set)))
	cl := types.CodeLocation{FileName: "f.go", LineNumber: 3}
	for l := 0; l <= n; l++ {
		dims := make([]int, l)
		for i := range dims {
			dims[i] = len(set)
		}
		one := func(s string) {
			want, valid := strings.TrimSpace(s), true
			if want == "" || strings.ContainsAny(want, "&|!,()/") || strings.HasPrefix(want, ":") {
				valid = false
			}
			if i := strings.IndexByte(want, ':'); i >= 0 && i == len(want)-1 {
				valid = false
			}
			c.Add("executions", 1)
			c.Add("labels", 1)
			got, err := types.ValidateAndCleanupLabel(s, cl)
			if (err == nil) != valid {
				c.Violation("label: validity", fmt.Sprintf("label %q", s), fmt.Sprintf("err=%v, want valid=%v", err, valid))
			} else if valid && got != want {
				c.Violation("label: cleanup", fmt.Sprintf("label %q", s), fmt.Sprintf("got %q, want %q", got, want))
			} else if valid && !strings.ContainsAny(want, ":") {
				// a valid plain label, used as a filter, selects itself in any case and with any padding
				for _, q := range []string{want, "  " + strings.ToUpper(want) + " ", strings.ToLower(want)} {
					m := ginkgo.Label(want).MatchesLabelFilter(q)
					if !m {
						c.Violation("label: does not match itself", fmt.Sprintf("label %q", s), fmt.Sprintf("filter %q: %v", q, m))
					}
				}
			}
		}
		if l == 0 {
			one("")
			continue
		}
		lib.Product(dims, func(ix []int) bool {
			if !c.Mine() {
				return true
			}
			b := make([]rune, l)
			for i, x := range ix {
				b[i] = set[x]
			}
			one(string(b))
			return true
		})
	}
}
