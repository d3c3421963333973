package micro

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/onsi/ginkgo/v2/internal"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/internal/zzverif/vsched"
)

// sink is a destination that takes time.
type sink struct {
	buf    strings.Builder
	writes int
}

func (k *sink) Write(b []byte) (int, error) {
	vsched.P("sink")
	k.writes++
	k.buf.Write(b)
	return len(b), nil
}

// wmodel is what a writer is: written from the documentation.
type wmodel struct {
	buf, out   string
	tees       [2]string
	on         []int // attached tees
	bufferOnly bool
	mid        bool // the last byte streamed was not a newline
}

func (m *wmodel) key() string {
	return fmt.Sprintf("%q %q %q %v %v %v", m.buf, m.out, m.tees, m.on, m.bufferOnly, m.mid)
}

func (m *wmodel) write(s string) {
	m.buf += s
	for _, t := range m.on {
		m.tees[t] += s
	}
	if m.bufferOnly {
		return
	}
	for _, b := range s {
		if b == '\n' {
			m.mid = false
		} else if !m.mid {
			m.out += "  "
			m.mid = true
		}
		m.out += string(b)
	}
}

// do applies an operation to the model and says what it answers.
func (m *wmodel) do(op string) string {
	switch op[0] {
	case 'w':
		m.write(op[1:])
		return fmt.Sprintf("%d <nil>", len(op)-1)
	case 'p':
		m.write(op[1:])
	case 'l':
		m.write(op[1:] + "\n")
	case 'f':
		m.write("[" + op[1:] + "]")
	case 'g':
		m.write(fmt.Sprintf("\"level\"=0 \"msg\"=\"%s\" \"k\"=1\n", op[1:]))
	case 'n':
		m.write(fmt.Sprintf("name \"level\"=0 \"msg\"=\"%s\"\n", op[1:]))
	case 'T':
		m.buf = ""
	case 'L':
		return fmt.Sprint(len(m.buf))
	case 'B':
		return m.buf
	case 'S':
		m.bufferOnly = false
	case 'O':
		m.bufferOnly = true
	case '0', '1':
		m.on = append(append([]int{}, m.on...), int(op[0]-'0'))
	case 'C':
		m.on = nil
	}
	return ""
}

type wreal struct {
	w     *internal.Writer
	out   *sink
	tees  [2]*sink
	reads [][]byte // what Bytes gave
	was   []string
}

func newWreal() *wreal {
	r := &wreal{out: &sink{}, tees: [2]*sink{{}, {}}}
	r.w = internal.NewWriter(r.out)
	return r
}

func (r *wreal) do(op string) string {
	switch op[0] {
	case 'w':
		b := []byte(op[1:])
		n, err := r.w.Write(b)
		for i := range b { // the caller may use its slice again
			b[i] = '#'
		}
		return fmt.Sprint(n, " ", err)
	case 'p':
		r.w.Print(op[1:])
	case 'l':
		r.w.Println(op[1:])
	case 'f':
		r.w.Printf("[%s]", op[1:])
	case 'g':
		l := internal.GinkgoLogrFunc(r.w)
		l.Info(op[1:], "k", 1)
	case 'n':
		l := internal.GinkgoLogrFunc(r.w)
		l.WithName("name").Info(op[1:])
	case 'T':
		r.w.Truncate()
	case 'L':
		return fmt.Sprint(r.w.Len())
	case 'B':
		b := r.w.Bytes()
		r.reads, r.was = append(r.reads, b), append(r.was, string(b))
		return string(b)
	case 'S':
		r.w.SetMode(internal.WriterModeStreamAndBuffer)
	case 'O':
		r.w.SetMode(internal.WriterModeBufferOnly)
	case '0', '1':
		r.w.TeeTo(r.tees[op[0]-'0'])
	case 'C':
		r.w.ClearTeeWriters()
	}
	return ""
}

func (r *wreal) end() string {
	return fmt.Sprintf("%q %q %q", r.w.Bytes(), r.out.buf.String(), []string{r.tees[0].buf.String(), r.tees[1].buf.String()})
}

func (m *wmodel) end() string { return fmt.Sprintf("%q %q %q", m.buf, m.out, m.tees) }

func (r *wreal) stable() string {
	for i, b := range r.reads {
		if !bytes.Equal(b, []byte(r.was[i])) {
			return fmt.Sprintf("Bytes gave %q, which became %q", r.was[i], b)
		}
	}
	return ""
}

func sequential(c *lib.Ctx, what string, ops []string) {
	kase := "writer: " + what + ": " + strings.Join(ops, "|")
	c.Case(kase)
	r, m := newWreal(), &wmodel{}
	for i, op := range ops {
		if got, want := r.do(op), m.do(op); got != want {
			c.Violation("writer: "+what+": an operation answers wrongly", kase, fmt.Sprintf("%d (%q): got %q, want %q", i, op, got, want))
			return
		}
	}
	if got, want := r.end(), m.end(); got != want {
		c.Violation("writer: "+what+": contents", kase, fmt.Sprintf("got %s\nwant %s", got, want))
	}
	if s := r.stable(); s != "" {
		c.Violation("writer: "+what+": what Bytes gave changes", kase, s)
	}
	c.Add("executions", 1)
	c.Add("steps", int64(len(ops)))
	c.Distinct("distinct outcomes", m.end())
}

// together: the operations of each thread in their order, those of several in any.
func together(threads [][]string, pre []string, bound int) scenario {
	var names []string
	for _, t := range threads {
		names = append(names, strings.Join(t, ","))
	}
	name := fmt.Sprintf("writer: %q then %q", strings.Join(pre, ","), names)
	var hist string
	return scenario{name: name, bound: bound, obs: func() string { return hist }, setup: func(s *vsched.S) func(*vsched.S) (string, string) {
		r := newWreal()
		for _, op := range pre {
			r.do(op)
		}
		type ev struct {
			op, got    string
			start, end int
		}
		var evs []*ev
		clock := 0
		for ti, ops := range threads {
			s.Spawn(fmt.Sprintf("t%d", ti), func() {
				for _, op := range ops {
					clock++
					e := &ev{op: op, start: clock}
					evs = append(evs, e)
					e.got = r.do(op)
					clock++
					e.end = clock
				}
			})
		}
		return func(*vsched.S) (string, string) {
			hist = r.end()
			if x := r.stable(); x != "" {
				return "what Bytes gave changes", x
			}
			start := wmodel{}
			for _, op := range pre {
				start.do(op)
			}
			seen := map[string]bool{}
			var search func(done uint, m wmodel) bool
			search = func(done uint, m wmodel) bool {
				if done == 1<<len(evs)-1 {
					return m.end() == hist
				}
				k := fmt.Sprint(done, m.key())
				if seen[k] {
					return false
				}
				seen[k] = true
				for i, e := range evs {
					if done&(1<<i) != 0 {
						continue
					}
					ok := true
					for j, o := range evs {
						if done&(1<<j) == 0 && j != i && o.end < e.start {
							ok = false
						}
					}
					if !ok {
						continue
					}
					n := m
					if n.do(e.op) == e.got && search(done|1<<i, n) {
						return true
					}
				}
				return false
			}
			if !search(0, start) {
				x := ""
				for _, e := range evs {
					x += fmt.Sprintf(" %q=%q[%d,%d]", e.op, e.got, e.start, e.end)
				}
				return "no order of the calls explains what was written", hist + "\n" + x
			}
			return "", ""
		}
	}}
}

func init() {
	checks["C18"] = func(c *lib.Ctx) {
		// every text, every way of splitting it over writes
		n := c.Pick(8, 10)
		for l := 0; l <= n; l++ {
			for m := 0; m < 1<<l; m++ {
				if !c.Mine() {
					continue
				}
				if c.Stop() {
					return
				}
				text := make([]byte, l)
				for i := range text {
					text[i] = byte('a' + i)
					if m>>i&1 == 1 {
						text[i] = '\n'
					}
				}
				for sp := 0; sp < 1<<max(l-1, 0); sp++ {
					ops := []string{"0"}
					from := 0
					for i := 1; i <= l; i++ {
						if i == l || sp>>(i-1)&1 == 1 {
							ops = append(ops, "w"+string(text[from:i]))
							from = i
						}
					}
					sequential(c, "split", ops)
				}
			}
		}
		c.Bound("texts", fmt.Sprintf("every text of up to %d bytes of which any may be a newline, over every way of splitting it", n))
		// every sequence of operations
		alpha := []string{"wa", "w\n", "wb\nc", "w", "w\n\nd\n", "pe", "lf", "fg", "gh", "ni", "T", "L", "B", "S", "O", "0", "1", "C"}
		d := c.Pick(4, 5)
		var rec func(ops []string)
		rec = func(ops []string) {
			if len(ops) == d {
				sequential(c, "sequence", ops)
				return
			}
			for _, a := range alpha {
				if len(ops) == 1 && !c.Mine() {
					continue
				}
				if c.Stop() {
					return
				}
				rec(append(ops[:len(ops):len(ops)], a))
			}
		}
		rec(nil)
		c.Bound("sequences", fmt.Sprintf("every sequence of %d operations out of %d", d, len(alpha)))
		// several goroutines
		b := c.Pick(2, 3)
		ops := []string{"wa\nb", "w\nc", "lx", "gy", "T", "B", "L", "O", "S", "0", "C"}
		pres := [][]string{nil, {"0", "wz"}}
		for _, pre := range pres {
			for i, x := range ops {
				for _, y := range ops[i:] {
					explore(c, together([][]string{{x, "w1\n2"}, {y, "w3\n"}}, pre, b))
					explore(c, together([][]string{{"w1\n2", x}, {y, "w3\n"}}, pre, b))
					explore(c, together([][]string{{"w1\n2", x, "B"}, {"w3\n", y}}, pre, b))
				}
			}
			for _, x := range ops {
				for _, y := range ops {
					explore(c, together([][]string{{"w1\n2"}, {x}, {y}}, pre, b))
				}
			}
		}
	}
}
