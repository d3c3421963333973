// Package trans decides C35: both transports between the test processes and
// the server carry every call and value faithfully. The real server, started
// on the loopback network, is driven through the real client - through a
// relay that can cut the connection after any number of bytes - and every call
// is compared with an independent model of what the server is to do.
package trans

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/onsi/ginkgo/v2/internal/parallel_support"
	"github.com/onsi/ginkgo/v2/internal/zzverif/lib"
	"github.com/onsi/ginkgo/v2/types"
)

func TestProperty(t *testing.T) {
	c := lib.New(os.Getenv("VERIF_PROPERTY"))
	c35(c)
	c.Write()
	os.Exit(0)
}

// patience is how long something that is to happen may take.
var patience = 20 * time.Second

/* ---------- the relay ---------- */

type relay struct {
	l        net.Listener
	backend  string
	mu       sync.Mutex
	conns    []net.Conn
	dead     bool
	up, down atomic.Int64 // bytes relayed
	upTo     atomic.Int64 // cut when so many bytes have been relayed
	downTo   atomic.Int64
}

// here is an address that no other process uses: a port given up is soon
// given to another, who must not be taken for the server that is gone.
var here = fmt.Sprintf("127.%d.%d.", 1+os.Getpid()%250, 1+os.Getpid()/250%250)

func newRelay(backend string, n int) *relay {
	l, err := net.Listen("tcp", fmt.Sprint(here, n, ":0"))
	for until := time.Now().Add(time.Minute); err != nil && time.Now().Before(until); {
		time.Sleep(time.Second)
		l, err = net.Listen("tcp", fmt.Sprint(here, n, ":0"))
	}
	if err != nil {
		panic(err)
	}
	r := &relay{l: l, backend: backend}
	r.upTo.Store(math.MaxInt64)
	r.downTo.Store(math.MaxInt64)
	go func() {
		for {
			in, err := l.Accept()
			if err != nil {
				return
			}
			out, err := net.Dial("tcp", backend)
			if err != nil {
				reset(in)
				continue
			}
			r.mu.Lock()
			if r.dead {
				r.mu.Unlock()
				reset(in)
				reset(out)
				continue
			}
			r.conns = append(r.conns, in, out)
			r.mu.Unlock()
			go r.pump(out, in, &r.up, &r.upTo)
			go r.pump(in, out, &r.down, &r.downTo)
		}
	}()
	return r
}

func reset(c net.Conn) {
	c.(*net.TCPConn).SetLinger(0)
	c.Close()
}

func (r *relay) pump(dst, src net.Conn, n, to *atomic.Int64) {
	buf := make([]byte, 64<<10)
	for {
		k, err := src.Read(buf)
		if k > 0 {
			if left := to.Load() - n.Load(); int64(k) >= left {
				dst.Write(buf[:max(left, 0)])
				n.Add(max(left, 0))
				time.Sleep(500 * time.Microsecond) // (a reset can overtake data)
				r.cut(n == &r.up)
				return
			}
			if _, werr := dst.Write(buf[:k]); werr != nil {
				r.cut(true)
				return
			}
			n.Add(int64(k))
		}
		if err != nil {
			// one side is finished: so is the other
			reset(src)
			reset(dst)
			return
		}
	}
}

// cut makes the server unreachable for good.
func (r *relay) cut(hard bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.dead = true
	r.l.Close()
	for i, c := range r.conns {
		if hard || i%2 == 1 { // (orderly closing takes up a port for a while)
			reset(c)
		} else {
			c.Close()
		}
	}
	r.conns = nil
}

/* ---------- the server under test, and what it did ---------- */

type recorder struct {
	mu     sync.Mutex
	events []string
	out    bytes.Buffer
	hold   chan struct{} // when set, reports and output are held up here
	held   chan struct{}
	fail   int // when >0, writing fails after so many bytes
}

func (r *recorder) add(s string) {
	if r.hold != nil {
		close(r.held)
		<-r.hold
	}
	r.mu.Lock()
	r.events = append(r.events, s)
	r.mu.Unlock()
}
func (r *recorder) SuiteWillBegin(x types.Report)              { r.add("begin " + dump(x)) }
func (r *recorder) WillRun(x types.SpecReport)                 { r.add("will " + dump(x)) }
func (r *recorder) DidRun(x types.SpecReport)                  { r.add("did " + dump(x)) }
func (r *recorder) SuiteDidEnd(x types.Report)                 { r.add("end " + dump(x)) }
func (r *recorder) EmitProgressReport(x types.ProgressReport)  { r.add("progress " + dump(x)) }
func (r *recorder) EmitFailure(types.SpecState, types.Failure) { r.add("failure") }
func (r *recorder) EmitReportEntry(types.ReportEntry)          { r.add("entry") }
func (r *recorder) EmitSpecEvent(types.SpecEvent)              { r.add("event") }
func (r *recorder) Write(p []byte) (int, error) {
	if r.hold != nil {
		close(r.held)
		<-r.hold
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fail > 0 && len(p) >= r.fail {
		r.out.Write(p[:r.fail-1])
		return r.fail - 1, errors.New("no space left on device")
	}
	return r.out.Write(p)
}

type sut struct {
	srv     parallel_support.Server
	rec     *recorder
	relay   *relay
	way     *relay // of the direct client
	clients []parallel_support.Client
	direct  parallel_support.Client
	dead    []atomic.Bool
	polls   []atomic.Int64
	total   int
	probed  string
	counter string
}

func start(proto string, total, clients int) *sut {
	if proto == "HTTP" {
		os.Setenv("GINKGO_PARALLEL_PROTOCOL", "HTTP")
	} else {
		os.Unsetenv("GINKGO_PARALLEL_PROTOCOL")
	}
	u := &sut{rec: &recorder{}, total: total, dead: make([]atomic.Bool, total), polls: make([]atomic.Int64, total)}
	srv, err := parallel_support.NewServer(total, u.rec)
	for until := time.Now().Add(time.Minute); err != nil && time.Now().Before(until); {
		time.Sleep(time.Second) // out of ports
		srv, err = parallel_support.NewServer(total, u.rec)
	}
	if err != nil {
		panic(err)
	}
	u.srv = srv
	srv.SetOutputDestination(u.rec)
	srv.Start()
	for i := 1; i <= total; i++ {
		srv.RegisterAlive(i, func() bool { u.polls[i-1].Add(1); return !u.dead[i-1].Load() })
	}
	addr := strings.TrimPrefix(srv.Address(), "http://")
	u.relay = newRelay(addr, 1)
	for i := 0; i < clients; i++ {
		u.clients = append(u.clients, parallel_support.NewClient(strings.Replace(srv.Address(), addr, u.relay.l.Addr().String(), 1)))
		if !u.clients[i].Connect() {
			panic("cannot connect")
		}
	}
	return u
}

func (u *sut) probeClient() parallel_support.Client {
	if u.direct == nil {
		u.way = newRelay(u.relay.backend, 2)
		u.direct = parallel_support.NewClient(strings.Replace(u.srv.Address(), u.relay.backend, u.way.l.Addr().String(), 1))
		if !u.direct.Connect() {
			panic("cannot connect")
		}
	}
	return u.direct
}

func (u *sut) close() {
	u.relay.cut(true)
	u.srv.Close()
	for _, c := range u.clients {
		c.Close()
	}
	if u.direct != nil {
		u.way.cut(true)
		u.direct.Close()
	}
}

/* ---------- values ---------- */

type stringer struct{ N int }

func (s stringer) String() string { return fmt.Sprintf("<%d>", s.N) }

type colored struct{ A string }

func (s colored) ColorableString() string { return "{{red}}" + s.A + "{{/}}" }

var texts = []string{"", "a", "héllo \u2028\U0001F600 <&>'\"\\", "two\nlines\ttab\r\x00\x1b[31m", strings.Repeat("long ", 2000), " \n\tspace around\r\n \n"}

var entryValues = []any{nil, "text", "", 42, -0.5, true, stringer{3}, colored{"c"}, []string{"a", "b"}, []int(nil), map[string]any{"k": []int{1}}, struct{ X, Y int }{1, 2}, &stringer{4}, (*int)(nil), math.NaN(), func() {}, make(chan int), json.Number("12")}

var alphabets = map[reflect.Type][]any{}

func enum[T any](xs ...T) {
	var v []any
	for _, x := range xs {
		v = append(v, x)
	}
	alphabets[reflect.TypeOf(*new(T))] = v
}

func init() {
	enum(types.SpecStatePassed, types.SpecStateInvalid, types.SpecStatePending, types.SpecStateSkipped, types.SpecStateFailed, types.SpecStateAborted, types.SpecStatePanicked, types.SpecStateInterrupted, types.SpecStateTimedout)
	enum(types.NodeTypeIt, types.NodeTypeInvalid, types.NodeTypeContainer, types.NodeTypeBeforeEach, types.NodeTypeJustBeforeEach, types.NodeTypeAfterEach, types.NodeTypeJustAfterEach, types.NodeTypeBeforeAll, types.NodeTypeAfterAll, types.NodeTypeBeforeSuite, types.NodeTypeSynchronizedBeforeSuite, types.NodeTypeAfterSuite, types.NodeTypeSynchronizedAfterSuite, types.NodeTypeReportBeforeEach, types.NodeTypeReportAfterEach, types.NodeTypeReportBeforeSuite, types.NodeTypeReportAfterSuite, types.NodeTypeCleanupInvalid, types.NodeTypeCleanupAfterEach, types.NodeTypeCleanupAfterAll, types.NodeTypeCleanupAfterSuite)
	enum(types.FailureNodeIsLeafNode, types.FailureNodeContextInvalid, types.FailureNodeAtTopLevel, types.FailureNodeInContainer)
	enum(types.SpecEventByStart, types.SpecEventInvalid, types.SpecEventByEnd, types.SpecEventNodeStart, types.SpecEventNodeEnd, types.SpecEventSpecRepeat, types.SpecEventSpecRetry)
	enum(types.ReportEntryVisibilityFailureOrVerbose, types.ReportEntryVisibilityAlways, types.ReportEntryVisibilityNever)
	enum(true, false)
	enum(append([]string{"text"}, texts...)...)
	enum(3, 0, -1, math.MaxInt64, math.MinInt64)
	enum(int64(4), 0, -1, math.MaxInt64, math.MinInt64)
	enum(uint64(5), 0, math.MaxUint64)
	enum(time.Second, 0, -1, math.MaxInt64)
	enum(time.Date(2024, 2, 29, 12, 0, 0, 999999999, time.UTC), time.Time{}, time.Unix(0, 1), time.Date(1999, 1, 1, 0, 0, 0, 0, time.FixedZone("X", -5*3600)), time.Date(2030, 1, 1, 0, 0, 0, 0, time.FixedZone("Y", 5*3600+1800)))
	var ev []types.ReportEntryValue
	for _, v := range entryValues {
		ev = append(ev, types.WrapEntryValue(v))
	}
	enum(append([]types.ReportEntryValue{types.WrapEntryValue("value")}, ev...)...)
}

// full is a value of the type with every part of it set.
func full(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if a, ok := alphabets[t]; ok {
		v.Set(reflect.ValueOf(a[0]))
		return v
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				v.Field(i).Set(full(t.Field(i).Type, depth))
			}
		}
	case reflect.Slice:
		n := 2
		if t == reflect.TypeOf(types.SpecReports{}) {
			n = 1
		}
		for i := 0; i < n; i++ {
			v.Set(reflect.Append(v, full(t.Elem(), depth)))
		}
	case reflect.Pointer:
		if depth < 1 {
			p := reflect.New(t.Elem())
			p.Elem().Set(full(t.Elem(), depth+1))
			v.Set(p)
		}
	case reflect.Uint8:
		v.SetUint(7)
	default:
		panic("no alphabet for " + t.String())
	}
	return v
}

// vary calls f for every value that differs from the full one in one place.
func vary(v reflect.Value, path string, f func(path string)) {
	t := v.Type()
	set := func(x reflect.Value, name string) {
		old := reflect.New(t).Elem()
		old.Set(v)
		v.Set(x)
		f(path + "=" + name)
		v.Set(old)
	}
	if a, ok := alphabets[t]; ok {
		for i := 1; i < len(a); i++ {
			set(reflect.ValueOf(a[i]), strconv.Itoa(i))
		}
		return
	}
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				vary(v.Field(i), path+"."+t.Field(i).Name, f)
			}
		}
	case reflect.Slice:
		set(reflect.Zero(t), "nil")
		set(reflect.MakeSlice(t, 0, 0), "empty")
		if v.Len() > 1 {
			set(v.Slice(0, 1), "one")
		}
		for i := 0; i < v.Len(); i++ {
			if i == 0 || i == v.Len()-1 && t.Elem().Kind() != reflect.Struct {
				vary(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
			}
		}
	case reflect.Pointer:
		set(reflect.Zero(t), "nil")
		if !v.IsNil() {
			vary(v.Elem(), path, f)
		}
	}
}

// dump writes down a value; what tells apart nil and empty is left out.
func dump(x any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(x))
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value) {
	switch x := v.Interface().(type) {
	case types.ReportEntryValue:
		s := x.String()
		j, err := json.Marshal(x.GetRawValue())
		if err != nil {
			j, _ = json.Marshal(s)
		}
		fmt.Fprintf(b, "%q as %s", s, j)
		return
	case time.Time:
		_, off := x.Zone()
		fmt.Fprintf(b, "%s%+d", x.UTC().Format(time.RFC3339Nano), off)
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				b.WriteString(f.Name + ":")
				dumpTo(b, v.Field(i))
				b.WriteString(" ")
			}
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i))
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("&")
			dumpTo(b, v.Elem())
		}
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Uint, reflect.Uint64, reflect.Uint8:
		fmt.Fprintf(b, "%d", v.Uint())
	default:
		fmt.Fprintf(b, "%v", v.Interface())
	}
}

func within(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(patience):
		hung()
		return false
	}
}

func shorten(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// around shows where two texts differ.
func around(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(i-60, len(s))):min(len(s), i+80)] }
	return fmt.Sprintf("got ...%s... want ...%s...", cut(got), cut(want))
}

// hung makes the next hangs take less time: the verdict is clear by now.
func hung() { patience = max(patience/3, 2*time.Second) }
