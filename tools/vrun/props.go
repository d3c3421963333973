package main

import "strings"

type prop struct {
	Group  string   // the groups of harnesses that decide it, separated by commas
	Assume []string // what it assumes besides what its groups do
	Shards int
}

func (p prop) rule() string {
	var s []string
	for _, g := range strings.Split(p.Group, ",") {
		s = append(s, rules[g])
	}
	return strings.Join(s, "; and ")
}

func (p prop) assume() []string {
	s := append([]string{}, p.Assume...)
	for _, g := range strings.Split(p.Group, ",") {
		s = append(s, assumes[g]...)
	}
	return s
}

var rules = map[string]string{"spec": specRule, "pure": pureRule, "par": parRule, "timeline": timeRule, "micro": microRule, "cli": cliRule, "compile": microRule, "trans": transRule, "dsl": dslRule, "watch": watchRule, "tool": toolRule}

var assumes = map[string][]string{"spec": specAssume, "par": parAssume, "timeline": timeAssume, "micro": microAssume, "cli": cliAssume, "trans": transAssume, "compile": append([]string{"the go command is a stand-in"}, microAssume...)}

const specRule = "depth-first enumeration of every assignment of outcomes to node-body invocations with a bounded number of deviations from 'pass', over every fixture tree of the listed families, executed on the real internal.Suite and compared event by event and field by field with an independent reference model; states = distinct observed histories, transitions = observed events"

var specAssume = []string{"node bodies are the harness's; their outcomes stand for user code", "one process; the interrupt handler is a controllable stand-in"}

const pureRule = "exhaustive enumeration of all inputs up to the stated bounds, each executed on the real code and compared with an independently written oracle; states = distinct results, transitions = inputs executed"

const parRule = "explicit-state exploration of the implementation: N real suites, one per simulated process, run in one testing/synctest bubble against one real server handler; a controller replays every sequence of steps (to the next call on the server, end of a node body, poll of an interrupt handler, exit or death of a process), pruning where the whole state - what each process did and was told, and the order of the calls that matters to the server - has been reached before; states = distinct such states, transitions = steps explored"

var parAssume = []string{"calls on the server are atomic and their arguments and results arrive as JSON carries them (the transports themselves are C35, concurrent calls C13)", "code between two calls on the server does not interact with other processes", "node bodies are the harness's", "the state abstraction assumes that processes are deterministic given what the server answers"}

const timeRule = "explicit enumeration of timed executions of the real internal.Suite in a testing/synctest bubble (virtual time): every placement, up to the stated number, of interrupts, timeouts, progress polls and requests in every interval between two events, with every reaction of each cancelled body within the deviation bound; each execution's events, times, reports and verdict are compared with an independent timed reference model; situations in which two things fall on one instant are left open and not run; states = distinct observed histories, transitions = observed events"

var timeAssume = []string{"virtual time: code between two waits takes none", "reporting a failure takes 1 microsecond, so that what a timeout brings about comes after it", "node bodies are the harness's: they run for a set time, and when cancelled react in one of the listed ways", "interrupts arrive one at a time (signals.go's own goroutine is C25)"}

const microRule = "stateless exploration of the real code's interleavings: its current source is instrumented with a scheduling point before every statement that may touch something shared (read-modify-write statements are split), mutexes, goroutine starts, selects and signal registration are put under a controlled scheduler, and every schedule within the preemption bound is executed and judged; states = distinct outcomes, transitions = scheduling steps"

var microAssume = []string{"interleaving of statements in a sequentially consistent memory; effects of weak memory orderings on code that is not data-race free are not explored", "standard library calls are atomic"}

const cliRule = "exhaustive enumeration of all invocations up to the stated bounds: the real ginkgo binary is run in a scratch directory with a stand-in for the go command, and its exit status, what it ran, its output and the report files are compared with an independent model; states = distinct outcomes, transitions = invocations"

var cliAssume = []string{"the go command is a stand-in that links a prepared suite, prints or fails as told", "interrupts are sent at set points and given time to be seen; a deviation counts only if it recurs with ten times the patience"}

const dslRule = "exhaustive enumeration of all programs of the stated families, each declared through the real DSL, built and run by the real internal.Suite (os.Exit replaced by a stand-in that ends the goroutine), and compared with an independent statement of the rules: accepted or rejected with which error at which place, and what then runs, with what; states = distinct programs, transitions = nodes and programs judged"

const watchRule = "explicit-state enumeration: every history of file operations up to the stated length on a small tree of packages, placed between two looks of the watcher or during a run, is executed on the real watch command (in a testing/synctest bubble; compiling and running suites is a stand-in that records), and what it runs and reports at every look is compared with an independent model of files, dependencies and what was seen last; states = distinct states of that model, transitions = looks"

const toolRule = "exhaustive enumeration of all source files of the stated families, each given to the real command, and what it makes of it compared with what the generator of the sources knows; states = distinct results, transitions = files"

const transRule = "explicit-state enumeration: every sequence of calls up to the stated depth, and beyond it those that lead to new states of an independent model of the server, is replayed over both transports on the real client and server on the loopback network, with every result, event and output compared with the model; every field of every payload in turn takes each difficult value; and every call is cut off at every byte of request and answer; states = distinct model states and values, transitions = calls and events replayed"

var transAssume = []string{"the loopback network delivers bytes in order", "a call or a change of state shows within 20 s"}

var props = map[string]prop{
	"C01": {Group: "spec"},
	"C02": {Group: "spec"},
	"C03": {Group: "spec"},
	"C04": {Group: "spec,timeline"},
	"C05": {Group: "spec,timeline"},
	"C23": {Group: "spec"},
	"C33": {Group: "spec"},
	"C06": {Group: "pure", Assume: []string{"trees up to three levels with two leaves per level; regular expressions from a fixed alphabet"}},
	"C07": {Group: "pure", Assume: []string{"token alphabet as listed in the bounds"}},
	"C08": {Group: "pure", Assume: []string{"seeds from a fixed range"}},
	"C21": {Group: "pure", Assume: []string{"texts from a fixed alphabet of difficult ones; invalid UTF-8 decodes as U+FFFD"}},
	"C22": {Group: "pure", Assume: []string{"texts from a fixed alphabet of difficult ones; the offsets of timeline events are consistent with the captured output, as the suite produces them"}},
	"C27": {Group: "pure", Assume: []string{"values from a fixed alphabet of difficult ones per type of setting"}},
	"C36": {Group: "pure", Assume: []string{"texts from a fixed alphabet; a spec's timeline is consistent with its captured output, as the suite produces it"}},
	"C30": {Group: "dsl", Assume: []string{"a nil parameter fits every type, as its zero value"}},
	"C31": {Group: "dsl", Assume: []string{"decorators with other values of the same type behave like those listed"}},
	"C09": {Group: "par"},
	"C10": {Group: "par,micro"},
	"C11": {Group: "par,micro"},
	"C12": {Group: "par"},
	"C14": {Group: "timeline"},
	"C15": {Group: "timeline"},
	"C37": {Group: "timeline"},
	"C13": {Group: "micro"},
	"C16": {Group: "micro"},
	"C17": {Group: "micro"},
	"C18": {Group: "micro"},
	"C20": {Group: "micro"},
	"C24": {Group: "cli"},
	"C25": {Group: "compile"},
	"C26": {Group: "cli"},
	"C34": {Group: "spec"},
	"C35": {Group: "trans"},
	"C28": {Group: "tool", Assume: []string{"what is written as a Focus argument is the decorator unless the file declares it"}},
	"C29": {Group: "tool", Assume: []string{"texts and labels from a fixed alphabet"}},
	"C32": {Group: "watch", Assume: []string{"packages are resolved in GOPATH mode", "a file's time of modification is that of the clock, or an older one", "compiling and running are stand-ins"}},
}
