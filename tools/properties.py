#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and MANIFEST.json. Run after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))

prop("C01", "Spec lifecycle: setup, subject and teardown run in the documented order",
 "For a spec outside Ordered containers, BeforeEach nodes run outermost first, then JustBeforeEach nodes outermost first, then the subject, then JustAfterEach and AfterEach nodes innermost first; nodes of one kind at one level run in definition order, each exactly once, on one at a time basis. When a setup node or the subject fails, panics, exits its goroutine or skips, no further setup node or subject runs, but the teardown nodes of every container level that was entered still all run. The reported state, message and location of the spec are those of the first body that did not pass, except that a later failure is never hidden behind a skip.",
 ["programs", "inputs", "histories"], "every placement of setup/teardown nodes in trees of bounded depth and every assignment of outcomes (pass, fail, panic, skip, recovered failure, goroutine exit) to their bodies with a bounded number of non-passing ones",
 "the integration tests run a few dozen hand-written trees with one failure each; the order must hold for every tree and every combination of outcomes",
 ["internal/group.go", "internal/suite.go", "internal/node.go", "internal/tree.go"], [("order of nodes of an attempt", "internal/group.go attemptSpec"), ("node lists sorted by nesting level", "internal/node.go")])
prop("C02", "Ordered containers: order, once-only setup/teardown, skipping after failure",
 "Specs in an Ordered container run in definition order as one unit; BeforeAll runs once before the first spec of its container that runs, AfterAll once after the last one that runs, and if any node inside the container has run then AfterAll runs, even if the remaining specs are skipped. OncePerOrdered nodes behave likewise around each Ordered container, and run for each spec elsewhere. After a failure the remaining specs are skipped, unless the container is decorated with ContinueOnFailure, in which case they run unless a once-only setup node failed; after Skip() in a once-only setup node the specs it governs are skipped.",
 ["programs", "inputs", "histories"], "every tree of the families (Ordered containers with up to 4 specs, nested containers, once-only nodes at up to three levels, pending/focused subsets) and every assignment of outcomes with a bounded number of non-passing bodies",
 "once-only bookkeeping depends on which specs are last in which container after filtering and on what failed where; tests sample single points of that product",
 ["internal/group.go"], [("run-once pairs and tracker", "internal/group.go runOncePairsForSpec, attemptSpec"), ("skip decision", "internal/group.go evaluateSkipStatus")])
prop("C03", "DeferCleanup callbacks run exactly once, in reverse order, at the right time",
 "Every cleanup registered with DeferCleanup runs exactly once, whatever passes, fails, panics or skips before or after it. Cleanups run after the AfterEach (or AfterAll, AfterSuite) nodes of the scope of the node that registered them - the attempt of the spec, the Ordered container, or the suite - in reverse order of registration, before the next attempt, spec or scope begins. A failing cleanup fails the spec (or suite) it belongs to and does not prevent the others from running.",
 ["programs", "inputs", "histories"], "every subset of node kinds at two levels, Ordered containers, retries and suite nodes; every body registers 0-2 cleanups and passes, fails, skips or panics, with a bounded number of deviations",
 "cleanup scope is decided from dynamic state (who registered, what has run, which attempt it is); tests register cleanups in one tree with few failures",
 ["internal/suite.go", "internal/group.go", "internal/node.go", "core_dsl.go"], [("pushCleanupNode", "internal/suite.go"), ("after-node loop", "internal/group.go attemptSpec"), ("runAfterSuiteCleanup", "internal/suite.go")])
prop("C04", "Verdict integrity: the suite succeeds iff nothing failed",
 "The suite is reported as succeeded, and Run returns success, if and only if no spec, setup, teardown, cleanup or reporting node ended failed, panicked, timed out, interrupted or aborted (after retries), and no fail-on-pending / fail-on-empty rule applies. A failure recorded with Fail is never lost because the failing code was recovered, ran in another goroutine that recovers, failed twice, or was followed by a skip, a panic or a failure elsewhere. AbortSuite and fail-fast stop every later spec from running while teardown and reporting still run.",
 ["programs", "inputs", "histories", "configurations"], "trees with every kind of node, four configurations, and every assignment of nine outcomes with a bounded number of deviations",
 "a failure can be swallowed at any of a dozen node kinds in combination with another outcome; tests check single failures",
 ["internal/suite.go", "internal/group.go", "internal/failer.go", "core_dsl.go"], [("processCurrentSpecReport", "internal/suite.go"), ("Failer.Drain", "internal/failer.go"), ("runNode outcome selection", "internal/suite.go")])
prop("C05", "FlakeAttempts and MustPassRepeatedly: attempts, verdict and bookkeeping",
 "With FlakeAttempts(N) a failing spec is rerun with all its setup and teardown until an attempt passes or skips, at most N attempts, each failed attempt but the last being recorded as an additional failure; with MustPassRepeatedly(N) a spec is rerun until an attempt fails or skips or N attempts have passed. The most deeply nested decorator wins, MustPassRepeatedly takes precedence over FlakeAttempts, and the command-line values override the respective decorators. In Ordered containers a retried spec does not rerun once-only setup that passed, and once-only teardown runs only after the final attempt (or together with once-only setup that is to be rerun).",
 ["programs", "inputs", "histories", "configurations"], "decorators on spec and two enclosing containers x command-line settings x outcomes of every body at every attempt with a bounded number of non-passing ones; Ordered containers with once-only nodes",
 "the outcome sequence over attempts and its interaction with once-only nodes is a product space; tests run single sequences",
 ["internal/group.go", "internal/node.go", "internal/spec.go"], [("attempt loop", "internal/group.go run"), ("isFinal handling of once-only nodes", "internal/group.go attemptSpec")])
prop("C06", "Selection: exactly the focused, filtered, not pending specs run",
 "A spec runs if and only if it is not pending, programmatic focus (innermost focus wins, over the specs that are not pending) selects it, and every given command-line filter (focus and skip regular expressions on the full text, file:line filters, label filters including suite labels) accepts it. The counts of specs, specs to run, and the programmatic-focus indication agree with that, and each other spec is reported as skipped or pending, never run.",
 ["programs", "configurations"], "every tree of a family with focus, pending and label marks on three levels x every combination of a small alphabet of focus, skip, file, and label filters",
 "the filters compose; tests check each one alone or in a handful of pairs",
 ["internal/focus.go", "internal/spec.go", "types/file_filter.go", "types/label_filter.go"], [("ApplyNestedFocusPolicyToTree, ApplyFocusToSpecs", "internal/focus.go"), ("ParseFileFilters", "types/file_filter.go")])
prop("C07", "Label filter language: parsing and evaluation follow the documented grammar",
 "A label filter is accepted exactly if it is a sentence of the documented language (labels, ! && || , parentheses, /regexp/, key: set operations containsAny, containsAll, consistsOf, isSubsetOf, isEmpty with {..} arguments), whatever the spacing, and then matches a set of labels exactly as its boolean and set meaning says, with ! binding tightest, then &&, then || and ','. Labels are trimmed and compared case-insensitively; malformed filters and invalid labels are rejected, never misread or crash.",
 ["inputs"], "every token sequence up to a bounded length over an alphabet of all operators and several labels, with every label set over a small universe, with spacing and case variants",
 "the parser is hand written with its own precedence tree; tests cover a few dozen expressions",
 ["types/label_filter.go"], [("lexer and tree nodes", "types/label_filter.go constructLabelFilterFunc"), ("ValidateAndCleanupLabel", "types/label_filter.go")])
prop("C08", "Spec order: a seeded permutation that keeps ordered units together",
 "For every seed the order of specs is a permutation of all specs that depends only on the tree and the seed, not on which other filters were applied or the parallel process number. Without --randomize-all top-level containers (and specs in them) stay together and in definition order inside, with it all specs are shuffled; in both cases the specs of an Ordered container stay contiguous and in definition order. Serial specs form their own list, which the caller runs after the parallel one.",
 ["programs", "inputs", "configurations"], "every tree of a family (up to 3 top-level nodes, nesting, Ordered, Serial) x a range of seeds x randomize-all on/off",
 "tests check single seeds or statistical properties; invariance needs all trees and seeds",
 ["internal/ordering.go"], [("OrderSpecs", "internal/ordering.go")])
prop("C09", "Parallel runs: every spec runs exactly once across processes; Serial runs alone",
 "With N processes sharing a server, for every interleaving of their steps each spec that is to run is run by exactly one process, the specs of an Ordered container by one process in order, and every process agrees on which specs exist. Specs marked Serial run only on process 1 and only after every other process has finished its work (or exited). If a process dies, every spec that had not been handed to it is still run by the others (those that only process 1 may run excepted, if it is the one that died) and the run still ends.",
 ["schedules", "programs", "crash_points"], "2-3 processes (real suites against the real server handler), small trees with Serial and Ordered marks, every interleaving of their server calls, and a crash of a non-primary process at every call",
 "real parallel tests observe one interleaving per run; mutual exclusion and exactly-once must hold for all of them",
 ["internal/suite.go", "internal/parallel_support/server_handler.go", "internal/counter.go", "internal/ordering.go"], [("runSpecs parallel loop and serial phase", "internal/suite.go"), ("counter", "internal/parallel_support/server_handler.go"), ("BlockUntilNonprimaryProcsHaveFinished", "internal/parallel_support/server_handler.go")])
prop("C10", "SynchronizedBeforeSuite and ReportBeforeSuite synchronise all processes",
 "For every interleaving, the first function of SynchronizedBeforeSuite runs only on process 1 and exactly once, and the second runs on every process only after it has passed, with exactly the bytes it returned; if it fails, is skipped, is interrupted or process 1 disappears before completing it, the second function runs nowhere, no spec runs on any process, no process waits for ever, and the suite fails (except for a skip). ReportBeforeSuite runs on process 1 only and completes before any other process starts; its failure keeps the other processes from running specs.",
 ["schedules", "crash_points", "inputs"], "2-3 processes, every outcome of the process-1 function, every interleaving of server calls, process 1 crashing at every point before completion",
 "the failure and crash cases need particular timings that tests do not control",
 ["internal/suite.go", "internal/parallel_support/server_handler.go", "internal/parallel_support/http_server.go", "internal/parallel_support/rpc_server.go"], [("BeforeSuiteCompleted / BeforeSuiteState", "internal/parallel_support/server_handler.go"), ("runSuiteNode", "internal/suite.go")])
prop("C11", "End of a parallel suite: process 1 finishes last and sees everything",
 "For every interleaving, the process-1 functions of SynchronizedAfterSuite, suite cleanups on process 1 and ReportAfterSuite run on process 1 only after every other process has finished (or died), while the all-processes function runs on every process. ReportAfterSuite receives one aggregated report containing the spec reports of all processes that finished, each exactly once, with success only if all processes succeeded; if a process disappeared without reporting, the suite fails and says so.",
 ["schedules", "crash_points"], "2-3 processes, every interleaving of their server calls, a non-primary process crashing at every call",
 "tests cannot place a process exit between any two server calls of another process",
 ["internal/suite.go", "internal/parallel_support/server_handler.go", "types/types.go"], [("AggregatedNonprimaryProcsReport, HaveNonprimaryProcsFinished", "internal/parallel_support/server_handler.go"), ("Report.Add", "types/types.go"), ("runReportSuiteNode", "internal/suite.go")])
prop("C12", "Abort and fail-fast in one process stop all processes",
 "When a process aborts the suite, or fails with fail-fast on, then for every interleaving every other process starts no further spec once it has observed the abort, the specs it skips are reported as skipped, teardown and cleanups of work in progress still run on every process, and the run ends as failed. A spec is never reported as passed because of the abort, and no process hangs.",
 ["schedules"], "2-3 processes, every interleaving of server calls and abort polls, every outcome of a bounded number of bodies",
 "the abort reaches other processes at any point of their execution; tests see one",
 ["internal/interrupt_handler/interrupt_handler.go", "internal/parallel_support/server_handler.go", "internal/suite.go"], [("PostAbort / ShouldAbort polling", "internal/interrupt_handler/interrupt_handler.go")])
prop("C13", "The parallel server reports each spec once, whole, in completion order",
 "Whatever the concurrent arrival of calls from the processes, the server announces the suite beginning once and before anything else, forwards each completed spec report exactly once and not interleaved with another, buffers those that complete before all processes have begun, and ends the suite exactly once after all processes have ended, with success only if all succeeded. Its counter hands out every index exactly once, and synchronous reads (before-suite state, aggregated report, abort) return only values that were set.",
 ["schedules", "histories"], "every interleaving, at the granularity of single statements, of 2-3 threads issuing short sequences of calls on the real handler, up to a preemption bound",
 "the handler is a shared object behind a mutex; only an explorer reaches all interleavings of check-then-act sequences",
 ["internal/parallel_support/server_handler.go"], [("ServerHandler lock and buffers", "internal/parallel_support/server_handler.go")])
prop("C14", "Interrupts: each signal escalates once; cleanup and reports still run",
 "On a first interrupt the current interruptible node has its context cancelled, and if it does not stop within its grace period it is left behind; no further spec or setup node starts, while teardown nodes, cleanups and reporting nodes of everything entered still run, and remaining specs are reported skipped. A second interrupt skips cleanup and goes to reporting, a third stops everything at once. The suite then fails, and every spec is still reported exactly once with the interrupted state on the one that was running.",
 ["fault_sequences", "programs", "histories"], "every point of the execution of a family of suites at which one, two or three interrupts can arrive (during any body, which then returns, waits for its context, or hangs, with or without context)",
 "tests interrupt at chosen points with real time; the property is about every point",
 ["internal/suite.go", "internal/group.go", "internal/interrupt_handler/interrupt_handler.go"], [("runNode select loop", "internal/suite.go"), ("InterruptLevel", "internal/interrupt_handler/interrupt_handler.go")])
prop("C15", "Timeouts: deadline, cancellation, grace period and verdict",
 "A node with a timeout has its context cancelled exactly when the earliest of its node timeout, its spec's timeout and the suite's timeout expires, and not before; if it does not return within its grace period Ginkgo moves on and says so, and a node that returns in time is not timed out. The spec is then timed out (or keeps the failure the node reported after cancellation as an additional failure), its teardown runs with its own limits, and other specs continue unless it was the suite timeout, after which no further spec runs.",
 ["programs", "inputs", "schedules"], "every combination of node, spec and suite timeouts and grace periods from a small set, body behaviours (finish before, at, after the deadline, on cancellation, during and after the grace period, never; failing or passing) in virtual time",
 "real-time tests cannot place a body's return at, just before and just after each deadline",
 ["internal/suite.go", "internal/group.go", "internal/spec_context.go", "internal/node.go"], [("runNode deadlines", "internal/suite.go"), ("SpecTimeout", "internal/group.go")])
prop("C16", "Failure recording is race-free: the first failure wins, none is lost",
 "When several goroutines call Fail, Skip, AbortSuite or panic concurrently, in every interleaving the recorded outcome is exactly one of them, complete and untorn, a recorded failure is never replaced by a later one or by a skip (an abort excepted), later ones are kept as additional information where documented, and draining returns it exactly once and leaves a clean state for the next node.",
 ["schedules"], "every statement-level interleaving of 2-3 goroutines with 1-2 operations each, up to a preemption bound",
 "the race detector and repeated runs only see sampled schedules",
 ["internal/failer.go", "core_dsl.go"], [("Failer lock and state", "internal/failer.go")])
prop("C17", "Report entries, By steps and progress are recorded once, in order",
 "AddReportEntry, By, AttachProgressReporter and progress reports called from any number of goroutines while a spec runs are each recorded in that spec's report exactly once, none in another spec's, with strictly increasing timeline positions in an order consistent with program order, and with text offsets that never exceed the captured output. Detaching a progress reporter is effective and attaching or detaching concurrently never loses another.",
 ["schedules"], "every statement-level interleaving of 2-3 goroutines with 1-2 operations each on the real suite, up to a preemption bound",
 "data races and lost updates appear only in particular interleavings",
 ["internal/suite.go", "internal/progress_reporter_manager.go", "internal/report_entry.go"], [("selectiveLock", "internal/suite.go"), ("generateTimelineLocation", "internal/suite.go"), ("ProgressReporterManager", "internal/progress_reporter_manager.go")])
prop("C18", "GinkgoWriter keeps every byte once, in order, and streams it indented",
 "Bytes written to GinkgoWriter by any number of goroutines appear in the spec's captured output exactly once, each Write contiguous and each goroutine's writes in order, until truncated between specs, and are passed unmodified to every attached tee. In streaming mode the same bytes also reach the output stream with each line indented exactly once, for every way of splitting the text over Write calls; in buffering mode nothing is streamed. Printing helpers and the logr sink add no or lose no byte.",
 ["inputs", "schedules"], "every sequence of writes over an alphabet with newlines, split at every position, modes, truncations and tees; every statement-level interleaving of 2-3 goroutines up to a preemption bound",
 "tests write a few strings from one goroutine",
 ["internal/writer.go"], [("Writer lock, indentation state", "internal/writer.go")])
prop("C19", "Output interception captures exactly what is written while it is on",
 "Between starting and stopping interception, everything written to file descriptors 1 and 2 by this process or by child processes it waits for is captured in full and in order, and nothing written before or after is; while paused, output goes to the original destination. Any sequence of start, stop, pause, resume and shutdown leaves standard output and error usable and connected to the original destinations, leaks no file descriptor, and does not block even when large amounts of output are written.",
 ["histories", "inputs"], "every sequence of interceptor operations and writes up to a bounded length, on both interceptor implementations, in a child process of its own",
 "tests run a few sequences; descriptor leaks and misrouting depend on the history",
 ["internal/output_interceptor.go", "internal/output_interceptor_unix.go"], [("genericOutputInterceptor", "internal/output_interceptor.go"), ("dup3 implementation", "internal/output_interceptor_unix.go")])
prop("C20", "The interrupt handler delivers every signal and abort exactly once",
 "Each interrupt signal (signals that arrive while one is pending count as one) raises the interrupt level by one up to the maximum, an abort seen on the server raises it if nothing has interrupted yet, with the right cause, and each closes exactly the status channel that was current; an observer that took a status before can always detect the change, and a status taken after shows the new level. Concurrent observers, signals, aborts and Stop never panic, deadlock or lose a level; after Stop nothing is delivered.",
 ["schedules", "fault_sequences"], "every statement-level interleaving of observers, one or two signals, the abort poll and Stop, up to a preemption bound",
 "the handler is three goroutines and channels that are swapped under a lock; tests exercise a single order",
 ["internal/interrupt_handler/interrupt_handler.go"], [("registerForInterrupts goroutines", "internal/interrupt_handler/interrupt_handler.go"), ("Status", "internal/interrupt_handler/interrupt_handler.go")])
prop("C21", "The JSON report is a faithful, reloadable account of the run",
 "The JSON report of a run decodes to reports equal to the ones the suite produced - every spec, state, failure (also additional and nested ones), label, timeline item, attempt count, captured output and suite-level field, whatever valid text texts, messages and output contain; values of report entries are preserved as their JSON encoding (if they have one) and their representation. Merging the reports of several suites yields them all, in order, none lost, and enumerations survive encoding and decoding with every value.",
 ["inputs"], "every spec state, node type, failure shape and a set of difficult texts in every textual field, bounded product; merges of up to three files",
 "tests round-trip a few reports",
 ["reporters/json_report.go", "types/types.go", "types/enum_support.go", "types/report_entry.go"], [("GenerateJSONReport, MergeAndCleanupJSONReports", "reporters/json_report.go"), ("SpecReport.MarshalJSON", "types/types.go")])
prop("C22", "The JUnit report is well-formed XML with the right counts and cases",
 "For every run the JUnit report is well-formed XML with exactly one test case per spec and suite node that is to be listed, whose status and failure, error or skipped element agree with its state; the tests, failures, errors, skipped and disabled counts agree with the cases of the file, whatever characters texts, messages and output contain. Merged reports contain all suites with totals equal to their sums, and the TeamCity report is parseable likewise.",
 ["inputs", "configurations"], "every spec state, node type and failure shape x configuration options x difficult texts, bounded product",
 "tests check a few reports; counts and elements must agree for all states and options",
 ["reporters/junit_report.go", "reporters/teamcity_report.go"], [("GenerateJUnitReportWithConfig", "reporters/junit_report.go"), ("MergeAndCleanupJUnitReports", "reporters/junit_report.go")])
prop("C23", "Reporting nodes always run, once per spec, with the spec's state",
 "ReportBeforeEach nodes run for every spec, also pending and skipped ones, before it, outermost first; ReportAfterEach nodes run for every spec after all its teardown and cleanups, innermost first, and receive its final state and failure; ReportBeforeSuite and ReportAfterSuite run once per suite, first and last, the latter with a report containing every spec and suite node, also when BeforeSuite failed. A failing reporting node fails the spec (or suite) without hiding an earlier failure and without keeping other reporting nodes from running.",
 ["programs", "inputs", "histories"], "subsets of reporting nodes at two levels and suite level with pending specs and Ordered containers, every assignment of outcomes with a bounded number of non-passing bodies",
 "combinations of failures in reporting nodes and specs are not sampled by tests",
 ["internal/suite.go", "internal/group.go"], [("reportEach", "internal/suite.go"), ("runReportSuiteNodesIfNeedBe", "internal/suite.go")])
prop("C24", "The CLI's exit status and reports reflect every suite",
 "ginkgo run over several packages exits with a non-zero status if and only if some suite failed to compile, failed, crashed, timed out, was interrupted, or has a programmatic focus (its own status), and with --keep-going runs the remaining suites, without it skips and reports them as skipped. --repeat and --until-it-fails stop at the first failure, and --randomize-suites and parallel compilation change only the order. The requested report files contain the reports of all suites that ran.",
 ["configurations", "fault_sequences", "schedules"], "every outcome vector over up to three stub suites (pass, fail, crash, does not compile, focused, empty) x keep-going, serial/parallel, repeat, report options",
 "tests run single outcomes; the verdict is over combinations",
 ["ginkgo/run/run_command.go", "ginkgo/internal/run.go", "ginkgo/internal/compile.go", "ginkgo/internal/profiles_and_reports.go"], [("RunSpecs", "ginkgo/run/run_command.go"), ("RunCompiledSuite", "ginkgo/internal/run.go"), ("FinalizeProfilesAndReportsForSuites", "ginkgo/internal/profiles_and_reports.go")])
prop("C25", "Parallel compilation delivers every suite once, in order, and stops cleanly",
 "The parallel compiler hands out suites in the order given, each exactly once and only after its compilation finished, with at most the allowed number compiling at a time; once stopped it compiles no further suite than those a compiler has already taken up, never blocks its caller, and leaks no goroutine - in every interleaving of compilers, consumer and stop.",
 ["schedules", "fault_sequences"], "every interleaving at channel and statement granularity of up to 3 suites, 1-3 workers, a consumer and a stop at any point, with compile failures",
 "the compiler is goroutines and channels; tests run one schedule",
 ["ginkgo/internal/compile.go"], [("OrderedParallelCompiler", "ginkgo/internal/compile.go")])
prop("C26", "Merging coverage profiles adds up exactly and loses no block",
 "Merging cover profiles of several suites or processes yields, for every file and block, the sum (for mode count and atomic) or the disjunction (for mode set) of the inputs' counts, each block once, in position order, whatever the order of inputs and blocks; the merge does not depend on the order of the inputs. Profiles that cannot be merged (different modes, partly overlapping blocks) are reported as errors, and dumping and parsing again gives the same profile.",
 ["inputs"], "every pair and triple of profiles with up to 3 blocks from a small universe of positions, counts and modes",
 "tests merge one or two hand-written profiles",
 ["ginkgo/internal/gocovmerge.go", "ginkgo/internal/profiles_and_reports.go"], [("AddCoverProfile, mergeProfileBlock", "ginkgo/internal/gocovmerge.go")])
prop("C27", "Configuration survives the CLI-to-suite hand-off unchanged",
 "Every suite, reporter and go-test setting given to the ginkgo command reaches the suite process with the same value: the generated arguments parse back to the configuration they were generated from, for every combination of values including repeated, empty and special ones. Build flags are passed to the go tool exactly when given, unknown or contradictory settings are rejected by validation, and deprecated flags keep their meaning.",
 ["configurations", "inputs"], "every setting with each value of a small set of difficult values, alone and in pairs with every other setting",
 "tests check a few fields; each field goes through reflection-based generation and parsing",
 ["types/config.go", "types/flags.go"], [("GenerateGinkgoTestRunArgs, GenerateFlagArgs", "types/config.go, types/flags.go"), ("VetConfig", "types/config.go")])
prop("C28", "unfocus removes exactly the programmatic focus and nothing else",
 "ginkgo unfocus rewrites every Go test file so that no programmatic focus remains - F-prefixed containers, subjects, tables and entries and Focus decorators that are given to them, also package-qualified - and the file differs from the original in nothing else: comments, formatting, strings, other identifiers and files without focus are untouched byte for byte. The result still compiles whenever the original did (apart from an import that only the focus needed), and running it again changes nothing.",
 ["inputs", "programs"], "every program of a small grammar of spec trees with focus marks (plain, dotted, in comments, in strings, own identifiers, several decorators, layouts)",
 "tests compare one fixture file",
 ["ginkgo/unfocus/unfocus_command.go"], [("scanForFocus, updateFile", "ginkgo/unfocus/unfocus_command.go")])
prop("C29", "outline describes exactly the tree in the source",
 "For every Go test file that uses Ginkgo's DSL, ginkgo outline lists each container, subject, table, entry and setup node exactly once, in source order, nested as in the source, with its text, labels, and byte range; focused, pending and spec marks agree with the focus and pending rules (innermost focus wins, pending inherited). The CSV, indented and JSON forms carry the same tree.",
 ["inputs", "programs"], "every program of a small grammar of spec trees with focus and pending marks and import styles",
 "tests compare a fixed set of fixture files",
 ["ginkgo/outline/outline.go", "ginkgo/outline/ginkgo.go", "ginkgo/outline/import.go"], [("FromASTFile", "ginkgo/outline/outline.go"), ("BackpropagateUnfocused, PropagateInheritedProperties", "ginkgo/outline/outline.go")])
prop("C30", "Tables generate one spec per entry with the right text and parameters",
 "A DescribeTable generates, in order, exactly one spec per entry (with slices of entries flattened), whose body receives exactly the entry's parameters (also nil, variadic, context, and interface ones) and whose text is the entry's string, or that of its description function or format, or of the table's default; DescribeTableSubtree generates a container likewise. Entries whose parameters do not fit the body (number or type) are reported as an error of that spec only, and decorators on table and entry take effect on exactly that table or entry.",
 ["programs", "inputs"], "every combination of body signatures and entry parameter lists from a small alphabet x description forms x decorators",
 "reflection-based parameter validation has many cases; tests sample them",
 ["table_dsl.go"], [("generateTable, validateParameters, computeValue", "table_dsl.go")])
prop("C31", "Invalid suites are rejected when the tree is built, valid ones accepted",
 "A tree is accepted if and only if it obeys the documented rules: setup nodes and decorators only where they are allowed (for example BeforeAll and OncePerOrdered, Ordered, ContinueOnFailure, Serial, Flake/MustPass, timeouts and contexts, labels), bodies of the right type, at most one of each suite node, nothing declared while the suite is running. Each accepted decorator is then in effect on exactly the node it was given to, whatever the order and nesting of the arguments, and an invalid tree is reported with an error at the location of the offending node.",
 ["programs", "inputs"], "every node kind x every set of up to three decorators from the full list x several body types x nesting contexts",
 "the rules form a matrix of node kinds and decorators of which tests check single cells",
 ["internal/node.go", "internal/suite.go", "internal/tree.go", "types/errors.go"], [("NewNode", "internal/node.go"), ("PushNode, pushSuiteNode", "internal/suite.go")])
prop("C32", "watch reruns exactly the suites affected by a change",
 "After any sequence of changes (adding, modifying, deleting files, in the suite, its dependencies up to the configured depth, or elsewhere), watch reports as changed exactly the suites whose own package or a watched dependency changed in a matching file since the last look, each once, and new and removed suites as such; a file that did not change or does not match the filter triggers nothing.",
 ["histories", "inputs"], "every sequence of file operations up to a bounded length on a small module tree with a chain of dependencies and depth settings",
 "tests make one change at a time in one tree",
 ["ginkgo/watch/delta_tracker.go", "ginkgo/watch/package_hash.go", "ginkgo/watch/package_hashes.go", "ginkgo/watch/dependencies.go", "ginkgo/watch/suite.go"], [("DeltaTracker.Delta", "ginkgo/watch/delta_tracker.go"), ("PackageHash", "ginkgo/watch/package_hash.go")])
prop("C33", "Dry run and preview report the specs that would run, and run nothing",
 "With --dry-run, and with PreviewSpecs, no setup, subject, teardown or suite node body runs, and every spec that a real run would run is reported as passed, the others as skipped or pending exactly as in a real run, in the same order for the same seed. Reporting nodes still run in a dry run and receive those reports. Previewing any number of times leaves the suite such that a later real run behaves as if there had been no preview.",
 ["programs", "configurations", "histories"], "every tree of a family with every kind of node, focus, pending, Ordered and filters; preview followed by a run",
 "tests dry-run one tree; equality with the real run must hold for all",
 ["internal/suite.go", "internal/group.go", "core_dsl.go"], [("DryRun handling", "internal/group.go, internal/suite.go"), ("Clone", "internal/suite.go"), ("PreviewSpecs", "core_dsl.go")])
prop("C34", "Suite-level setup and teardown run once, and always tear down",
 "BeforeSuite (or SynchronizedBeforeSuite) runs once before every spec if any spec is to run, and if it fails or skips no spec runs; AfterSuite (or SynchronizedAfterSuite) then runs once after all specs, whatever happened before, followed by suite-level cleanups in reverse order of registration. None of them runs if no spec is to run, each is reported once with its state, and a failure in any of them fails the suite.",
 ["programs", "inputs", "histories"], "every subset and kind of suite nodes x pending specs x fail-fast x every assignment of outcomes and cleanups with a bounded number of deviations",
 "tests try single failures",
 ["internal/suite.go"], [("runBeforeSuite, runAfterSuiteCleanup, runSuiteNode", "internal/suite.go")])
prop("C35", "Both parallel transports carry every call and value faithfully",
 "For each of the two transports every client call has on the server exactly the effect, and returns exactly the value, that the in-memory handler has and returns for the same call, with every report, event, byte and state value intact, and blocking calls return when and only when the condition holds. When the server is gone or refuses, a call returns an error (or, for a write, a short count with an error) and never panics or blocks for ever.",
 ["inputs", "fault_sequences", "histories"], "every client call with a set of difficult payloads on both transports, in every order of short call sequences, and with the server closed before each call",
 "tests exercise each call once with simple payloads",
 ["internal/parallel_support/http_client.go", "internal/parallel_support/http_server.go", "internal/parallel_support/rpc_client.go", "internal/parallel_support/rpc_server.go"], [("http handlers and client", "internal/parallel_support/http_server.go"), ("rpc handlers and client", "internal/parallel_support/rpc_server.go")])
prop("C36", "The console report says what happened: verdict, counts and every failure",
 "For every run and every verbosity setting the console output ends with a verdict and counts of run, passed, failed, pending, skipped, flaked and repeated specs that agree with the spec reports, and, if there were several failures, names every failed spec or node with its location in the summary of failures; each failure is printed once with its message and location. With no-color the output contains no escape sequences, and spec texts, messages and captured output appear unaltered up to indentation.",
 ["inputs", "configurations"], "every spec state, node type and failure shape, pairs of specs x verbosity, succinct, color and silence settings",
 "tests assert on fixed expected outputs for chosen cases",
 ["reporters/default_reporter.go", "formatter/formatter.go", "types/types.go"], [("DefaultReporter", "reporters/default_reporter.go"), ("SpecReports counting helpers", "types/types.go")])
prop("C37", "Slow nodes produce progress reports exactly at the configured times",
 "A node that runs longer than its poll-progress-after delay yields a progress report at that time and then at each interval, until it ends, and none otherwise; decorators override the command-line values, zero disables them. Each report names the spec and node then running, includes what attached progress reporters return at that time, and after the node ended none is emitted.",
 ["programs", "inputs", "schedules"], "every combination of delay and interval settings on command line and nodes, and of node durations around the deadlines, in virtual time",
 "real-time tests use one delay and generous tolerances",
 ["internal/suite.go", "internal/progress_report.go"], [("runNode emitProgress timers", "internal/suite.go")])

CLAIMED = [l.strip() for l in open(os.path.join(HERE, "claimed.txt")) if l.strip() and not l.startswith("#")]
REASONS = {}
NOTES = json.load(open(os.path.join(HERE, "notes.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in CLAIMED:
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", NOTES["default"]["technique"]), level="model_checking", level_note=n.get("note", NOTES["default"]["note"])))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, "The check for this property is not built yet.")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")
