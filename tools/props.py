import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------- verdicts
p("V01","The first outcome a node records is its outcome",
 "While a node runs, the first failure, skip, abort or panic that any goroutine records decides that node's outcome, and its message and location; everything recorded later for the same node is ignored. Collecting the outcome returns state and details together and leaves a clean passing record for the next node. All of this holds under any interleaving of the goroutines that record and collect.",
 ["schedules","histories"],"every sequence and interleaving of Fail/Skip/Abort/panic/collect calls",
 "Tests call the recorder sequentially with a few pairs of outcomes; the guarantee ranges over all ordered pairs and all goroutine interleavings.",
 ["internal/failer.go"],[("first-outcome-wins guard under one lock","internal/failer.go Failer.{Fail,Skip,AbortSuite,Panic,Drain}")],
 [("state/failure","recorded outcome of the node being run","internal/failer.go Failer")])
p("V02","Panics and goroutine exits in user code are contained; one outcome per node",
 "Whatever the user's code in a node does - return, panic with any value (nil included), or terminate its goroutine - the run continues and exactly one outcome is delivered for that node: Panicked unless an earlier outcome was recorded or the body returned normally. A panic raised while a container body, a table entry or a progress reporter runs is turned into an error or a recorded failure and never takes the process down.",
 ["programs","inputs"],"every way user code can leave a node body, container body or callback",
 "Tests exercise a few panics; they cannot show that no path out of a user callback misses the recovery or delivers zero or two outcomes.",
 ["internal/suite.go","core_dsl.go","table_dsl.go","internal/progress_reporter_manager.go","internal/report_entry.go"],[("recover-or-unfinished handler in the node goroutine","internal/suite.go runNode"),("recover around container bodies","internal/suite.go PushNode"),("deferred recovery helper","core_dsl.go GinkgoRecover")])
p("V03","A spec's verdict is never downgraded by a later node",
 "Within one attempt, once a setup or subject node ends in anything but success the remaining setup and subject nodes do not run, and no later teardown, cleanup or reporting node may replace that failing verdict with success, with a skip or with another failure (only an abort may replace it); the later failure is kept as an additional failure instead. Conversely a failing teardown, cleanup or reporting node turns a passing spec into a failing one, with that node's details.",
 ["histories","programs"],"every sequence of node outcomes in an attempt",
 "The tests sample a few sequences of outcomes; the guarantee quantifies over all 9 outcome values at every node position.",
 ["internal/group.go","internal/suite.go"],[("break on first non-passing node; guarded override after","internal/group.go attemptSpec"),("override guard in reporting nodes","internal/suite.go reportEach")])
p("V04","Suite success is monotone and every failure source clears it",
 "A run starts successful, and after anything has marked it failed nothing marks it successful again. Every failing spec or suite-level node, a failure to learn which spec to run next, pending or empty suites under the corresponding fail-on flags, an interrupt, an elapsed suite timeout and a failing report node each mark it failed, and the value handed to the caller and to the reporters at the end is that mark.",
 ["histories","configurations","fault_sequences"],"every run: any combination of failing nodes, interrupts, timeouts, flags and coordination errors",
 "Tests exercise each failure source alone; combinations and orderings (for example a late report node after an interrupt) are unbounded.",
 ["internal/suite.go"],[("SuiteSucceeded writes","internal/suite.go runSpecs, processCurrentSpecReport, runReportSuiteNodesIfNeedBe")],
 [("report.SuiteSucceeded","overall verdict","internal/suite.go Suite.report")])
p("V05","The test process exits unsuccessfully exactly when the suite did not succeed",
 "Running a suite marks the enclosing Go test failed if and only if the suite did not succeed, and the process leaves with the dedicated programmatic-focus exit code only when focus was set in code, the suite otherwise succeeded and no CI override is set. Configuration errors, tree-building errors and a second run of the suite terminate with a failing exit code before any spec runs. Reports configured for generation are written before the process leaves, and a failure to write one is surfaced as a failure.",
 ["configurations","histories"],"every combination of suite result, focus, environment and configuration error",
 "The exit decision lives in a process-global entry point that unit tests cannot run repeatedly; integration tests sample a few combinations.",
 ["core_dsl.go","reporting_dsl.go"],[("exit decision","core_dsl.go RunSpecs")])
p("V06","The ginkgo command's exit status reflects every suite's result",
 "The command exits zero only if every suite it was asked to run compiled, ran and passed; a compile failure, a failing or unstarted suite, a process that exits non-zero or is killed by a signal, an interrupted run, or an error while combining the generated reports each make the exit status non-zero. A programmatic focus with otherwise passing suites gives the dedicated focus exit code. Each run of a suite starts from a fresh, failed outcome that only its own runner replaces.",
 ["configurations","fault_sequences","histories"],"every list of suites and every per-suite outcome, including interrupts between suites",
 "CLI tests run a handful of suites; they never combine interrupts, partial starts and report-merging errors.",
 ["ginkgo/run/run_command.go","ginkgo/internal/run.go","ginkgo/internal/test_suite.go","ginkgo/internal/profiles_and_reports.go","ginkgo/command/program.go"],[("suite state machine and exit decision","ginkgo/run/run_command.go RunSpecs, ginkgo/internal/run.go")])

# ---------------- lifecycle
p("L01","Each spec is announced, reported and finished exactly once, in order",
 "For every spec in the run, skipped and pending ones included, the reporter is told exactly once that the spec will run and exactly once that it ran, in that order; before-reporting nodes come after the announcement and before any node of the spec, after-reporting nodes come after all its nodes and before the final notification, and the final record joins the suite report exactly once. The record a spec is announced with names that spec: its containers, texts, locations, labels and attempts. The final notification carries the same record that is stored, sent to the parallel server and shown to after-reporting nodes' successors.",
 ["programs","histories"],"every spec, whatever its outcome, skip status and attempt count",
 "Integration tests check the sequence for selected fixtures; paths through skip statuses, retries and aborts are not enumerated.",
 ["internal/group.go","internal/suite.go"],[("per-spec sequence","internal/group.go run; internal/suite.go processCurrentSpecReport")])
p("L02","Setup runs outermost-first, teardown innermost-first, cleanup last",
 "In every attempt, setup nodes run ordered by ascending nesting level with all just-before nodes after all before nodes and the subject last; then just-after nodes and after nodes run by descending nesting level, and deferred cleanups run last, most recently registered first, per-spec cleanups before ordered-container cleanups. Nodes at equal nesting level keep their declaration order.",
 ["programs"],"every tree shape and every mix of setup, teardown and cleanup nodes",
 "Tests sample a few trees; the ordering is over arbitrary nesting and registration orders.",
 ["internal/group.go","internal/node.go","internal/suite.go"],[("sequence construction","internal/group.go attemptSpec"),("stable nesting-level sorts and reverse","internal/node.go Nodes")])
p("L03","Teardown and cleanup run whatever happened before",
 "After the setup and subject phase of an attempt ends for any reason - success, failure, skip, panic, timeout, interrupt or abort - the teardown phase is always entered: every teardown node at or above the level reached and every pending cleanup is considered, and a failure in one does not stop the others. Nodes deeper than the one that ended the setup phase are not run. Suite teardown and suite-level cleanups run whenever suite setup was entered, even if it or any spec failed.",
 ["programs","histories"],"every way the setup/subject phase can end",
 "Tests cover individual outcomes at individual nodes; the guarantee covers all pairs of ending and tree position.",
 ["internal/group.go","internal/suite.go"],[("unconditional teardown loop","internal/group.go attemptSpec"),("AfterSuite gate","internal/suite.go runSpecs")])
p("L04","Every registered cleanup runs at most once and at the right scope",
 "A cleanup registered while a node runs is attached to the scope of that node - spec, ordered container or suite - and registration is rejected outside a running node, inside a cleanup and inside a reporting node. It is removed from the pending list when it starts, so it never runs twice, and within a scope cleanups run in reverse order of registration; a cleanup callback's error or failure fails the spec.",
 ["programs","histories","schedules"],"every registration point and every order of registrations",
 "Tests check samples of scopes and orders; registration happens from any node type and any goroutine.",
 ["internal/suite.go","internal/node.go","internal/group.go"],[("node-type mapping","internal/suite.go pushCleanupNode"),("removal before running","internal/suite.go runNode"),("callback wrapping","internal/node.go NewCleanupNode")])
p("L05","Run-once setup and teardown of ordered containers run once per container",
 "A once-per-container setup node that has passed is not run again for later specs of the same container, and after one fails (or an earlier spec fails, unless the container continues on failure) the remaining specs of the container are skipped, not run. A run-once teardown node runs after the last spec of its container that will run, or earlier only if no further spec of the container will run; where an interrupt or abort between two specs ends the container, or the level it belongs to was never reached, it may not run at all. Specs of an ordered container always stay together, in order, on one process.",
 ["programs","histories"],"every ordered container, outcome sequence and focus/skip selection",
 "The decision combines outcome, attempt, position and node type; tests sample a few dozen combinations of hundreds.",
 ["internal/group.go","internal/ordering.go"],[("run-once tracker and skip status","internal/group.go"),("execution grouping","internal/ordering.go OrderSpecs")])
p("L06","Retry and repeat attempts stop exactly when their policy says",
 "With flake attempts, a spec is attempted until it first passes, is skipped, is aborted or is interrupted, and at most the configured number of times; with must-pass-repeatedly it is attempted until it first fails or is skipped, and exactly the configured number of times if it keeps passing; without either, exactly once. The verdict is that of the last attempt, each failed earlier flake attempt is kept as an additional failure, the attempt count reported is the number of attempts made, and output of all attempts is kept.",
 ["histories","configurations"],"every sequence of per-attempt outcomes and every attempt limit",
 "Tests use limits of 2-4 with a few outcome sequences.",
 ["internal/group.go"],[("attempt loop","internal/group.go run")])
p("L07","Specs that must not run never run",
 "A pending spec, a spec deselected by focus or filters, any spec after an interrupt, abort, fail-fast failure or elapsed suite deadline, and every spec of a dry run execute no setup, subject or teardown code. They are reported as pending, skipped, or (dry run only) passed, with pending taking precedence over skipped and skipped over the dry-run pass.",
 ["configurations","programs","histories"],"every combination of pending, skip, interrupt, deadline, ordered failure and dry-run conditions",
 "The precedence table has hundreds of rows; tests cover single conditions.",
 ["internal/group.go","internal/suite.go"],[("skip status decision","internal/group.go evaluateSkipStatus, run")])
p("L08","Reporting nodes always run and see the final record",
 "Per-spec reporting nodes run for every spec, including skipped and pending ones, and receive the record as it stands at that moment; suite-level reporting nodes run even if the suite was interrupted once or twice, after-suite ones on the first process only, with the aggregated record of all processes, before the end of the suite is announced. Only a third interrupt suppresses them.",
 ["programs","histories","configurations"],"every spec outcome, interrupt level and process number",
 "Tests sample interrupts at chosen points.",
 ["internal/suite.go","internal/group.go","types/types.go"],[("reportEach, runReportSuiteNodesIfNeedBe, interrupt gates","internal/suite.go")])

# ---------------- concurrency, interrupts, parallel
p("C01","A cancelable node always observes cancellation and never blocks the suite",
 "When a node's deadline passes, the suite's deadline passes or an interrupt arrives, the runner stops waiting for it after at most its grace period (immediately for nodes that take no context), records Timedout or Interrupted, and cancels its context before starting to wait. A node's context is also cancelled on every other way of leaving the node. The recorded outcome of a timed-out or interrupted node is never replaced by what the node does afterwards.",
 ["schedules","fault_sequences"],"every arrival order of completion, timeout, interrupt and grace expiry",
 "The interleavings of five event sources cannot be enumerated by timing-based tests.",
 ["internal/suite.go","internal/spec_context.go"],[("select loop","internal/suite.go runNode")])
p("C02","Interrupts only escalate, and each level allows exactly its nodes",
 "Each interrupt raises the level by one step - cleanup and reporting, reporting only, bail out - and it never falls again during the run; an abort announced by another process never raises it past the first step or replaces an existing cause. At each level exactly the permitted kinds of node start: after the first interrupt only cleanup and reporting nodes, after the second only reporting nodes, after the third none, every waiter is notified of each step, and an interrupt that arrives while the handler is busy is not lost.",
 ["schedules","histories"],"every sequence and interleaving of signals, aborts and queries",
 "Tests send a few signals in fixed order.",
 ["internal/interrupt_handler/interrupt_handler.go","internal/suite.go","types/types.go"],[("level/cause state machine under lock","internal/interrupt_handler/interrupt_handler.go"),("level gates","internal/suite.go runNode")])
p("C03","State shared with user goroutines is only touched under its lock",
 "Everything that user goroutines or progress signals may access while a node runs - the current spec record's entries, events and progress reports, the current node and its start time, the current step, the pending cleanups, the timeline counter, the failure record, the writer's buffer and tees - is only changed under the mutex that guards it on every path, and read under it by everything that runs outside the runner's own goroutine (the failure record, writer, progress reporters, interrupt state and console position: by everyone). Bytes read out of the writer are a copy of its buffer. A value computed from what shared state held is stored before the mutex is given back. No such mutex is ever left locked on a return or panic path or re-acquired by its holder.",
 ["schedules"],"every interleaving of the runner with user goroutines and signal handlers",
 "Race tests only see schedules that happen; a missing lock is usually invisible.",
 ["internal/suite.go","internal/writer.go","internal/failer.go","internal/progress_reporter_manager.go","internal/interrupt_handler/interrupt_handler.go","reporters/default_reporter.go"],[("mutex fields and their guarded fields","listed files")])
p("C04","The parallel coordinator is race-free and hands out each index once",
 "The coordinator gives each spec-group index to at most one process, counting up from zero without gaps, and all of its shared records are accessed under its lock. A request never leaves the lock held. The lock is not held while a request is answered over the network. Every spec record it receives is shown to the reporter exactly once, after the suite was announced and held ones first, in order; the end of the suite is announced once, when the last process has reported it, with all reports added up. Progress reports and output are passed on once, the reporter is told of one thing at a time, and a client never repeats a request whose answer was lost.",
 ["schedules"],"every interleaving of requests from all processes",
 "Tests issue requests sequentially.",
 ["internal/parallel_support/server_handler.go","internal/parallel_support/http_server.go","internal/parallel_support/rpc_server.go"],[("locked handler","internal/parallel_support/server_handler.go"),("counter","internal/counter.go")])
p("C05","No process of a parallel run waits forever for one that has died",
 "Whenever a process waits at the coordinator - for suite setup data, for before-suite reporting, for the other processes to finish or for their reports - the wait ends with an answer, or with the dedicated disappeared error once the awaited process is no longer alive; it polls otherwise, never treating a dead process as success. A registered process counts as finished exactly when it is no longer alive; one that has not registered yet counts as still to come.",
 ["crash_points","fault_sequences","schedules"],"death of any process at any point of the protocol",
 "Tests kill a process at one or two chosen points.",
 ["internal/parallel_support/server_handler.go","internal/parallel_support/http_client.go","internal/parallel_support/rpc_client.go"],[("alive probes and early/gone answers","internal/parallel_support/server_handler.go"),("poll loops","http_client.go, rpc_client.go")])
p("C06","Both coordination transports implement the same protocol",
 "For every coordination operation the HTTP and the RPC client reach the same handler operation with the same payload, and both map the handler's not-yet, gone and failed answers to the same client-visible results: poll again, the dedicated error, and an error respectively. No client operation reports success when the request failed.",
 ["inputs","fault_sequences"],"every operation, payload and server answer",
 "Tests run each operation against a healthy server; error answers are sampled.",
 ["internal/parallel_support/http_client.go","internal/parallel_support/http_server.go","internal/parallel_support/rpc_client.go","internal/parallel_support/rpc_server.go"],[("route/method tables","listed files")])
p("C07","Synchronized suite nodes run their first part once and in order",
 "The first-process part of a synchronized before-suite node runs only on process one and its bytes reach every process's second part; every other process waits for it and runs its second part only if it passed, failing, skipping or aborting like process one otherwise. The outcome is always announced to the waiting processes, whatever it was. The first-process part of a synchronized after-suite node and suite-level cleanups on process one run only after every other process has finished. The outcome of before-suite reporting nodes, run on process one alone, is announced and taken over likewise.",
 ["schedules","crash_points","configurations"],"every outcome of the first part, every process number and count",
 "Tests cover pass and one or two failure kinds with two processes.",
 ["internal/suite.go"],[("synchronized node branches","internal/suite.go runSuiteNode, runReportSuiteNodesIfNeedBe")])
p("C08","Specs marked serial never overlap with any other spec",
 "In a parallel run every group containing a serial spec is executed only by process one, and only after it has waited for all other processes to finish; all other groups are distributed by the shared counter and never by a private one. Every selected group appears exactly once in exactly one of the two lists.",
 ["schedules","programs","configurations"],"every set of specs and every process count",
 "Overlap is a timing property tests cannot sample exhaustively.",
 ["internal/ordering.go","internal/suite.go"],[("serial partition","internal/ordering.go OrderSpecs"),("barrier before serial groups","internal/suite.go runSpecs")])
p("C09","Spec order is a deterministic function of the tree and the seed",
 "The sequence of spec groups depends only on the spec tree and the ordering configuration: map iteration, time, environment, process number and unseeded randomness never influence it, so all processes compute the same order and a seed reproduces a run. Only the order of groups is permuted: specs of an ordered container stay consecutive in declaration order, and unless all specs are randomized the specs of one top-level container stay together in source order. Each subject of the tree becomes one spec that has exactly its own containers and the nodes declared in them.",
 ["inputs","configurations","schedules"],"every tree, seed and process",
 "Nondeterminism shows only across processes or runs with unlucky map orders.",
 ["internal/ordering.go","internal/spec.go","internal/tree.go"],[("seeded permutation over sorted keys","internal/ordering.go OrderSpecs")])

# ---------------- output & reports
p("O01","Captured output is always restored and attributed to its node",
 "Every start of standard-output interception is matched by exactly one stop on every path through the run, and what was intercepted is added to the record of the spec or suite node during which it was written. Pausing restores the original streams and resuming re-establishes interception; pausing is a no-op when not intercepting and resuming when intercepting, and no descriptor or pipe created by the interceptor is leaked.",
 ["programs","fault_sequences"],"every path through suite, spec and reporting nodes, including errors",
 "Tests exercise the ordinary path; error exits between start and stop are not sampled.",
 ["internal/output_interceptor.go","internal/output_interceptor_unix.go","internal/suite.go","internal/group.go"],[("start/stop pairing","internal/suite.go, internal/group.go"),("interceptor state machine","internal/output_interceptor.go")])
p("O02","Timeline events are paired and monotonically ordered",
 "Every node that starts emits one start event and, on every way of leaving it, exactly one matching end event carrying the same identity; a step with a callback likewise ends even if the callback panics. Every event, entry, failure and progress report gets a timeline position that is unique and strictly increasing in the order assigned, and is both stored in the record and forwarded to the live reporter.",
 ["programs","schedules"],"every way a node or step can end, any goroutine recording",
 "Tests check event lists of passing and failing specs only.",
 ["internal/suite.go"],[("deferred end events","internal/suite.go runNode, By"),("locked order counter","internal/suite.go generateTimelineLocation")])
p("O03","A machine-readable spec record loses no information",
 "Every exported field of a spec record, failure, timeline entry, progress report and suite report is carried through JSON encoding and decoding, and every declared value of every serialized enumeration maps to its own distinct text and back to the same value. This holds for the file reports and for the records processes exchange.",
 ["inputs"],"every record and every declared enumeration value",
 "Round-trip tests use a few hand-built records that leave many fields zero.",
 ["types/types.go","types/enum_support.go","types/report_entry.go","types/config.go"],[("custom marshalers and enum tables","types/types.go")])
p("O04","Every outcome is classified the same way in every report format",
 "In each generated report every failing state counts as a failure or error, panics and interruptions as their format's error class, skipped and pending specs as skipped or disabled, and only passed specs as passing, for every declared state. Totals written to the summary equal the per-spec classifications, and every spec that ran has exactly one element.",
 ["inputs"],"every declared spec state in every report format",
 "Fixtures contain only some states per format.",
 ["reporters/junit_report.go","reporters/teamcity_report.go","reporters/default_reporter.go","types/types.go"],[("state switches","reporters/junit_report.go, reporters/teamcity_report.go, reporters/default_reporter.go"),("failure-state mask","types/types.go")])
p("O05","A report that could not be written is reported as an error",
 "Generating, rewriting or merging a JSON, JUnit, TeamCity or coverage/profile file returns a non-nil error whenever creating, encoding, writing or reading any of its files fails, and the caller surfaces that error. Source files of a merge are removed only as part of a merge and unreadable ones are reported.",
 ["fault_sequences","crash_points"],"an I/O error at any operation",
 "Tests do not inject I/O errors.",
 ["reporters/json_report.go","reporters/junit_report.go","reporters/teamcity_report.go","ginkgo/internal/profiles_and_reports.go","reporting_dsl.go"],[("error returns","listed files")])
p("O06","User-supplied text is never interpreted as a format string",
 "Spec texts, failure messages, report entries, captured output and locations are never used as a printf-style format with operands anywhere on their way to console and file reports, and every dynamic value in TeamCity output is escaped. Every block the console reporter emits is written under the reporter's lock, so no block is torn by that of a concurrent event. Colour markup in texts is interpreted on purpose, and formats the user declares as such (entry descriptions, Printf-like methods) are the user's.",
 ["inputs","schedules"],"every string, including ones with % and {{ }} and format-specific metacharacters",
 "Tests use benign texts.",
 ["reporters/default_reporter.go","reporters/teamcity_report.go","formatter/formatter.go"],[("emit/f helpers, tcEscape","reporters")])
p("O07","What is written to GinkgoWriter arrives unchanged at every destination",
 "Every byte written to GinkgoWriter reaches the buffer kept for the spec and every attached writer exactly once, whole and in order, and, while streaming, the output, where each line that is not empty is indented once however it was split into writes; a write reports how much it took. Emptying the buffer after a spec detaches nobody and changes nothing else, attaching and detaching take effect with the next write, and the buffer's length and bytes are those written since it was last emptied. The print methods format into the writer as their names say.",
 ["inputs","histories"],"every sequence of writes, attachments, detachments, resets and mode changes",
 "Tests write a few whole lines.",
 ["internal/writer.go"],[("destinations of a write","internal/writer.go Write"),("attachments and reset","internal/writer.go TeeTo, ClearTeeWriters, Truncate")])

# ---------------- configuration, CLI, DSL
p("K01","Every command-line option reaches the setting it names, in every process",
 "Each declared option is bound to an existing setting of a compatible type, no two options of a command share a name, and every option accepted by the run command for the test process is passed on unchanged to each test process it starts, which accepts an option of the same name bound to the same setting. A setting at its zero value is passed exactly when the test process's own default differs from zero.",
 ["configurations","inputs"],"every option and value",
 "Tests set a few options; bindings are by reflection on strings, so a typo is only seen when that option is used.",
 ["types/config.go","types/flags.go","ginkgo/internal/run.go"],[("flag tables and key paths","types/config.go"),("argument generation","types/flags.go GenerateFlagArgs, types/config.go GenerateGinkgoTestRunArgs")])
p("K02","Invalid configuration is rejected before anything runs",
 "Every invalid combination of settings - conflicting verbosity, parallel process numbers out of range, a parallel run without a coordinator, dry run in parallel, until-it-fails with repeat, malformed label or file filters, non-positive limits and so on - yields an error, and any error stops the run before a spec or suite is started. A valid configuration yields none.",
 ["configurations"],"every combination of settings",
 "Tests check each conflict once.",
 ["types/config.go","core_dsl.go","ginkgo/run/run_command.go","ginkgo/watch/watch_command.go"],[("vetting functions and callers","types/config.go VetConfig, VetAndInitializeCLIAndGoConfig")])
p("K03","Selection filters compose as documented",
 "A spec is skipped if it is pending or deselected by any one of label filter, file focus, file skip, text focus or text skip, or by programmatic focus, which is applied in addition to every command-line filter and only when some spec is focused; label expressions follow boolean algebra with not binding tighter than and, and and tighter than or; line ranges are half-open. Filters of different kinds narrow each other; the values of one kind widen it. A focused container with a focused descendant that is not pending yields its focus to it.",
 ["inputs","configurations"],"every tree, filter expression and combination of filters",
 "Tests sample expressions and combinations.",
 ["internal/focus.go","types/label_filter.go","types/file_filter.go"],[("skip checks","internal/focus.go ApplyFocusToSpecs"),("label filter combinators","types/label_filter.go")])
p("K04","Focused, pending and excluded variants differ from the plain form only in that",
 "Every F-prefixed construct behaves as the plain one with the focus decoration and every P- or X-prefixed one as the plain one with the pending decoration; all pass text, decorations and location through unchanged. Every name re-exported by the shorthand packages denotes the same function, type or value as in the main package, and the unfocus and outline tools recognise every exported variant.",
 ["programs"],"every exported construct and its variants",
 "Tests call a few variants.",
 ["core_dsl.go","table_dsl.go","dsl/core/core_dsl.go","dsl/table/table_dsl.go","dsl/decorators/decorators_dsl.go","dsl/reporting/reporting_dsl.go","ginkgo/unfocus/unfocus_command.go","ginkgo/outline/ginkgo.go"],[("variant functions","core_dsl.go, table_dsl.go"),("re-exports","dsl/*")])
p("K05","Every accepted decoration has an effect and every misuse is an error",
 "Each argument recognised as a decoration is acted upon when the node is built, and each unrecognised argument, a missing or duplicate body, a decoration that is not allowed on the node's kind, or a bad body signature produces an error rather than being dropped. Conflicting decorations are rejected, and building a node never panics because of its arguments. The function a node keeps calls the user's function exactly once, with the context and payload its signature asks for; a cleanup's function also gets the arguments it was registered with, and an error it returns fails the spec. A value passed to AddReportEntry reaches the entry.",
 ["inputs","programs"],"every argument list of every construct",
 "Tests sample argument lists.",
 ["internal/node.go","types/errors.go"],[("decoration recognition and node builder","internal/node.go isDecoration, NewNode")])
p("K06","The testing.T stand-in maps each call to the right spec outcome",
 "On the object that replaces testing.T, every method that fails a test fails the spec, every method that skips skips it, every logging method writes to the captured writer, and every method that changes process-wide state registers a cleanup that restores the previous state. Error-like methods do not stop the spec differently from how their doc says, and failure locations point at the caller.",
 ["programs"],"every method and call order",
 "Tests check a few methods' visible effects.",
 ["internal/testingtproxy/testing_t_proxy.go","ginkgo_t_dsl.go"],[("proxy methods","internal/testingtproxy/testing_t_proxy.go")])
p("K07","Each DSL entry point is only effective in its phase",
 "Tree-building calls made while specs run, suite-level nodes in nested containers or more than one of a kind, run-phase calls made while the tree is built, and a repeated run or build are rejected with the dedicated error and have no effect on the tree or the run. A container body is executed exactly once, during tree construction, with the tree position restored afterwards even if it panics.",
 ["programs","histories"],"every construct called at every phase",
 "Tests call some constructs in some wrong phases.",
 ["internal/suite.go","core_dsl.go","types/errors.go"],[("phase guards","internal/suite.go PushNode, pushSuiteNode, pushCleanupNode, By, AddReportEntry")])
p("K08","The command's subprocesses and temporary resources never outlive the run",
 "Every test process the command starts is awaited exactly once and its result recorded, the coordinator it started is closed, and temporary binaries and per-process report files are removed, on every path out of a suite run, failures and interrupts included, that does not abort the command itself. No path waits for a process that was never started.",
 ["fault_sequences","schedules"],"every point at which starting or running a suite can fail",
 "Tests cover success and plain failure.",
 ["ginkgo/internal/run.go","ginkgo/internal/compile.go","ginkgo/run/run_command.go"],[("start/wait/close pairing","ginkgo/internal/run.go")])
p("K09","Table entries become specs that receive exactly their parameters",
 "Each entry of a table becomes one spec or subtree in order, keeping its own decorations; its body is called exactly once per run with the entry's own parameters, in order, and a parameter count or type mismatch or an invalid description makes that entry fail or be rejected with the dedicated error instead of panicking. Entries never observe another entry's parameters.",
 ["programs","inputs"],"every table, entry and parameter list",
 "Tests sample arities and types.",
 ["table_dsl.go"],[("parameter validation and closure per entry","table_dsl.go generateTable, validateParameters")])
p("K10","Watch mode reruns exactly the suites whose sources changed",
 "A suite is rerun if and only if a matching file of its package or of a dependency within the configured depth was added, modified or removed since it was last considered, and dependencies are tracked transitively up to that depth. A package that disappears and reappears is handled without a crash.",
 ["histories","inputs"],"every sequence of file-system changes",
 "Tests make a few edits.",
 ["ginkgo/watch/delta_tracker.go","ginkgo/watch/suite.go","ginkgo/watch/package_hash.go","ginkgo/watch/package_hashes.go","ginkgo/watch/dependencies.go"],[("hash comparison","ginkgo/watch")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
