#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

NOREGEN = "The suite only runs decorators that were generated and committed earlier, so nothing in templates/ is executed by any test; "

p("C01", "Decorators are transparent to arguments, results and panics",
  "Through every hosted decorator template, a call hands the wrapped implementation the caller's arguments unchanged and in position, and the caller gets exactly the results, or the panic, that the wrapped implementation produced for that very call, however many calls run at the same time (fallback, which runs implementations in goroutines of its own, is not required to carry panics). Decorators that are not meant to repeat, fan out or refuse calls invoke the wrapped implementation exactly once per call. The generated decorator compiles and implements the whole source interface.",
  ["inputs", "schedules", "fault_sequences", "programs"],
  "every template, every method shape (context or not, error or not, variadic, unnamed, embedded, several results of one type), every interleaving of concurrent calls, every pattern of slow, failing and panicking wrapped calls",
  NOREGEN + "the committed decorators are tested on one method, one call at a time, with constant results.",
  ["templates/", "generator/types.go", "generator/generator.go", "printer/printer.go"],
  [("delegation of a call to the base", "templates/* ({{$method.Pass}}, {{$method.Call}})"), ("parameter naming and passing", "generator/types.go:NewMethod, Pass, Call")],
  observe=["arguments and context seen by the wrapped implementation", "results seen by the caller"])

p("C02", "Circuit breaker opens, stays open and closes exactly as configured",
  "With a limit of N consecutive errors and an open interval D, calls of the error-returning methods are forwarded until N of them in a row (counted across all those methods, in some order consistent with real time) have completed with errors that are not on the ignore list; from then on, until D has elapsed, every new call fails at once with the circuit-open error and the wrapped implementation is not invoked. A success or an ignored error resets the count and closes the circuit; after D calls are forwarded again, and if such a call fails the circuit opens for another D. Elapsed time is what counts: steps of the wall clock neither shorten nor lengthen D.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "every N, D and ignore list, every history of concurrent calls with any outcomes and durations, every clock step",
  NOREGEN + "its test makes single-threaded calls of one method with N=2 and no ignore list.",
  ["templates/circuitbreaker"],
  [("admission check", "templates/circuitbreaker (RLock section)"), ("outcome accounting", "templates/circuitbreaker (Lock section)")],
  state=[("consecutive error count", "failed calls in a row", "templates/circuitbreaker:_consecutiveErrors"), ("open deadline", "instant until which calls are refused", "templates/circuitbreaker:_closesAt")],
  observe=["wrapped calls started", "errors returned to callers"])

p("C03", "A slow or stuck wrapped call holds up nobody else",
  "While a wrapped call is slow or never returns, other calls through the same decorator still reach the wrapped implementation and complete without waiting for it; the only permitted waiting is for a free member of a sync pool or for a rate-limit allowance. Wrapped implementations may call back into the decorator they are wrapped by without deadlock (for pools: while a free member exists).",
  ["schedules", "fault_sequences"],
  "every template, every set of concurrent calls, any subset of which stalls for ever or re-enters the decorator",
  NOREGEN + "no test runs two calls of a decorator at once except the pool and rate-limit ones, and none stalls a wrapped call.",
  ["templates/"],
  [("locks are not held across the wrapped call", "templates/circuitbreaker"), ("no lock at all", "templates/* others")],
  observe=["completion of calls whose wrapped call is not stalled"])

p("C04", "Fallback returns the first success, and an error only when nothing can succeed",
  "A call through a fallback returns the results of the implementation that first succeeded (for methods without an error result, the one that first returned), never a mixture and never another call's. A method without an error result whose context ends first returns zero results. A call returns an error only if every implementation has failed, in which case the error names each failure, or if its context ended first, in which case the error matches the context's error and names the failures seen so far.",
  ["schedules", "fault_sequences", "configurations"],
  "any number of implementations, intervals, per-implementation delays and outcomes, cancellation instants and interleavings, methods with and without context",
  NOREGEN + "its test uses at most two implementations with fixed real delays and only the method with a context.",
  ["templates/fallback"],
  [("result hand-over", "templates/fallback (_ch)"), ("error accumulation", "templates/fallback (_errorsList)")],
  observe=["results returned", "outcome and completion order of implementations"])

p("C05", "Fallback starts implementations in order, one per interval or failure",
  "Within one call the implementations are started at most once each, in the order given, the first one immediately. A further one is started whenever another full interval since the call began has elapsed, or one of the running implementations has failed, and not otherwise.",
  ["schedules", "fault_sequences", "configurations"],
  "any number of implementations, intervals, delays, outcomes and interleavings",
  NOREGEN + "no test looks at when an implementation is started.",
  ["templates/fallback"],
  [("staged start", "templates/fallback (spawning goroutine, _next, _ticker)")],
  observe=["start times of implementations in simulated time"])

p("C06", "A fallback call always returns, no result is ever lost",
  "Given at least one implementation, a call through a fallback returns as soon as any implementation has succeeded (or, for methods without an error result, returned), all of them have failed, or the call's context has ended, without needing any further time to pass. This holds in every interleaving of the caller and the implementations, including implementations that return instantly.",
  ["schedules", "fault_sequences"],
  "all interleavings of caller, spawner and implementations; stalls; methods with and without context or error",
  NOREGEN + "its test makes a handful of calls on one schedule with delayed implementations, and only of the method with a context.",
  ["templates/fallback"],
  [("result channel", "templates/fallback (_ch)"), ("waiting loop", "templates/fallback (select)")],
  observe=["call return event, bounded in simulated time"])

p("C07", "Rate limit is never exceeded in any window",
  "With burst B and rate R, in every window of length T the decorator forwards at most B + T*R + 1 calls, and by time T after construction at most B + T*R, however calls arrive: after long idle periods, concurrently, or with cancellations. A call that was not granted an allowance never reaches the wrapped implementation.",
  ["schedules", "histories", "configurations"],
  "any burst and rate, any arrival pattern, idle gaps, cancellations, stalls of the caller or of the refill, and interleavings",
  NOREGEN + "its test has a single caller that starts right after construction and samples two instants of real time.",
  ["templates/ratelimit"],
  [("token refill", "templates/ratelimit (time.Tick goroutine)"), ("token take", "templates/ratelimit (receive from _ticks)")],
  state=[("allowances", "tokens not yet used", "templates/ratelimit:_ticks")],
  observe=["instants at which wrapped calls start"])

p("C08", "Rate-limited callers make progress and can give up",
  "While callers are waiting, one of them is released every 1/R, and a call arriving when an allowance is available is not delayed; unused allowances up to the burst are kept. A method that takes a context and returns an error returns the context's error as soon as its context ends while waiting, without reaching the wrapped implementation and without using up an allowance.",
  ["schedules", "histories", "fault_sequences"],
  "any burst and rate, arrival pattern, cancellation instants and interleavings",
  NOREGEN + "cancellation while waiting is not tested at all.",
  ["templates/ratelimit"],
  [("cancellable wait", "templates/ratelimit (select on ctx.Done)"), ("token refill", "templates/ratelimit")],
  observe=["release instants", "errors returned on cancellation"])

p("C09", "Retry makes the right number of attempts and returns the last one",
  "A retrying decorator with retry count K calls the wrapped method once and then again only while the previous attempt failed, at most 1+K times in total (exactly once if K < 1), all with the caller's arguments. The caller gets exactly the results of the last attempt made; the calls of different callers do not share attempts. Methods that return no error are forwarded once.",
  ["schedules", "fault_sequences", "configurations"],
  "any K, interval, outcome sequence, context and interleaving of callers",
  NOREGEN + "its test has K at most 2 and constant outcomes.",
  ["templates/retry"],
  [("attempt loop", "templates/retry")],
  observe=["attempts per call", "results returned"])

p("C10", "Retries are paced and stop when the context ends",
  "The k-th retry of a call never starts before k intervals have passed since its first attempt failed, and while the context is alive it starts no later than one interval after the later of that instant and the end of the previous attempt. Once the context of a waiting call has ended, the call returns the last attempt's results without further waiting; methods without a context keep waiting for the interval.",
  ["schedules", "fault_sequences", "configurations"],
  "any interval, attempt durations, cancellation instants and interleavings",
  NOREGEN + "its test has one pre-cancelled context and never looks at timing.",
  ["templates/retry"],
  [("ticker wait", "templates/retry (_ticker)"), ("context wait", "templates/retry (ctx.Done)")],
  observe=["attempt start times in simulated time", "return time after cancellation"])

p("C11", "Round-robin pool spreads calls evenly under concurrency",
  "Each call through a round-robin pool is delegated to exactly one member, a single caller visits the members cyclically in the order given, and whenever no call is in progress the numbers of calls delegated to any two members differ by at most one, whatever the interleaving of concurrent callers and methods. An empty pool is refused at construction.",
  ["schedules", "histories"],
  "any pool size, any number of concurrent callers, methods and interleavings",
  NOREGEN + "its test is single-threaded with two members and one method.",
  ["templates/robinpool"],
  [("shared counter", "templates/robinpool (atomic.AddUint32)")],
  state=[("counter", "calls so far", "templates/robinpool:counter")],
  observe=["member that served each call"])

p("C12", "Sync pool members are used by one call at a time and never lost",
  "A member of a sync pool never serves two calls at the same time, a call is delayed only while every member is busy, and a member becomes available again when its call ends, whether it returned or panicked. After any history as many calls as there are members can be in progress at once, and waiting calls are served as members become free. A pool without members, where every call would wait for ever, is refused at construction.",
  ["schedules", "fault_sequences", "histories"],
  "any pool size, number of callers, call durations, panics and interleavings",
  NOREGEN + "its test runs three calls on two members once, on one real schedule, and none panics.",
  ["templates/syncpool"],
  [("take and put back", "templates/syncpool (pool channel, deferred send)")],
  state=[("free members", "members not in use", "templates/syncpool:pool")],
  observe=["overlap of calls per member", "progress of waiting calls"])

p("C13", "Timeout decorator bounds the context of each wrapped call",
  "For a method with a configured positive timeout, the context handed to the wrapped call ends at the earlier of the moment the caller's context ends and the timeout counted from the call, with the error that goes with whichever came first, it carries the caller's context values, and it is over once the call has returned. A method whose timeout is not set, or is not positive, passes on a context that ends only when the caller's does; each method obeys its own setting and concurrent calls do not affect each other.",
  ["schedules", "fault_sequences", "configurations"],
  "any timeouts per method, caller deadlines, cancellation instants, call durations and interleavings",
  NOREGEN + "its test only checks that a deadline exists or not, on one method.",
  ["templates/timeout"],
  [("derived context", "templates/timeout (context.WithTimeout)"), ("release", "templates/timeout (defer cancelFunc)")],
  observe=["instant and reason at which the wrapped call's context ends"])

p("C14", "Validating decorators stop invalid calls, and only those",
  "For a method that returns an error, if any argument offers validation and its validation fails, the wrapped implementation is not invoked and the caller gets the error of the first such argument in parameter order: unchanged for validate, as InvalidArgument with the same message for the gRPC and the Twirp variants. If no validation fails the call goes through unchanged, and a validation failing in one call has no effect on any other call running at the same time.",
  ["inputs", "fault_sequences", "schedules"],
  "any combination of validatable arguments and failing validators, any concurrent calls, methods with and without context and error",
  NOREGEN + "each variant is tested with one argument, one call at a time.",
  ["templates/validate", "templates/grpc_validate", "templates/twirp_validate"],
  [("argument validation", "templates/validate, grpc_validate, twirp_validate")],
  observe=["wrapped calls started", "errors returned"])

p("C15", "Logging decorators record every call and never disturb one",
  "With the log and logrus decorators every call leaves exactly one record before the wrapped call starts, naming the method and carrying its parameters, and exactly one after it ended, naming the method and carrying its results; the latter goes to the error log (error level) exactly when the method returned an error and to the ordinary one otherwise. Failing or short log writes never change what the wrapped implementation or the caller sees, and records of concurrent calls stay whole.",
  ["schedules", "fault_sequences"],
  "any concurrent calls, outcomes, panics, and write errors or short writes of the log destination",
  NOREGEN + "the log test uses a buffer that cannot fail and looks for substrings of one call.",
  ["templates/log", "templates/logrus"],
  [("entry record", "templates/log, templates/logrus"), ("exit record", "deferred function in templates/log, templates/logrus")],
  observe=["writes to the log destinations", "results returned"])

p("C16", "Every call is measured exactly once with its duration and outcome",
  "With the prometheus decorator every call, also one that panics, adds exactly one observation, when it ends, to the summary labelled with the decorator's instance name and the method; the result label is \"error\" exactly if the method returned an error and \"ok\" otherwise, and the observed value is the elapsed time of that call, unaffected by other calls or by steps of the wall clock.",
  ["schedules", "fault_sequences", "histories"],
  "any concurrent calls on several instances, durations, outcomes, panics and clock steps",
  NOREGEN + "its test makes one call and does not read the observed value.",
  ["templates/prometheus"],
  [("measurement", "templates/prometheus (_since, deferred Observe)")],
  observe=["count and sum of the summary per label set, in simulated time"])

p("C17", "Tracing decorators open and finish exactly one span per call",
  "With the opencensus, opentracing, opentelemetry and elastic APM decorators every call of a method with a context starts exactly one span named after the method, as a child of the caller's span, makes it current in the context of the wrapped call, and finishes it exactly once when the call ends, also by panic. The span is marked as failed, with the error, exactly if the method returned an error (unless a user-supplied span decorator takes over, which then gets this call's parameters and results); methods without a context start no span; concurrent calls never share or swap spans.",
  ["schedules", "fault_sequences"],
  "any concurrent calls, outcomes, panics, with or without a span decorator, nested calls",
  NOREGEN + "the tracing tests are single calls against mocks, and the opentracing one does not even run to its end.",
  ["templates/opencensus", "templates/opentracing", "templates/opentelemetry", "templates/elasticapm"],
  [("span life cycle", "templates/open*, templates/elasticapm (StartSpan, deferred finish)")],
  observe=["spans reported by the tracer"])

p("C18", "A finished call leaves nothing running",
  "Once a call through a decorator has returned and every wrapped call it started has returned too, no goroutine, timer or ticker and no un-cancelled derived context created for that call remains, whatever the outcome was: success, failure, cancellation or panic. The refill of a rate limiter, one per decorator, is the only background activity allowed.",
  ["schedules", "fault_sequences"],
  "every template, any outcome, cancellation instant, panic and interleaving",
  NOREGEN + "no test checks for leftovers, and most leaks need a particular outcome or interleaving.",
  ["templates/"],
  [("deferred clean-up", "templates/fallback, retry, timeout (defer)"), ("spawner termination", "templates/fallback")],
  observe=["live goroutines, timers and contexts after the last event of a run"])

p("C19", "Decorators are safe for concurrent use",
  "If the wrapped implementation is safe for concurrent use, so is the decorator: no two concurrent calls of any of its methods make conflicting accesses to memory that are not ordered by synchronisation. This holds for calls of the same and of different methods, also after cancellation, failure and panic of some of them.",
  ["schedules", "fault_sequences"],
  "every template, any set of concurrent calls of any methods and any interleaving",
  NOREGEN + "the race detector is not used on templates_tests, and the committed tests hardly run two calls at once.",
  ["templates/"],
  [("locking", "templates/circuitbreaker (_lock)"), ("atomic counter", "templates/robinpool"), ("per-call state", "templates/fallback and all others")],
  observe=["happens-before order of memory accesses in generated code"])

p("C20", "Twirp errors are enriched per call without losing their identity",
  "With the twirp_error decorator a call of a method with at least one non-context parameter that ends in an error returns a Twirp error whose metadata carries the JSON form of the first non-context argument of that call under \"request\"; a Twirp error returned by the wrapped implementation keeps its code, message and other metadata, any other error becomes an internal error wrapping it. Calls that end without an error are untouched, and concurrent calls never see each other's request data.",
  ["inputs", "schedules", "fault_sequences"],
  "any arguments, error kinds and concurrent calls, methods with and without context",
  NOREGEN + "one call at a time with one argument is tested.",
  ["templates/twirp_error"],
  [("deferred enrichment", "templates/twirp_error:injectRequestDataToError")],
  observe=["errors returned"])

p("G01", "Generation does not depend on map iteration order",
  "Given the same command line and the same files, generation always has the same outcome: byte-identical output every time, or failure every time. In particular the order in which unordered collections are visited, the order in which the files of a package are read and same-named packages among a package's imports make no difference.",
  ["schedules", "inputs", "configurations"],
  "all iteration orders of every unordered collection visited, over packages with several files, same-named imports, embedded interfaces and build-constrained files",
  "Go randomises map order per run and the tests compare fragments of single runs; an order-dependent outcome appears only for particular packages and only sometimes.",
  ["generator/generator.go", "pkg/package.go", "generator/types.go", "printer/printer.go", "cmd_generate.go"],
  [("file and type collection", "generator/generator.go:iterateFiles"), ("import lookup", "generator/generator.go:findImportPathForName"), ("import list", "generator/generator.go:TemplateInputs.Import")],
  observe=["bytes written"], hook=None)

p("G02", "Generations running at the same time do not affect each other",
  "When several generators are created and run concurrently in one process, with different interfaces, templates, variables and import-grouping settings, each writes exactly what it writes when run alone, and no data race occurs. Inputs shared by the callers, such as option values, are not modified.",
  ["schedules", "configurations"],
  "all interleavings of concurrent generator construction and generation with any mix of options",
  "the tests run one generator at a time.",
  ["generator/generator.go", "printer/printer.go", "pkg/package.go"],
  [("import grouping setting", "generator/generator.go:Generate (imports.LocalPrefix)"), ("option handling", "generator/generator.go:NewGenerator")],
  observe=["bytes written by each generation"])

p("G03", "A failed generation is reported and leaves the output file alone",
  "If anything goes wrong in gowrap gen (bad arguments, unreadable template, unresolvable package, failing template, file-system error at any step including the write itself), the command reports an error and a file previously present at the output path is still there with its content intact. If it reports success the output path holds the complete generated file.",
  ["fault_sequences", "inputs"],
  "every failing operation (reads, directory creation, file creation, writes including short ones and full disks, closing, package loading, template fetch) at every position",
  "the tests inject errors into a few steps through mocks and never look at an existing output file.",
  ["cmd_generate.go", "generator/generator.go", "pkg/package.go"],
  [("generate to memory, then write", "cmd_generate.go:Run"), ("error propagation", "cmd_generate.go, generator/generator.go")],
  observe=["returned error", "file at the output path"])

p("G04", "Interrupted generation never leaves a torn file and can be re-run",
  "If gowrap gen is killed at any instant, or several runs of one command overlap, the output path holds at every moment either what it held before (possibly nothing) or the complete new file, and running the same command again succeeds and produces the same bytes as an uninterrupted run.",
  ["crash_points", "histories"],
  "every crash point between any two file-system operations and inside any write",
  "no test interrupts the command.",
  ["cmd_generate.go"],
  [("output replacement", "cmd_generate.go:Run (WriteFile)")],
  observe=["file at the output path after a crash", "outcome of the re-run"])

p("G05", "The recorded go:generate command reproduces the file",
  "Running the go:generate command recorded in a generated file, from that file's directory, reproduces the file byte for byte, whatever the working directory, template location (local, file://, HTTP(S), hosted) and options (without white space, quotes or dollar signs) of the original run. For hosted templates this holds even after the hosted template has changed or been removed from the repository's head since, because the recorded reference is pinned to the revision used.",
  ["histories", "configurations"],
  "all working directories, output locations, template kinds, variables and options, and all histories of upstream commits between the runs",
  "the tests check the header template and argument strings in isolation and never run the recorded command.",
  ["cmd_generate.go", "loader/loader.go"],
  [("recorded command", "cmd_generate.go:headerTemplate, varsToArgs"), ("relative template path", "cmd_generate.go:loadTemplate"), ("pinned revision", "loader/loader.go:fetchFromGithub")],
  observe=["bytes of the regenerated file"])

p("G06", "A remote template arrives complete or not at all",
  "Loading a remote template or the list of templates returns exactly what the server sent in one complete successful response, for hosted templates at the revision the server reported as latest; any connection failure, unsuccessful status, interrupted or failing body or undecodable answer at any request is reported as an error. Every response body obtained is closed.",
  ["fault_sequences", "histories"],
  "every network fault at every request and at every byte of a response, in any combination, while the repository changes concurrently",
  "the tests fail one request at a time through a mock and never interrupt a body.",
  ["loader/loader.go"],
  [("response handling", "loader/loader.go:get"), ("two-step fetch", "loader/loader.go:fetchFromGithub")],
  observe=["template bytes and errors returned", "requests made"])

p("G07", "Local templates win and their failures are never papered over",
  "A template reference that names an existing local file always yields that file's content and causes no network request; only if no such file exists is the hosted template fetched. If a local file exists but cannot be read completely the command fails. A file:// reference is taken relative to the working directory or, if absent there, to the root of the git repository, and never goes to the network.",
  ["fault_sequences", "configurations"],
  "every read failure of local files at every point, any layout of local files, working directories and git roots",
  "the tests use a mocked reader with a single error.",
  ["cmd_generate.go", "loader/loader.go", "loader/gitpath.go"],
  [("resolution order", "cmd_generate.go:loader.Load"), ("file scheme", "loader/loader.go:Load")],
  observe=["template used", "network requests made"])

p("G08", "template copy delivers the whole template or fails cleanly",
  "gowrap template copy reports success only if the destination file holds exactly the template's bytes; on any failure of the fetch or the write it reports an error, and a file previously at the destination keeps its content, also if the command is killed. gowrap template list reports success only if it wrote every available template.",
  ["fault_sequences", "crash_points"],
  "every network and file-system fault and every crash point, failing output streams",
  "the tests return canned errors from mocks and discard what is written.",
  ["cmd_template.go", "loader/loader.go"],
  [("fetch then write", "cmd_template.go:fetch"), ("list", "cmd_template.go:list")],
  observe=["destination file", "returned error", "listing"])

p("G09", "The exit status tells whether the command did its work",
  "The gowrap command exits with status zero exactly if the requested work was done completely (file generated, template copied, list or help printed in full) and otherwise exits with a non-zero status and a message on standard error. This holds for every failure of its environment: files, directories, standard output, network and the go tool.",
  ["fault_sequences", "inputs"],
  "every environment fault at every point, for every sub-command",
  "no test runs the command's main function.",
  ["cmd/gowrap/gowrap.go", "command.go", "cmd_generate.go", "cmd_template.go"],
  [("exit codes", "cmd/gowrap/gowrap.go:main, die"), ("error propagation", "cmd_generate.go, cmd_template.go")],
  observe=["exit status", "standard error"])

NA = "A pure function of its input."
p("N01", "Types in generated signatures mean the same as in the source",
  "Every parameter and result type in a generated decorator denotes the type written in the source interface, with package qualifiers added exactly where the destination package needs them.",
  ["programs"], "all Go types and package layouts", "tests cover listed examples only.",
  ["printer/printer.go", "generator/generator.go"], [("type printing", "printer/printer.go:PrintType")])
p("N02", "Generic interfaces keep their type parameters",
  "For a generic interface, type parameters and arguments substituted through embedded interfaces appear in the methods offered to templates exactly as Go's own instantiation would give them.",
  ["programs"], "all generic declarations", "tests cover listed examples only.",
  ["generator/generics.go", "generator/generator.go"], [("substitution", "generator/generics.go:buildGenericParamsString")])
p("N03", "Interfaces that cannot be implemented elsewhere are refused",
  "Generation into another package fails if the interface has unexported methods or uses unexported types, and always if it is missing or empty.",
  ["programs"], "all interface declarations", "tests cover listed examples only.",
  ["generator/generator.go", "printer/printer.go"], [("checks", "generator/generator.go:NewGenerator")])
p("N04", "Template helper functions and variables follow their documentation",
  "up, down, upFirst, downFirst, replace and snake return what the README says for every string, and -v variables reach the template as given.",
  ["inputs"], "all strings", "tests cover listed examples only.",
  ["cmd_generate.go"], [("helpers", "cmd_generate.go:helperFuncs, vars")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
