#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit here, then run."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every emission reaches every sink exactly once and unchanged",
 "Every event, error, timing, gauge and completion emitted on a job, or directly on a stream (job name 'general'), with or without key/values, is delivered exactly once to each sink attached at that moment, in the order the sinks were attached, as the matching kind of emission and with the job name, event name, value, nanoseconds and status exactly as given. A completion carries the time that has passed since the job was created.",
 ["inputs", "histories"], "all emission kinds, all names and values, any number of attached sinks, any sequence of emissions, any clock advance between start and completion",
 "the unit tests look at the last emission received by one sink with fixed names; they never check several sinks, exactly-once delivery, order, or the elapsed time of a completion",
 ["health.go"], [("per-kind fan-out loops over the stream's sinks", "health.go"), ("job start time", "health.go NewJob")],
 [("Stream.Sinks", "attached sinks", "health.go"), ("Job.Start", "start of the job", "health.go")], ["Sink interface"])

prop("C02", "Key/values merge with call over job over stream, and never leak",
 "The key/values a sink receives are exactly the union of the stream's, the job's and the call's key/values; where keys collide the call's value wins over the job's and the job's over the stream's. Emitting never changes the key/values stored on the stream, stored on the job, or held in the caller's map, so other jobs and later emissions are unaffected.",
 ["inputs", "histories"], "all key/value maps at the three levels including empty and nil ones and every pattern of colliding keys, all emission kinds, any sequence of emissions",
 "no test of the repository sets key/values on a stream or job; precedence and isolation depend on which keys collide and on which levels are empty",
 ["health.go"], [("merging of three maps with a no-copy shortcut when at most one is non-empty", "health.go mergedKeyValues")],
 [("Stream.KeyValues / Job.KeyValues", "key/values at stream and job level", "health.go")], ["Sink interface", "caller's maps"])

prop("C03", "Run reports one completion with the right status and contains panics",
 "Running a function as a job (on a job or on a stream) emits exactly one completion: success if it returned nil, error if it returned an error, panic if it panicked. It returns the function's own error unchanged (nil on success); after a panic, which never escapes to the caller, it returns an error whose text is the printed panic value. A panic is also reported exactly once, before the completion, as an error event named 'panic' with that text and a non-empty 'stack' key/value.",
 ["inputs", "histories"], "all functions by outcome (nil, error, panic with a value of any printable kind, runtime error), emissions made inside the function, any number of sinks",
 "the tests run three fixed functions and see only the last emission; double completions, wrong returned errors and unusual panic values are not observable there",
 ["health.go"], [("deferred recover around the user's function", "health.go Job.Run")], [], ["Sink interface", "return value of Run"])

prop("C04", "Reported errors are wrapped once and marked emitted only after all sinks",
 "Reporting an error returns an error with the same text: a plain error comes back as an unmuted error that holds the original error and a stack trace, and an error that is already muted or unmuted comes back as the very same object, never wrapped again and with its original trace. All sinks receive that same returned object. Every sink sees an unmuted error as not yet emitted during its first report and as emitted in every later report, and a muted error stays muted for ever.",
 ["inputs", "histories"], "all sequences of reports of plain, muted and unmuted errors through any jobs, with or without key/values, any number of sinks",
 "the tests follow one error through two reports to a single sink",
 ["error.go", "health.go"], [("wrapErr type switch", "error.go"), ("Emitted flag set after the fan-out", "health.go EventErr/EventErrKv")],
 [("UnmutedError.Emitted", "already reported to the sinks", "error.go")], ["Sink interface", "returned error"])

prop("C05", "Polled metrics are the exact tally of what was emitted in the interval",
 "The polling sink's aggregation of an interval is the exact tally of the emissions made in it, both overall and under each job: number of events, number of errors, last gauge value, and count, sum, sum of squares, minimum and maximum of timings; and for each job the number of completions by status with count, sum, sum of squares, minimum and maximum of the completion times. Names that were not emitted do not appear, and the serial number is the number of emissions.",
 ["inputs", "histories"], "all sequences of emissions of all kinds with any names and any values (negative and extreme ones included)",
 "tests feed a dozen fixed emissions with positive values; mistakes that need a particular order, sign, repeated name or status stay hidden",
 ["aggregator.go", "interval_aggregation.go", "json_polling_sink.go"],
 [("per-kind update of the overall and per-job maps", "aggregator.go Emit*"), ("timer ingest", "interval_aggregation.go ingest")],
 [("intervalAggregations", "retained intervals", "aggregator.go")], ["polling sink snapshot"])

prop("C06", "Intervals rotate with the clock, oldest dropped, past ones frozen",
 "Each emission is recorded in the interval that starts at the current time rounded down to the interval duration (a multiple of it since the zero time, as Go rounds). Metrics list each interval once, oldest first, never more than the retention time divided by the interval duration of them (but always at least the current one), and only the oldest are dropped when that limit is exceeded. An interval that is no longer current never changes again.",
 ["inputs", "histories", "configurations"], "all sequences of emissions, clock advances (non-decreasing clock) and metric reads; all positive interval and retention durations",
 "one test rotates once past a limit of five at fixed instants; boundaries of the interval, skipped intervals, tiny retention and repeated rotation are not reached",
 ["aggregator.go"], [("truncation of the clock and comparison with the newest interval", "aggregator.go getIntervalAggregation"), ("shift when full", "aggregator.go createIntervalAggregation")],
 [("intervalAggregations / maxIntervals", "retained intervals and limit", "aggregator.go")], ["polling sink snapshot"])

prop("C07", "A metrics snapshot, once returned, never changes",
 "The metrics returned by the polling sink equal the live data at the moment of the call and are not altered by any later emission, clock advance or further snapshot. Reading a snapshot while the sink keeps working involves no data race.",
 ["histories", "schedules"], "all histories before the snapshot, all emissions, ticks, rotations and snapshots after it",
 "the only test reads one snapshot after the sink stopped receiving emissions",
 ["aggregator.go", "interval_aggregation_clone.go", "json_polling_sink.go"], [("cloning of the current interval", "aggregator.go memorySafeIntervals")],
 [], ["GetMetrics"])

prop("C08", "Cloning an aggregation is exact and fully independent",
 "A clone of an aggregation equals the original in every field: interval start, serial number, events, gauges, timers, error counts and samples, and all of that per job together with the completion counts and times. No change made afterwards to either of the two (emission, merge or direct change of a map or entry) is visible in the other.",
 ["inputs", "histories"], "all aggregations up to the stated number of names and jobs with arbitrary numbers, and every later change to either copy",
 "the test checks spot values after one fixed fixture and adds only new names afterwards, so a shared entry is not noticed",
 ["interval_aggregation_clone.go"], [("deep copy of maps and entries", "interval_aggregation_clone.go")], [], ["IntervalAggregation.Clone"])

prop("C09", "Merging aggregations equals aggregating both histories",
 "Merging one aggregation into another makes the target what it would be had it recorded both histories: event, error and completion counts, sums and sums of squares add up, minima and maxima range over the measurements of both sides (a side without measurements does not count), gauges take the merged-in value, the merged-in error samples are among the samples, names and jobs only in the merged-in one are added, and the serial number increases. The merged-in aggregation is not changed, and the target shares no mutable state with it afterwards.",
 ["inputs", "histories"], "all pairs of aggregations up to the stated number of names and jobs, including jobs that have events but no completions, any order of repeated merges",
 "the tests merge one fixture with itself; sides with no measurements, differing minima and later changes to either side are not covered",
 ["interval_aggregation_merge.go", "interval_aggregation_clone.go"], [("field-wise merge", "interval_aggregation_merge.go")], [], ["IntervalAggregation.Merge"])

prop("C10", "Error counters count all errors and keep the latest distinct samples",
 "For every event name, overall and per job, the error counter counts every reported error, and its samples are exactly the last five errors (fewer if there were fewer) of the reported sequence after collapsing runs of consecutive equal errors. This is so whether the errors reach the sink directly or through a stream, and whatever the timing of the reporting goroutine.",
 ["histories"], "all sequences of equal and distinct errors, including ones longer than twice the sample capacity",
 "the test reports three errors; the ring buffer's wrap-around needs at least six distinct ones",
 ["interval_aggregation.go", "aggregator.go"], [("ring buffer of samples", "interval_aggregation.go addError")],
 [("errorSamples / errorSampleIndex", "ring buffer", "interval_aggregation.go")], ["getErrorSamples"])

prop("C11", "The /health endpoint serves exactly the current metrics as valid JSON",
 "A request for /health answers status 200, JSON content type, and a JSON body that decodes, under the known field names, to the instance identifier, the interval duration and exactly the metrics held by the polling sink, whatever characters job and event names contain (any valid UTF-8, finite gauges). Every other path answers status 404 with a JSON error body.",
 ["inputs", "histories"], "all event and job names up to the stated length, all values, all request paths up to the stated length",
 "the test serves one plain ASCII name; names containing quotes, percent signs or control characters are never served",
 ["json_polling_sink_http.go", "json_polling_sink.go"], [("marshalling of a snapshot and writing of the body", "json_polling_sink_http.go ServeHTTP")], [], ["ServeHTTP"])

prop("C12", "The polling sink loses nothing and never hangs under concurrency",
 "Under every interleaving of several emitting goroutines, metric readers, the sink's own ticks and a shutdown request, every emission made before shutdown was requested is counted exactly once in what is read after the sink has caught up, emissions of one goroutine take effect in order, every metrics read made while the sink is running and the shutdown itself return, and there is no data race.",
 ["schedules"], "all interleavings of the channel operations of the stated goroutines, all choices of the sink's event loop, tick arrivals",
 "the tests use one goroutine and sleep until the sink has settled",
 ["json_polling_sink.go", "aggregator.go"], [("single aggregator goroutine fed by channels", "aggregator.go startAggregator")], [], ["GetMetrics", "ShutdownServer"])

prop("C13", "StatsD metrics carry the right key, value and type for every emission",
 "Each emission produces exactly the documented StatsD lines: events and errors '<key>:1|c' (key suffix '.error' for errors), timings '<key>:<milliseconds>|ms', gauges '<key>:<value>|g', each under the event's key and under job.event unless that form is switched off, and completions '<job>.<status>:<milliseconds>|ms'. Keys are the non-empty parts (prefix, job, event, suffix) joined by dots with every byte outside letters, digits, '_' and '.' replaced by '$' (or the caller's own sanitization). Earlier emissions never influence the lines of later ones.",
 ["inputs", "histories", "configurations"], "all names up to the stated length over all bytes, all nanosecond values, all gauge values, all option combinations, sequences of emissions that reuse keys",
 "the tests send one emission per sink with fixed names; key reuse, unusual bytes, empty parts and number ranges are not covered",
 ["statsd_sink.go"], [("cached key buffers", "statsd_sink.go getPrefixBuffer"), ("sanitization", "statsd_sink.go sanitizeKey"), ("number formatting", "statsd_sink.go writeNanosToTimingBuf, processGauge")],
 [("prefixBuffers", "cache of key prefixes", "statsd_sink.go")], ["UDP packets"])

prop("C14", "StatsD packets hold whole metrics, stay within 1440 bytes, lose nothing",
 "Every UDP packet is at most 1440 bytes long and consists of whole metric lines. The packets concatenated in sending order are exactly the lines of all emissions in emission order, each once, except that a single line longer than 1440 bytes is left out. No empty packet is sent. When packets could not be sent for a while, lines of that time may be missing, but nothing else changes.",
 ["inputs", "histories"], "all sequences of metric lengths (around the packet limit in particular) and all placements of flushes and drains between them",
 "one test fills a packet with equal 101-byte lines, so no length combination at the boundary is tried",
 ["statsd_sink.go"], [("flush before the buffer would exceed the limit", "statsd_sink.go writeStatsDMetric")],
 [("udpBuf", "pending bytes", "statsd_sink.go")], ["UDP packets"])

prop("C15", "StatsD drain delivers all earlier metrics; drain, flush, stop never hang",
 "When a drain returns, everything emitted before it was called has been sent, unless the sink was stopped in between. Buffered metrics are sent within one flush period even without a drain. Under every interleaving of emitters, concurrent drains, periodic flushes and a stop, every drain that is not overtaken by a stop returns, also when a stop is requested while it waits, the stop returns, nothing is sent twice, and there is no data race.",
 ["schedules", "histories"], "all interleavings of the channel operations of the stated goroutines and flush ticks",
 "tests call drain once from one goroutine",
 ["statsd_sink.go"], [("command channel and drain loop", "statsd_sink.go loop")], [], ["UDP packets", "Drain", "Stop"])

prop("C16", "Writer sink writes one exact, deterministic log line per emission",
 "Each emission results in exactly one write of exactly one line: the UTC timestamp in brackets, the job, the event (or the completion status), the error text, time or gauge value where applicable, and then the key/values sorted by key as 'kvs:[k:v k:v]' when a map was given. Times are printed in nanoseconds up to 2000 ns, in whole microseconds up to 2000000 ns and in whole milliseconds above. Neither the order of the map nor earlier or concurrent emissions influence the line.",
 ["inputs", "histories"], "all names, all nanosecond values, all gauge values, key/value maps up to the stated size in every iteration order",
 "the tests match a few fixed lines by regular expression with at most two keys",
 ["writer_sink.go"], [("line assembly in a local buffer", "writer_sink.go"), ("sorted key/values", "writer_sink.go writeMapConsistently"), ("unit selection", "writer_sink.go writeNanoseconds")], [], ["io.Writer"])

prop("C17", "JSON writer sink writes one complete JSON object per emission",
 "Each emission results in exactly one write holding exactly one JSON object whose fields are the job, the event (or the completion status), the timestamp, the error text, nanoseconds or gauge value where applicable, and the key/values, equal to what was emitted for any valid UTF-8 text and any finite gauge. The timestamp is the current UTC time. Concurrent emissions do not disturb each other.",
 ["inputs", "histories"], "all names, key/values and error texts up to the stated length, all integer values, finite gauges",
 "the tests decode one fixed object per kind",
 ["json_writer_sink.go"], [("marshalling of a per-kind struct", "json_writer_sink.go")], [], ["io.Writer"])

prop("C18", "Librato metrics are the exact tallies under valid metric names",
 "Every event adds one to the counters '<event>.count' and '<job>.<event>.count', every error to the same names with '.error.count', every timing is measured in milliseconds under '.timing' and every gauge under '.gauge' for both names, and every completion under '<job>.<status>.timing', all after the prefix and a dot if there is a prefix. A measured metric has the exact count, sum, sum of squares, minimum and maximum of its values. Characters of job and event names outside letters, digits, '.', ':', '-' and '_' are replaced by '_'.",
 ["inputs", "histories"], "all names up to the stated length, all values, sequences of emissions sharing names",
 "the test emits nine fixed metrics with positive values and plain names",
 ["sinks/librato/sink.go"], [("counter and gauge maps", "sinks/librato/sink.go inc, measure"), ("key building", "sinks/librato/sink.go eventKeys, sanitizeKey")],
 [("timers / counters", "tallies since the last flush", "sinks/librato/sink.go")], ["HTTP request body"])

prop("C19", "Each Librato flush posts everything since the last one exactly once",
 "Every flush period with data makes exactly one authenticated POST whose body holds exactly the metrics gathered since the previous flush; a period without data makes no request. After a flush, also a failed one, tallies start from zero. Every response body is closed, and stopping the sink returns.",
 ["histories", "fault_sequences"], "all sequences of emissions and flush ticks, with any of the requests failing",
 "no test reaches the flush: it happens every 15 s and posts to the internet",
 ["sinks/librato/sink.go"], [("purge and send", "sinks/librato/sink.go purge, send")], [("timers / counters", "tallies since the last flush", "sinks/librato/sink.go")], ["HTTP requests"])

prop("C20", "Bugsnag is notified once per unmuted error, never for muted ones",
 "For every unmuted error exactly one notification is sent, for its first report, however often, under whatever names and through whatever jobs it is reported again; muted errors and all other kinds of emission send nothing. A failing notification does not stop later errors from being sent.",
 ["histories", "fault_sequences"], "all sequences of reports of several errors (plain, muted, already reported), mixed with other emissions, with failing notifications",
 "the test sends one error twice directly to the sink",
 ["sinks/bugsnag/sink.go", "health.go", "error.go"], [("check of the emitted mark and of the error's kind", "sinks/bugsnag/sink.go EmitEventErr")], [], ["HTTP requests"])

prop("C21", "Bugsnag notifications describe the error as it was reported",
 "A notification carries the API key, the job as context, the event name as error class, the error's text as message, one stack frame per trace entry in order with file, line, 'package:function' and whether it is outside the Go installation, the release stage and host name, and exactly the key/values in force when the error was reported (also as request URL and parameters for the keys 'request' and 'formdata'), even if key/values are changed afterwards. A response other than 'OK' or a transport failure is returned as an error, and every response body is closed.",
 ["inputs", "histories", "schedules"], "all texts up to the stated length, all key/values, changes to the key/values after the report, all response bodies up to the stated length",
 "the tests decode one fixed payload and never change key/values after reporting",
 ["sinks/bugsnag/api.go", "sinks/bugsnag/sink.go"], [("payload construction", "sinks/bugsnag/api.go newPayload"), ("asynchronous command", "sinks/bugsnag/sink.go")], [], ["HTTP request body", "return value of Notify"])

prop("C22", "Stack traces list the call stack and classify frames correctly",
 "A trace holds the program counters of the call stack from the requested level outwards, at most the configured maximum number, and its frames are one per program counter in that order. A frame's package and function name split the symbol name at the first dot after the last slash, so that they give back the symbol when joined by a dot, and a frame is a system frame exactly if its file lies in the Go installation directory. Printing a trace gives one 'file:line function' line per frame. A trace may be used by several goroutines at once, and taking another one does not change it.",
 ["inputs", "configurations"], "all symbol names and file names up to the stated length, all call depths around the maximum depth",
 "tests see the names of a few functions of the test file itself and no system frame",
 ["stack/stack.go", "stack/frame.go"], [("splitting of symbol names", "stack/frame.go packageAndName"), ("prefix test", "stack/frame.go isSystemPackage")], [], ["Trace.Frames", "Trace.Stack"])

prop("C23", "Runtime metrics report exactly the enabled gauges with the read values",
 "A report emits exactly one gauge for every enabled group member (memory, GC, GC quantiles, goroutines, cgo calls, file descriptors) and nothing for disabled groups, each with the value the runtime gave (GC pause quantiles in milliseconds); without options everything is enabled every 5 seconds. Once started, one report is made per interval until stopping, stop returns, and nothing is reported after it returned.",
 ["inputs", "configurations", "schedules"], "all option combinations, all values read from the runtime, all start, tick and stop sequences",
 "the test runs one report with everything enabled and only looks for the names",
 ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("conditional gauges", "runtime_metrics/runtime_metrics.go Report"), ("poller goroutine", "runtime_metrics/runtime_metrics.go metricsPoller")], [], ["EventReceiver"])

prop("C24", "healthd's totals are the merge of each host's latest data",
 "For every interval at most five intervals old, the aggregation that healthd serves after recalculating is the merge of the latest data received from each monitored process for that instant, each counted once, however often and in whatever order the hosts were polled and in whatever time zone they express the interval. Data a host has already delivered (same serial number) changes nothing, and responses that failed or use a different interval duration contribute nothing.",
 ["histories", "inputs"], "all sequences of poll responses from the stated number of hosts, instances and intervals with arbitrary counts and serial numbers, and recalculations at any point",
 "the package's tests are not even built here; they poll two hosts once",
 ["healthd/healthd.go"], [("keyed store of host aggregations", "healthd/healthd.go consumePollResponse"), ("recalculation", "healthd/healthd.go recalculateIntervals")],
 [("hostAggregations", "latest data by interval, instance and host", "healthd/healthd.go")], ["aggregations served"])

prop("C25", "healthd keeps one aggregation per interval, ordered, newest retained",
 "The series of aggregations healthd serves has strictly increasing interval starts and never more entries than the retention time divided by the interval duration; when that is exceeded the oldest entries go. Stored host data at most five intervals old is never purged, and purging never changes the served totals of retained intervals.",
 ["histories"], "all sequences of poll responses for intervals in any order, recalculations, purges and clock advances",
 "not covered: the only test handles a single interval",
 ["healthd/healthd.go"], [("replace-or-append, sort, truncate", "healthd/healthd.go setAggregation"), ("age-based deletion", "healthd/healthd.go purge")],
 [("intervalAggregations", "served series", "healthd/healthd.go")], ["aggregations served"])

prop("C26", "healthd lists every job with correct, finite statistics, sorted and limited",
 "The job list holds exactly one entry per aggregated job with its counts, sum, sum of squares, minimum and maximum, the average as sum divided by count and the sample standard deviation (0 below two measurements), both always finite so that the list can be encoded. It is ordered by the requested key (names ascending, all numbers descending) and cut to the requested limit if that is a positive integer (a limit that is not an integer is ignored); no data gives an empty list.",
 ["inputs"], "all job aggregations up to the stated number of jobs, all sort keys, all limits",
 "the test lists a single job without sort key or limit",
 ["healthd/api.go"], [("statistics", "healthd/api.go filterJobs"), ("comparators", "healthd/api.go jobSorters")], [], ["job list"])

prop("C27", "healthd host status reflects each host's latest poll",
 "After a response from a monitored host is processed its status shows that poll's time, duration, response code, instance, interval duration and error text (empty on success); the first-success time is set by the first success only and the last-success time by every success, success meaning code 200 and no error. Other hosts' statuses are unaffected, statuses handed out do not change later, and responses of unknown hosts create no status.",
 ["histories", "inputs"], "all sequences of successful and failed responses of known and unknown hosts",
 "the test looks at one successful poll per host",
 ["healthd/healthd.go", "healthd/poll.go"], [("status update", "healthd/healthd.go consumePollResponse")], [("hostStatus", "status by host", "healthd/healthd.go")], ["host list"])

prop("C28", "No response from a monitored host can bring healthd down",
 "Whatever a monitored host answers (any status code, transport failure, body that is no JSON, missing, zero or negative interval duration, null or incomplete aggregations, jobs, timers or error counters), healthd survives processing it, recalculating and serving, and records a failed or unusable answer without losing the data of other hosts.",
 ["inputs", "fault_sequences"], "all responses of the stated shapes in any combination with valid responses of another host",
 "no test sends an unusual response",
 ["healthd/healthd.go", "healthd/poll.go", "interval_aggregation_merge.go", "interval_aggregation_clone.go"], [("validation of responses", "healthd/healthd.go consumePollResponse"), ("poll error handling", "healthd/poll.go")], [], ["aggregations served", "host list"])

prop("C29", "The recalculation debouncer fires once per burst, late enough and in time",
 "After taking a request the debouncer fires more than the threshold later and at most one sleep step beyond that, so that a host's data are served at most the threshold and two steps after they arrived even while other hosts are slow; requests in between cause no further firing. Without a new request it never fires, and two firings are always more than the threshold apart; a request made after the debouncer has decided to fire has a firing of its own.",
 ["schedules", "inputs"], "all arrival times of the stated number of requests, threshold and sleep durations of the stated range",
 "the test tries one burst with a mocked clock",
 ["healthd/debouncer.go"], [("oldest pending request time", "healthd/debouncer.go")], [("oldestNeedItDone", "time of oldest unserved request", "healthd/debouncer.go")], ["output channel"])

prop("C30", "Streams, jobs, sinks and healthd may be used by many goroutines at once",
 "With any of the sinks attached (writer, JSON writer, polling, StatsD, Librato, Bugsnag), goroutines that share a stream, a job or an error (plain, muted or reported before) may emit concurrently: every emission arrives at each sink exactly once and whole, and nothing races. healthd's endpoints may be asked at any time, also while hosts' first answers are being processed, without a data race.",
 ["schedules"], "all interleavings of synchronisation operations within the stated number of context switches, data races by happens-before",
 "tests use each sink from one goroutine and do not run healthd under the race detector",
 ["stream.go", "job.go", "writer_sink.go", "json_writer_sink.go", "statsd_sink.go", "json_polling_sink.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go", "healthd/healthd.go", "healthd/api.go"], [("hand-over to the sinks' goroutines", "json_polling_sink.go, statsd_sink.go, sinks/bugsnag/sink.go, sinks/librato/sink.go"), ("getIntervalDuration", "healthd/healthd.go")], [], ["sink outputs"])

prop("C31", "Metrics can be read and emitted around and after a shutdown without hanging",
 "ShutdownServer of the polling sink and the Bugsnag sink, Stop of the Librato sink and Stop of healthd always return (once the HTTP request of theirs that is under way has ended), also when called again and when they overlap with emissions, reads or requests. Emissions, reads and requests that overlap with or follow the shutdown return too, however many they are; what is read while shutting down is either nothing or a consistent snapshot, and requests are answered with 200.",
 ["schedules", "histories"], "all interleavings of a shutdown with an emitting and reading goroutine within the stated number of context switches; thousands of emissions after a shutdown",
 "tests shut a sink down at their end and never use it afterwards or concurrently",
 ["json_polling_sink.go", "aggregator.go", "healthd/healthd.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go"], [("selects on the closed channel", "json_polling_sink.go, healthd/healthd.go")], [("doneDoneChan", "closed when the aggregator ended", "json_polling_sink.go"), ("stopStopAggregator", "closed when the aggregator ended", "healthd/healthd.go")], ["return of the calls"])

prop("C32", "healthtop shows what healthd last reported, as far as the terminal reaches",
 "healthtop asks the chosen healthd at once and then every second, for the wanted order and, without a name filter, for at most as many jobs as the terminal has lines minus two (three at least). Its screen has one row per reported job or host in the reported order (with a name filter only jobs whose name contains it) showing exactly the reported counts, durations (whole ns up to 1000, whole \u03bcs up to 2 ms, else whole ms) and states, cut to what fits on the terminal; it follows every answer, however many rows there are. An answer that is missing, torn, not JSON or not 200 is shown as an error and leaves the last data on the screen until the next success.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all answers of the stated size, sort and name options, terminal heights, and sequences of good and failing polls",
 "healthtop has no tests and is not built here",
 ["cmd/healthtop/main.go", "cmd/healthtop/jobs.go", "cmd/healthtop/hosts.go"], [("poll and display loop", "cmd/healthtop/jobs.go jobsLoop, cmd/healthtop/hosts.go hostsLoop"), ("unit choice", "cmd/healthtop/jobs.go printCellNanos"), ("row limit", "cmd/healthtop/jobs.go maxRows")],
 [("lastApiResponse", "last good answer", "cmd/healthtop/jobs.go, cmd/healthtop/hosts.go"), ("healthdStatus", "times of the last success and error", "cmd/healthtop/main.go")], ["terminal", "requests"])

prop("C33", "The healthd command monitors and serves what and where it is configured to",
 "The daemon polls exactly the hosts listed in HEALTHD_MONITORED_HOSTPORTS and its own health address, at once and every ten seconds, lists exactly those, serves its endpoints at HEALTHD_SERVER_HOSTPORT (by default :5031) and its own health, including the start event, at HEALTH_HOSTPORT (by default :5030). Without hosts to monitor it exits with an error before it serves or polls anything.",
 ["configurations"], "all host lists of the stated size, addresses given or not",
 "the command has no tests and is not built here",
 ["cmd/healthd/main.go", "json_polling_sink_http.go", "healthd/healthd.go"], [("environment variables", "cmd/healthd/main.go getMonitoredHostPorts, getServerHostPort, getHealthHostPort"), ("StartServer", "json_polling_sink_http.go")], [], ["polls", "servers", "exit code"])

prop("C34", "What processes report arrives on healthtop's screen, once each",
 "Across the whole chain (stream or sink in each process, its health endpoint, healthd's polling, merging and recalculation, healthd's job list, healthtop), the row of a job shows within fifteen seconds the number of its completions in total and per status, summed over all monitored processes and intervals, with each completion counted exactly once however often the processes are polled, and their minimum, maximum and total time; likewise the overall aggregation healthd serves holds the processes' events, errors, timings and last gauges, overall and per job, once each.",
 ["histories", "inputs"], "all completion statuses, kinds of emissions and the stated durations and numbers of completions in up to two processes over one or two intervals",
 "no test connects the parts",
 ["aggregator.go", "json_polling_sink.go", "json_polling_sink_http.go", "healthd/healthd.go", "healthd/poll.go", "healthd/api.go", "cmd/healthd/main.go", "cmd/healthtop/jobs.go"], [("serial numbers", "aggregator.go, healthd/healthd.go consumePollResponse"), ("job list", "healthd/api.go filterJobs")], [], ["terminal"])

prop("C35", "healthd keeps polling and serving however many hosts answer at once",
 "However many hosts healthd monitors and whenever their polls end (at once, late, all together, with data, with an error or not at all), it goes on taking every outcome, polling every ten seconds and answering its endpoints, and the data of all hosts that answered are served before the next poll.",
 ["inputs", "schedules"], "all delays after which a crowd of the stated number of hosts ends its polls, relative to the poll and to another host",
 "no test monitors more than two hosts, and the deadlock needs more than 64 answers at a certain time",
 ["healthd/healthd.go", "healthd/debouncer.go", "healthd/poll.go"], [("aggregator loop", "healthd/healthd.go pollAndAggregate"), ("debouncer", "healthd/debouncer.go")], [("recalcIntervalsRequest", "requests for a recalculation on their way to the debouncer", "healthd/healthd.go")], ["aggregations served", "host list"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
