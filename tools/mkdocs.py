#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Every emission reaches every sink once, complete and in order",
  "Every event, error, timing, gauge and completion emitted on a stream or job reaches every sink of the stream exactly once before the emitting call returns, with the right job, name, value, status and error (a muted error arrives muted), and a goroutine's emissions arrive in the order it made them. The key/values a sink sees are those of the stream, overridden by those of the job, overridden by those of the call, as they were at the time of the call, and no map of the caller is ever changed.",
  ["schedules", "inputs", "programs"], "every program of emissions by any number of goroutines sharing a stream, every number and speed of sinks, every interleaving",
  "The tests emit one thing at a time from one goroutine to one sink; they never share a stream between goroutines, nor look at what other sinks or the caller's maps see.",
  ["health.go"], [("Job emitters iterate over the stream's sinks", "health.go"), ("mergeKvs / allKvs", "health.go")], ["user-written sinks attached to the stream"])
p("C02", "Run and Complete report each job exactly once, whatever the job does",
  "Running a function as a job calls it exactly once and reports exactly one completion to every sink: success if it returned nil, error if it returned an error (which the caller gets back unchanged), panic if it panicked, and error if it ended its goroutine (runtime.Goexit) so that Run never returns. A panic never escapes: the caller gets an error with the panic's text, and every sink gets a \"panic\" error event with a stack trace before the completion. The reported duration is the elapsed time since the job began, whatever happens to the wall clock meanwhile.",
  ["schedules", "inputs", "programs"], "every function, outcome, nesting and interleaving of jobs, every clock adjustment while they run",
  "The tests run a handful of functions sequentially on the real clock and cannot move it, nor run jobs concurrently with one shared stream.",
  ["health.go"], [("Run's deferred recover and completion", "health.go"), ("monotonic start time", "health.go")], ["user-written sinks", "the value returned by Run"])
p("C03", "Bugsnag gets every fresh error exactly once, as it was when emitted",
  "While Bugsnag is reachable, every error that is emitted and neither muted nor the error returned by an earlier emission is reported to Bugsnag exactly once, and no muted or already emitted error ever is. The report carries the event, message, job, key/values (request and form data included), the key, stage, version and host configured (or their documented defaults) as of the moment of the emission, its stack trace starts at the emitting code, and one goroutine's errors are reported in order.",
  ["schedules", "inputs", "programs"], "every program of emissions and re-emissions of errors by concurrent goroutines, every server latency, every interleaving with the background sender",
  "The tests send one error from one goroutine and wait; they cannot show that later changes to the caller's data, re-emission, or concurrency leave the report unaffected.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go", "error.go", "health.go", "stack/stack.go"], [("UnmutedError's Emitted flag", "health.go, error.go"), ("queue to one sender goroutine", "sinks/bugsnag/sink.go"), ("stack captured when emitting", "sinks/bugsnag/sink.go")], ["HTTP requests received by a Bugsnag server"])
p("C04", "A Bugsnag outage loses only the reports it hits and blocks nobody for ever",
  "Whatever Bugsnag does (refuses connections, resets, answers with errors or garbage, never answers), a report is attempted for each fresh error, no report is delivered twice, and a report whose request meets no fault is delivered. Emitting errors always returns within a bounded time, and errors emitted after the outage are reported again.",
  ["fault_sequences", "schedules"], "every sequence of outages of any kind and length between and during requests, with concurrent emitters",
  "The tests only talk to a server that answers promptly.",
  ["sinks/bugsnag/sink.go", "sinks/bugsnag/api.go"], [("request timeout", "sinks/bugsnag/api.go"), ("sender loop survives errors", "sinks/bugsnag/sink.go")], ["HTTP requests received by a Bugsnag server", "return of the emitting calls"])
p("C05", "The polling sink's aggregates are exact",
  "Once emitting calls have returned and the process is idle, the metrics of the polling sink are exactly the sum of what was emitted in each interval: counts per event, error counts per event, count, sum, sum of squares, minimum and maximum per timer, last value per gauge, and completions per job by status. They are kept both overall and per job; nothing is lost, duplicated or attributed to another job or interval, however many goroutines emit at once.",
  ["schedules", "inputs", "histories"], "every multiset of emissions from any number of goroutines, more than the queue holds included, every interleaving with the aggregating goroutine and readers",
  "The tests emit a few values from one goroutine and sleep; they cover neither concurrency, nor full queues, nor interval changes while emissions are queued.",
  ["json_polling_sink.go", "aggregator.go", "interval_aggregation.go"], [("commands queued to one aggregating goroutine", "json_polling_sink.go"), ("ingest functions", "aggregator.go, interval_aggregation.go")], ["GetMetrics"])
p("C06", "The polling sink keeps exactly the recent intervals, and always the current one",
  "The polling sink's metrics are aligned, ascending intervals without duplicates, at most as many as the retention holds (but at least one), and the interval of the present moment is always among them. Every emission is found in the interval of the moment it was emitted for as long as that interval lies within the retention, and intervals older than the retention disappear. (Wall clocks set backwards are not covered.)",
  ["histories", "configurations", "schedules"], "every interval length and retention, every history of emissions, idle periods and forward clock jumps, every moment of reading",
  "The tests fix one interval length and replace the clock by constants; they never read while the window slides or after long idle periods.",
  ["aggregator.go", "json_polling_sink.go"], [("getIntervalAggregation's window", "aggregator.go"), ("ticker that opens a new interval without emissions", "json_polling_sink.go")], ["GetMetrics"])
p("C07", "A metrics snapshot is consistent and never changes",
  "Metrics read from the polling sink at any moment contain, for every goroutine, exactly a prefix of what it emitted; overall figures agree with those of the jobs; and a later read never contains less than an earlier one. A snapshot once returned never changes, whatever is emitted afterwards.",
  ["schedules", "histories"], "every interleaving of readers with emitters",
  "The tests never read concurrently with emissions and never look at an old snapshot again.",
  ["json_polling_sink.go", "aggregator.go", "interval_aggregation_clone.go"], [("snapshots made by the aggregating goroutine", "json_polling_sink.go"), ("memorialising copies", "aggregator.go, interval_aggregation_clone.go")], ["GetMetrics"])
p("C08", "Serial numbers identify an interval's content",
  "Two reads that show the same interval with the same serial number show the same content; the serial number of an interval never decreases, and it does not change while nothing is emitted.",
  ["schedules", "histories"], "every sequence of emissions and reads, concurrent or not",
  "The tests check a few serial numbers after sequential emissions.",
  ["aggregator.go", "interval_aggregation.go", "json_polling_sink.go"], [("SerialNumber incremented on every change", "aggregator.go")], ["GetMetrics", "GET /health"])
p("C09", "GET /health is always valid JSON that says exactly what the metrics are",
  "GET /health answers with status 200 and a JSON document holding the instance (host name and process id), the interval length, and intervals with exactly the content the sink holds, whatever characters names contain and whatever values gauges have taken. Every other path is answered with status 404 and a JSON error.",
  ["inputs", "schedules", "configurations"], "every set of emitted names and values, every moment of asking while emissions go on, every path",
  "The tests fetch one response for two plain names.",
  ["json_polling_sink_http.go", "identifier.go", "aggregator.go"], [("renderJson", "json_polling_sink_http.go"), ("getIdentifier", "identifier.go")], ["HTTP GET against the sink's server"])
p("C10", "Merging aggregations gives the aggregation of the combined history",
  "Merging the aggregations of any number of hosts, in any order and grouping, equals the aggregation of all their emissions together; a gauge takes one of the merged values. Merging never changes what is merged in, and a clone or a merge result shares nothing with what it was made from.",
  ["histories", "inputs", "crash_points"], "every set of aggregations collected from hosts that emit, crash and restart, over a network that loses and delays responses, in every merging order and grouping",
  "The tests merge two hand-written aggregations once, each with data in the same places.",
  ["interval_aggregation_merge.go", "interval_aggregation_clone.go"], [("Merge", "interval_aggregation_merge.go"), ("Clone", "interval_aggregation_clone.go")], ["Merge and Clone on aggregations decoded from GET /health"])
p("C11", "Draining the StatsD sink sends everything emitted before, exactly once",
  "When Drain returns, every metric of every emission that returned before Drain was called has been sent, and over a run with a final drain each metric is sent exactly once per emission, a goroutine's metrics in order. Each has the documented form: prefix, job, name and suffix joined by dots, each of them sanitised, value and type, once overall and once for its job unless switched off; durations in milliseconds.",
  ["schedules", "inputs", "configurations"], "every program of emissions and concurrent drains, every option, name and value, more emissions than the queue holds included",
  "The tests drain after a few emissions from one goroutine; two goroutines never drain at once.",
  ["statsd_sink.go"], [("queue to one goroutine", "statsd_sink.go"), ("drain loop", "statsd_sink.go")], ["datagrams sent to the StatsD address"])
p("C12", "StatsD datagrams hold whole metrics and at most 1440 bytes",
  "Every datagram the StatsD sink sends is non-empty, at most 1440 bytes long, and consists of whole newline-terminated metrics that were emitted. A single metric longer than that is dropped alone: it costs no other metric.",
  ["inputs", "schedules"], "every sequence of emissions with names of any length, every packing into datagrams",
  "The tests check one overflow of short equal metrics.",
  ["statsd_sink.go"], [("writeStatsDMetric's size check", "statsd_sink.go")], ["datagrams sent to the StatsD address"])
p("C13", "StatsD metrics leave within the flush period without a drain",
  "On a machine that is not stalled, every metric is sent within about a tenth of a second after it was emitted, without anybody draining the sink.",
  ["schedules", "histories"], "every pattern of emissions over time and phase against the flush timer",
  "The tests sleep once and look at one metric.",
  ["statsd_sink.go"], [("flush ticker", "statsd_sink.go")], ["datagrams and the time they are sent"])
p("C14", "Drain and Stop of the StatsD sink always return",
  "Any number of goroutines may drain the StatsD sink at the same time, and it may be stopped while they do: every Drain that began before Stop returns, and Stop returns, also while the network blocks sends for a while.",
  ["schedules", "fault_sequences"], "every interleaving of drains, a stop and emissions",
  "The tests call Drain and Stop one after the other from one goroutine.",
  ["statsd_sink.go"], [("per-call completion channels", "statsd_sink.go")], ["return of Drain and Stop"])
p("C15", "A failed StatsD send costs only that datagram",
  "When sending a datagram fails or blocks, only the metrics of that datagram are lost: every other metric is sent exactly once, none is repeated, and the emitting code neither notices nor stops.",
  ["fault_sequences", "schedules"], "every sequence of failing, blocking, lost and duplicated sends",
  "The tests' sends never fail.",
  ["statsd_sink.go"], [("buffer truncated after every send attempt", "statsd_sink.go")], ["datagrams handed to the network, failed ones included"])
p("C16", "Librato batches account for every emission exactly once",
  "While Librato is reachable, every emission is counted in exactly one batch, sent at the first or second flush (every 15 seconds) after it, under its sanitised name overall and per job, and a goroutine's emissions go into batches in order. A batch holds exact counts, sums, sums of squares, minima and maxima, the source, the period, the time of sending and the credentials, nothing is sent when nothing was emitted, and a value JSON cannot express costs no other metric.",
  ["schedules", "inputs", "histories"], "every program of emissions over time by concurrent goroutines and every phase against the flush timer",
  "The tests look at the sink's maps after a few emissions and never see a batch.",
  ["sinks/librato/sink.go"], [("aggregating loop and purge", "sinks/librato/sink.go")], ["HTTP requests received by a Librato server"])
p("C17", "A Librato outage loses only the batches it hits and blocks nobody for ever",
  "Whatever Librato does (refuses connections, resets, answers with errors, never answers), only the batches whose own request failed are lost: every emission is in exactly one attempted batch, and no batch is delivered twice. Emitting returns within a bounded time, and emissions after the outage are delivered again.",
  ["fault_sequences", "schedules"], "every sequence of outages of any kind and length, with concurrent emitters",
  "The tests never reach a server.",
  ["sinks/librato/sink.go"], [("request timeout", "sinks/librato/sink.go"), ("maps replaced after every attempt", "sinks/librato/sink.go")], ["HTTP requests attempted and received"])
p("C18", "The log writer sink writes each record whole, in one write",
  "Every emission is handed to the writer as one Write of one complete newline-terminated line before the emitting call returns, however many goroutines log at once and whether or not writes block, fail or are short. The line has the time of the emission in UTC, the job, the event or status, the error, duration or gauge value, and the key/values sorted by key; a goroutine's lines are written in order.",
  ["schedules", "inputs", "fault_sequences"], "every program of concurrent emissions, every writer behaviour",
  "The tests write to a buffer from one goroutine.",
  ["writer_sink.go"], [("one buffer and one Write per emission", "writer_sink.go")], ["Write calls on the sink's writer"])
p("C19", "The JSON writer sink writes each record as one whole JSON document",
  "Every emission whose values JSON can express is handed to the writer as one Write of exactly one JSON document before the emitting call returns, however many goroutines log at once and whether or not writes block, fail or are short. The document holds the time of the emission in UTC, the job, the event or status, the error text, duration or value, and the key/values, exactly; a goroutine's documents are written in order.",
  ["schedules", "inputs", "fault_sequences"], "every program of concurrent emissions, every writer behaviour",
  "The tests write to a buffer from one goroutine.",
  ["json_writer_sink.go", "writer_sink.go"], [("one Marshal and one Write per emission", "json_writer_sink.go")], ["Write calls on the sink's writer"])
p("C20", "Instrumentation never crashes or deadlocks the program",
  "With any combination of the library's sinks attached, no sequence of emissions on any schedule, with any names, key/values, numbers and errors (nil too), however empty, long or malformed, makes the instrumented process panic, deadlock, or hang in an emitting call beyond a bounded time, whatever the network and the writers do.",
  ["inputs", "schedules", "fault_sequences", "configurations"], "every combination of sinks, every program of emissions with arbitrary strings and numbers, every fault sequence of the networks and writers behind the sinks",
  "The tests use tame names and numbers, one sink at a time, and no faults.",
  ["health.go", "json_polling_sink.go", "statsd_sink.go", "writer_sink.go", "json_writer_sink.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go"], [("queues to background goroutines", "all sinks")], ["panics and blocked goroutines of the process"])
p("C21", "Runtime metrics are reported every interval, correctly, until stopped",
  "Between start and stop, once per configured interval, exactly the configured groups of gauges are emitted, each once and with the value the runtime reports at that time; when the open descriptors cannot be listed only that gauge is left out. Stop returns, nothing is emitted after it has returned, and reporting can be started again.",
  ["schedules", "configurations", "fault_sequences"], "every set of options and interval, every moment of starting and stopping, every failure to list descriptors, every sink speed",
  "The tests take one report with everything on.",
  ["runtime_metrics/runtime_metrics.go", "runtime_metrics/fds_linux.go"], [("ticker loop and stop channels", "runtime_metrics/runtime_metrics.go")], ["gauges arriving at a sink"])
p("C22", "healthd converges to the sum over all hosts",
  "Some seconds after hosts have stopped emitting and faults have stopped, healthd reports, for every interval the hosts still hold, exactly the sum of what all monitored hosts report for it (a gauge being one of theirs), for any number of hosts and whatever was lost, delayed, truncated or answered with errors before. It keeps reporting an interval so for two hours, also when hosts have dropped it, at whatever different times, or are gone. Hosts whose intervals have another length than the others' are left out.",
  ["fault_sequences", "schedules", "histories"], "every set of hosts and emissions, every sequence of network faults, crashes and restarts before the last fault",
  "The tests feed healthd a few canned responses from one or two servers that always answer.",
  ["healthd/healthd.go", "healthd/poll.go", "healthd/debouncer.go"], [("poll loop and recalculation", "healthd/healthd.go"), ("debouncer", "healthd/debouncer.go")], ["GET /healthd/aggregations on healthd"])
p("C23", "healthd never counts an emission twice",
  "At no moment does healthd report more of any count for an interval than the hosts have emitted in it: polling a host again, late, partly or after it restarted, in whatever time zone it reports, never counts an emission twice.",
  ["schedules", "fault_sequences", "crash_points"], "every moment of asking, every interleaving of polls, recalculations, restarts and faults",
  "The tests ask once after a settled poll.",
  ["healthd/healthd.go"], [("per-host, per-interval store replaced on each poll", "healthd/healthd.go")], ["GET /healthd/aggregations/overall, /healthd/aggregations and /healthd/jobs on healthd"])
p("C24", "healthd's host status tells the outcome of the latest poll",
  "For every monitored host healthd lists one status, sorted by host: that and when it was last polled, when last successfully, what went wrong in the latest poll, and which instance answered, for whatever way a poll can go wrong. A host that fails and recovers is shown as failing and then as healthy again within a few poll periods, and one host's failure affects no other host's status or data.",
  ["fault_sequences", "schedules"], "every sequence of outcomes of polls of any number of hosts",
  "The tests poll one failing and one healthy server once.",
  ["healthd/healthd.go", "healthd/poll.go"], [("HostStatus updates", "healthd/healthd.go"), ("poll's error reporting", "healthd/poll.go")], ["GET /healthd/hosts on healthd"])
p("C25", "healthd's API always answers correctly computed, valid JSON",
  "Every request to healthd's API is answered with valid JSON, also while hosts are polled and whatever names and values they report: jobs are sorted and limited as asked, by correctly computed counts, averages, deviations, minima and maxima; aggregations are ascending; the overall aggregation is the merge of all; hosts are sorted; unknown paths are answered with 404.",
  ["inputs", "schedules", "configurations"], "every content reported by hosts, every request and parameter, every moment of asking",
  "The tests check sorting of three hand-written jobs.",
  ["healthd/api.go", "healthd/healthd.go"], [("API handlers and getters", "healthd/api.go"), ("filterJobs and sorting", "healthd/api.go")], ["HTTP GET on healthd"])
p("C26", "Stopping healthd ends it cleanly at any moment",
  "Stopping healthd at any moment, with polls in flight to hosts that do not answer and API requests being served, returns within a bounded time; requests that race with it are answered or refused, none is left hanging; afterwards no host is polled and the port is free.",
  ["schedules", "fault_sequences"], "every moment of stopping against polls, recalculations and requests",
  "The tests stop an idle healthd.",
  ["healthd/healthd.go", "healthd/api.go"], [("stop channel of the main loop", "healthd/healthd.go"), ("graceful HTTP server", "healthd/healthd.go")], ["return of Stop, HTTP requests, polls received by hosts"])
p("C27", "healthtop shows what healthd reports and survives its outages",
  "A few seconds after healthd answers again, healthtop's screen shows the jobs or hosts healthd reports, sorted and limited as asked, and a good status; while healthd is down it keeps running, says so, and keeps showing what it was last told.",
  ["fault_sequences", "schedules"], "every sequence of outages of healthd, every content it reports",
  "There are no tests of healthtop.",
  ["cmd/healthtop/main.go", "cmd/healthtop/jobs.go", "cmd/healthtop/hosts.go"], [("poll loop with retry", "cmd/healthtop")], ["text printed on the terminal"])
p("C28", "The sinks leak no HTTP response",
  "Every HTTP response with a body that the Bugsnag and Librato sinks receive is read to its end or closed, whatever its status and content, so that connections and descriptors do not accumulate.",
  ["fault_sequences", "histories"], "every sequence of responses, of any status and content, truncated and hanging ones included",
  "The tests do not look at connections.",
  ["sinks/bugsnag/api.go", "sinks/librato/sink.go"], [("deferred Close", "sinks/bugsnag/api.go, sinks/librato/sink.go")], ["response bodies handed to the library"])
p("C29", "Stopping any background part returns, also under load",
  "Shutting down the polling sink, and stopping the Librato sink, the Bugsnag sink or the runtime metrics, returns within a bounded time at any moment at which emitters, readers and network faults are active; after it the stopped part makes no further requests, and what was already handed out stays intact.",
  ["schedules", "fault_sequences"], "every moment of stopping against emitters, readers, timers and requests in flight",
  "The tests stop idle sinks.",
  ["json_polling_sink.go", "sinks/librato/sink.go", "sinks/bugsnag/sink.go", "runtime_metrics/runtime_metrics.go"], [("done channels", "all of these")], ["return of the stopping calls"])
p("C30", "Sinks do not affect each other",
  "With several of the library's sinks on one stream, each reports exactly what it would report alone: faults, delays and sanitising of one change nothing in the data of another.",
  ["schedules", "fault_sequences", "configurations"], "every combination of sinks, every program of emissions, every fault behind one of them",
  "The tests attach one sink at a time.",
  ["health.go", "json_polling_sink.go", "statsd_sink.go", "writer_sink.go", "json_writer_sink.go", "sinks/bugsnag/sink.go", "sinks/librato/sink.go"], [("sinks called in turn with the same data", "health.go")], ["outputs of all sinks of one stream"])
p("C31", "healthd stays bounded however long it runs",
  "However long healthd runs and however hosts, the network and its clients behave, it keeps at most two hours of intervals, leaks no response of a host, and its number of goroutines does not grow with the number of polls and requests made.",
  ["fault_sequences", "histories"], "every history of polls, outages and requests",
  "The tests run healthd for milliseconds.",
  ["healthd/healthd.go", "healthd/poll.go", "healthd/api.go"], [("purge and truncation of intervals", "healthd/healthd.go"), ("response bodies", "healthd/poll.go")], ["GET /healthd/aggregations on healthd, response bodies, goroutines"])
p("C32", "healthd's own metrics tell what healthd did",
  "What healthd emits about itself on its own stream agrees with what it did: one completed poll job per poll of a host, naming that host, with the status and the duration that poll really had; one error per failed poll; one beginning and one completion per request to its API, with that request's path and status code; and completed recalculations while it runs.",
  ["fault_sequences", "schedules"], "every fleet of hosts, every sequence of host failures and API requests",
  "The tests pass a stream without sinks.",
  ["healthd/poll.go", "healthd/healthd.go", "healthd/api.go"], [("poll job completed", "healthd/poll.go"), ("recalculate job", "healthd/healthd.go"), ("health middleware", "healthd/api.go")], ["emissions of healthd on its own stream"])

CLAIM = os.environ.get("CLAIM", "").split() or [x["id"] for x in P]
TECH = "deterministic simulation of the real code with a seeded scheduler and fault injection, checked against a reference model"
NOTE = ("Seeded search: evidence on the sampled schedules, workloads and faults, not proof. The repository's own sources run unmodified except for mechanical "
        "rewriting of go statements, channel operations, sync, time, net, net/http, os and map iteration to simulated equivalents; trusts that rewriting, the simulated "
        "standard library and the reference model.")
with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        if x["id"] in CLAIM:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[], notes="No hooks in /repo: the seams are made by rewriting a copy of /repo's sources at build time (sim/rewrite).")
for x in P:
    if x["id"] in CLAIM:
        m["checks"].append(dict(property=x["id"], quick_cmd="VERIF_TIER=quick bash check.sh " + x["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + x["id"],
            evidence_file="evidence/%s.json" % x["id"], technique=TECH, level="exploration", level_note=NOTE))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
