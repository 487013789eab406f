#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code only to make editing bearable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("P01", "Each spectatord line type drives exactly its own meter and operation",
  "A well-formed spectatord line updates exactly one meter, of the kind its type letter names: A age gauge (value 0 means now, otherwise seconds since the epoch), c counter add, C monotonic counter set, U unsigned monotonic counter set, d distribution summary record, D percentile distribution summary record, g gauge set, m max gauge update, t timer and T percentile timer record (value in seconds), X monotonic sampled counter set (timestamp in milliseconds). The number on the line is what the meter receives, converted only by that unit change. A gauge line with a positive ttl sets that ttl in seconds, and one without leaves the gauge's ttl alone. (Age-gauge times and X timestamps are meant up to the year 2262 and timer values within the range of 64-bit nanoseconds.)",
  ["inputs"], "every byte string received as one line, for every type letter and every number/tag/ttl part",
  "Tests send a handful of lines per letter, and spectatord.cc is not even compiled by the pinned test build; the letter, value and optional parts multiply into paths no sample covers.",
  ["server/spectatord.cc", "server/spectatord.h"],
  [("type switch", "server/spectatord.cc Server::parse_line"), ("value parsing", "server/spectatord.cc get_measurement")],
  ["registry meters after a line"])
p("P02", "A rejected line changes no meter; an accepted line updates exactly one",
  "In both protocols a line that is reported as an error (bad separator, missing name, missing tag value, unparsable number, unknown type, bad ttl/timestamp/sampling rate) has no effect on any meter. A line that is not reported as an error results in exactly one meter being looked up and updated (the statsd set type, which is accepted and ignored, is the only exception).",
  ["inputs"], "every line of both protocols, on every path through the parsers",
  "Absence of an effect on every rejecting path cannot be sampled; the tests check the error strings of a few malformed lines.",
  ["server/spectatord.cc"], [("early error returns before the update", "Server::parse_line, Server::parse_statsd_line")])
p("P03", "Every line of a datagram is parsed once, independently, and counted once",
  "A datagram is split at newlines (runs of newlines separate lines, and make no empty lines); each line is handed to the parser exactly once and in order whatever happened to the lines before it, and a final line needs no newline. Each line increments exactly one of the parsed and parse-error status counters according to its own result (when status metrics are enabled), and the error of every failing line is in the result. The UDP and unix socket servers feed datagrams to the spectatord protocol, the statsd port's server to the statsd protocol.",
  ["inputs"], "every datagram content: any number of lines, any mixture of good and bad lines",
  "Line loops have unboundedly many shapes; tests use two or three lines.",
  ["server/spectatord.cc"], [("line loop", "Server::parse_lines")])
p("P04", "Parsers never look past the end of the received text",
  "While parsing a datagram of either protocol, no byte beyond the NUL that ends the received data is read or written, for every content of that data; the same holds for the (non-empty) text of a line handed to the line parsers and to their number and tag scanners.",
  ["inputs"], "every byte string, including ones cut off at any point",
  "One byte past the terminator is usually still inside the 64 KiB receive buffer, so neither a test nor ASan notices; only truncated inputs at particular points reach it.",
  ["server/spectatord.cc"], [("terminator checks before each cursor advance", "parse_line, parse_statsd_line, get_measurement, parse_lines")])
p("P05", "No datagram or file size overruns a fixed buffer, and receiving goes on",
  "For every datagram size the kernel can deliver, including one filling the receive buffer, the servers write only inside their buffer, hand a NUL-terminated text to the parser only for a received datagram without error, and then post the next receive exactly once whatever the outcome of the previous one. Reads from the proc files likewise stay inside their fixed buffers for every content.",
  ["inputs", "fault_sequences"], "every (error, size) pair a receive can complete with; every length read returns",
  "Needs a datagram of exactly the buffer size or a proc file of exactly 4096 bytes; no test drives the sockets.",
  ["server/udp_server.cc", "server/local_server.cc", "server/proc_utils.cc"],
  [("completion handler", "UdpServer::start_udp_receive, LocalServer::start_local_receive"), ("read length", "max_buffer_size")])
p("P06", "Each statsd line drives exactly the meter operation its type names",
  "A well-formed statsd line updates exactly one meter: c adds value divided by the sampling rate to a counter, g sets a gauge to the value whatever the rate, h records the value in a distribution summary and ms records it in a timer as milliseconds, each round(1/rate) times. A sampling rate is accepted only if it is greater than 0 and at most 1, and is 1 when absent; tags come from the #-section, and a tag without a value gets the value 1 (how a tag containing several ':' is divided is left open).",
  ["inputs"], "every statsd line: every type, value, rate and tag list",
  "The rate, type and tag sections combine; spectatord.cc is not compiled by the pinned test build.",
  ["server/spectatord.cc"], [("type switch", "parse_statsd_line"), ("update", "update_statsd_metric"), ("tag scanning", "add_tag")])
p("P07", "Work per received line is bounded by the line's length, not by its numbers",
  "The number of loop iterations the daemon executes for one line is bounded by the length of the line: no loop runs a number of times taken from a numeric value in the line.",
  ["inputs"], "every numeric value a line can carry",
  "An adversarial value (a sampling rate of 1e-9) makes one 20-byte datagram stall the daemon for seconds; tests use ordinary values.",
  ["server/spectatord.cc", "spectator/percentile_buckets.cc"], [("loop bounds", "all code reachable from the line parsers")])
p("P08", "Interned strings are canonical, sanitised and never freed or moved",
  "Interning maps every byte outside the Atlas set (letters, digits, '.', '-', '_', '~', '^') to '_' and leaves every other byte alone; two strings with equal sanitised text get the same reference, different ones different references, at any length and from any thread. A reference obtained once stays valid for the life of the process. (Texts below 4 GiB.)",
  ["inputs", "schedules"], "every string over all 256 byte values and every interleaving of interning threads",
  "256 byte values, all lengths and all interleavings; tests intern a few literals.",
  ["spectator/string_pool.cc", "spectator/string_pool.h", "spectator/string_intern.h", "tools/gen_valid_chars.cc"],
  [("character table", "kAtlasChars"), ("single constructor", "StrRef"), ("pool lock", "StringPool::table_mutex_")])
p("P09", "A tag set is sorted, duplicate-free, last-wins and memory-safe at any size",
  "For every sequence of additions, copies and moves a tag set holds each key once with the value added last, in key order, and compares equal exactly to sets with the same pairs. No sequence makes it write outside its storage, free storage it does not own, leak it or share it with another set. (A moved-from set is only destroyed or assigned to.)",
  ["inputs", "histories"], "every sequence of add/copy/move/assign/destroy with any number of tags",
  "The inline-to-heap switch, the capacity stored over the inline storage and the ownership hand-over only fail for particular counts and orders of operations.",
  ["spectator/tags.h"], [("representation", "Tags::insert, Tags::reallocate, copy/move operations, destructor")])
p("P10", "The same identity always yields the same meter, in every thread",
  "Looking up a meter by name and tags returns the one meter of that kind registered under an equal identity, creating it only if there is none: lookup and creation are one atomic step, an existing meter is never replaced, the meter is registered under the identity that was asked for, and equal identities always hash equally.",
  ["schedules", "histories"], "every interleaving of lookups of equal identities, and every identity",
  "Two threads racing between lookup and insertion lose updates only in rare schedules.",
  ["spectator/registry.h", "spectator/registry.cc", "spectator/id.h"],
  [("insert-if-absent under the lock", "meter_map::insert"), ("identity equality and hash", "Id, Tags, StrRef")])
p("P11", "Every kind of meter is measured, expired and counted",
  "Each of the nine meter kinds held by the registry is included in the published measurements, in the registry size and (age gauges excepted) in expiry; the expiry totals are the sums over all kinds.",
  ["configurations"], "every meter kind, present and future",
  "A kind left out of one of the three lists compiles and passes every test of the other kinds.",
  ["spectator/registry.h"], [("per-kind lists", "all_meters::size, measure, remove_expired")])
p("P12", "Meters expire exactly when idle longer than their ttl",
  "A meter other than an age gauge is dropped (and no longer reported) exactly when the time since its last update exceeds the registry ttl, or for a gauge its own ttl, which is never under 5 seconds and is the registry's ttl unless its line or caller gives one; age gauges never expire. Every update of a meter's value refreshes its last-update time, and reporting or expiring a meter does not. Every report and sweep looks at every meter, and an unset registry ttl means the default.",
  ["histories", "inputs"], "every history of updates, reports and expiry sweeps, every ttl and clock value",
  "Boundary comparisons and the refresh on each update method are only sampled at one or two times by the tests.",
  ["spectator/registry.h", "spectator/gauge.cc", "spectator/meter.h"],
  [("expiry predicate", "is_meter_expired, Gauge::HasExpired"), ("last update", "Meter::Update")])
p("P13", "Shared tables are only touched under their lock, and locks cannot deadlock",
  "Every access to a shared container or multi-word state (meter tables, string pool, percentile-meter cache, monotonic-sampled state, the publisher's buffer and response lists) happens while the mutex declared for it is held, on every path. No thread acquires two of these mutexes in opposite orders, re-acquires one it holds, leaves a function with it held, or blocks on network, sleep or a thread join while holding one.",
  ["schedules"], "every interleaving of receiver, publisher, expirer, upkeep and admin threads",
  "Races and lock-order inversions depend on the schedule; the pinned tests are single-threaded.",
  ["spectator/registry.h", "spectator/string_pool.h", "server/expiring_cache.h", "spectator/monotonic_sampled.cc", "spectator/publisher.h"],
  [("mutexes", "absl::Mutex members and their guarded state")])
p("P14", "Concurrent updates and reports neither lose nor double-count a value",
  "Every change of an accumulated value that depends on its previous value is one atomic read-modify-write (or a compare-and-swap whose new value is computed from the compared one); a report takes and resets an accumulator in one atomic step. A monotonic counter's report and the baseline it leaves for the next report come from the same single reading of the value.",
  ["schedules"], "every interleaving of concurrent updates and reports on one meter",
  "A lost or duplicated update needs a particular interleaving of two threads; tests are single-threaded.",
  ["spectator/atomicnumber.h", "spectator/counter.cc", "spectator/timer.cc", "spectator/dist_summary.cc", "spectator/max_gauge.cc", "spectator/monotonic_counter.cc", "spectator/monotonic_counter_uint.cc", "spectator/monotonic_sampled.cc", "spectator/gauge.cc"],
  [("CAS loops", "add_double, update_max"), ("exchange on report", "Measure methods")])
p("P15", "Each meter kind reports its documented statistics, units and resets",
  "A report of each kind yields: counter and monotonic counters one positive count; gauges one gauge unless unset, and a last one in the report in which they expire; age gauge seconds since last success; max gauge the max since the last report; timer count, totalTime in seconds, totalOfSquares in seconds squared and max in seconds; distribution summary count, totalAmount, totalOfSquares and max. Interval kinds (all but gauges and age gauges) report only what was recorded since the previous report, nothing if there was nothing, and negative or NaN amounts are ignored by counters, timers and distribution summaries; an unsigned monotonic counter's wrap past 2^64 counts as the true increment (increments above 2^63 are not distinguished from none).",
  ["inputs", "histories"], "every recorded amount and every history of updates and reports",
  "Per-path values (units, reset to the neutral element, sign and NaN handling) for all amounts; tests try a few round numbers.",
  ["spectator/counter.cc", "spectator/gauge.cc", "spectator/age_gauge.h", "spectator/max_gauge.cc", "spectator/timer.cc", "spectator/dist_summary.cc", "spectator/monotonic_counter.cc", "spectator/monotonic_counter_uint.cc", "spectator/monotonic_sampled.cc", "spectator/dist_stats.h"],
  [("Measure methods", "each meter class")])
p("P16", "Sums are aggregated by adding, everything else by maximum",
  "A measurement whose statistic tag is count, totalAmount, totalTime, totalOfSquares or percentile is sent with the add operation (0); any other statistic, or none, is sent with the max operation (10).",
  ["inputs"], "every statistic tag value", "publisher.h is not compiled by the pinned test build, and only some statistics appear in its tests.",
  ["spectator/publisher.h"], [("operation choice", "Publisher::op_from_tags")])
p("P17", "Smile encoding of every integer, double and string decodes to the same value",
  "For every integer from 0 to 2^31-1, every double bit pattern and every ASCII string length, the bytes emitted form exactly one well-formed Smile token whose decoded value is the value appended; a payload starts with the Smile header and an array start and ends with an array end.",
  ["inputs"], "all 64-bit patterns and all string lengths",
  "Each length class of the encoding has its own byte formulas; tests check a few small values.",
  ["spectator/smile.cc", "spectator/smile.h"], [("encoders", "SmilePayload::Append overloads")])
p("P18", "A payload's string table, indices and counts always agree",
  "The payload announces exactly as many strings as it lists; every name, tag key and tag value of every measurement of the batch and of the common tags is in the table, and each index written is that string's position. For each measurement the announced tag count equals the number of key/value pairs that follow (common tags, own tags, then name), followed by the operation and the value.",
  ["inputs"], "every batch of measurements and every set of common tags",
  "Publisher code is not compiled by the pinned build, and a missing string or off-by-one count corrupts everything after it only for some batches.",
  ["spectator/publisher.h"], [("string table", "build_str_table"), ("measurement layout", "append_measurement, get_common_ids, add_tags")])
p("P19", "Every measurement is sent in exactly one batch and every send completes",
  "For every number of measurements and every batch size, each measurement is in exactly one batch of at most that size, and splitting ends. Each batch task takes one free buffer, posts one payload built from exactly its batch, records one response with its batch size, returns the buffer and signals completion, exactly once each on every path; there is a buffer for every worker, there is at least one worker whatever the configuration, and the sender waits for all batches before it reads the responses. Nothing is sent only when publishing is disabled or there is nothing to send, and the publisher's last-success time is set exactly after a 2xx response.",
  ["inputs", "configurations", "schedules"], "every measurement count, batch size, worker count and interleaving",
  "publisher.h is not compiled by the pinned build; batch size 0 or a missed signal hangs the sender only in particular configurations.",
  ["spectator/publisher.h"], [("batch loop and task", "Publisher::send_metrics")])
p("P20", "Every aggregator response is accounted for, whatever its status and body",
  "For every HTTP status and every response body (any JSON, or none) handling the response of a batch terminates without touching a JSON value as a type it does not have, and the batch's measurements are split completely into sent and dropped. When status metrics are enabled the same numbers go to exactly the matching status counters: 2xx..4xx validation results to sent and validation errors, unusable bodies and connection errors to dropped-other, 5xx to dropped-http, 200 to sent. Each response is handled exactly once with the size of its own batch.",
  ["inputs", "fault_sequences"], "every status code and every body the aggregator (or a proxy) can return",
  "The body is untrusted and its shapes are unbounded; publisher.h is not compiled by the pinned build.",
  ["spectator/publisher.h"], [("response accounting", "Publisher::handle_aggr_response")])
p("P21", "HTTP calls are retried at most twice, only when retryable, and logged once each",
  "A request is sent at most three times; while attempts remain, a further one is made exactly after a transport failure with time left or a 429/5xx status, never after success or another 4xx. Each attempt records exactly one client-call metric with its own attempt number and final flag, and the response returned is that of the last attempt (-1 for a transport failure).",
  ["fault_sequences"], "every sequence of per-attempt outcomes",
  "http_client.cc is not compiled by the pinned build, and outcome sequences multiply.",
  ["spectator/http_client.cc", "spectator/log_entry.h"], [("attempt loop", "HttpClient::perform"), ("attempt metric", "LogEntry")])
p("P22", "External publishing always verifies the server and uses the client certificate",
  "When external publishing is enabled every request, including retries, is sent with peer verification on, the configured CA file, client certificate, key and verifier callback with its application name set, and system CAs not used; nothing later turns them off. The certificate files are those found for the configuration.",
  ["configurations", "fault_sequences"], "every configuration and attempt", "A missing option silently falls back to weaker verification; no test makes a TLS connection.",
  ["spectator/http_client.cc"], [("TLS options", "CurlHandle::configure_metatron, HttpClient::perform")])
p("P23", "Admin changes need a localhost request and are validated before any is applied",
  "The admin service changes state (common tags, meters) only for a POST to /config/common_tags or a DELETE of /metrics/A or /metrics/g addressed to localhost (localhost, 127.0.0.1 or [::1], with or without a port). A common-tags request is applied only if its body is a JSON object all of whose keys are allowed tags with string values, otherwise nothing of it is applied; an empty value deletes the tag and any other sets it. A delete touches only meters of the kind named in its path: the one with the name and the comma-separated k=v tags that follow the kind, or all of the kind when nothing follows.",
  ["inputs"], "every request: method, URI, host and body", "Request space is unbounded and the admin server is not compiled by the pinned build.",
  ["admin/admin_server.cc"], [("dispatch", "RequestHandler::handleRequest"), ("validation", "POST_config_common_tags")])
p("P24", "Every admin request gets exactly one response with its own status",
  "For every request the handler sends exactly one response, after setting its status: 200 for a performed request, 400 for an invalid or non-localhost one, 404 for an unknown endpoint, or for a meter that was to be deleted and does not exist.",
  ["inputs"], "every request on every path through the handler", "The admin server is not compiled by the pinned build; a path without (or with two) sends hangs or corrupts one connection.",
  ["admin/admin_server.cc"], [("handlers", "handleRequest and the per-endpoint functions")])
p("P25", "Status metrics are never recorded when disabled",
  "When internal status metrics are disabled by configuration, no code path updates any of the daemon's own meters (spectator.*, spectatord.*, ipc.client.call); when enabled every one of them is updated where its event occurs: each line counted parsed or in error, the pool, registry, cache, expiry and socket figures reported once per round, and the daemon's own age gauge starting as just updated.",
  ["configurations"], "every update site of an internal meter on every path", "Each site is separately guarded; a test covers one configuration.",
  ["server/spectatord.cc", "spectator/registry.cc", "spectator/publisher.h", "spectator/log_entry.h"], [("guards", "status_metrics_enabled tests at each update")])
p("P26", "Stopping never misses its wake-up and always joins its threads",
  "Stop makes each background thread (expirer, sender, upkeep) leave its wait promptly in every interleaving: the stop request cannot slip in between the thread's last look at the flag and its wait. Every started thread is joined exactly once before its owner goes away.",
  ["schedules"], "every interleaving of Stop with the three background loops", "The window between check and wait is nanoseconds wide; a lost wake-up only delays shutdown by up to a full period.",
  ["spectator/registry.cc", "spectator/publisher.h", "server/spectatord.cc"], [("flag, mutex and condition variable", "Registry::Stop/expirer, Publisher::Stop/sender, Server::Stop/upkeep")])
p("P27", "Every value falls into exactly its percentile bucket",
  "For every non-negative 64-bit amount the bucket index is in range and is that of the bucket whose bounds enclose the amount (the remainder of a power-of-four range that is shorter than the range's step counts into the next bucket); bucket bounds are strictly increasing and end at the largest value. A percentile timer or distribution summary increments the counter tagged with exactly that bucket's tag (T or D and four hex digits), after clamping to its configured range, together with its plain timer or summary.",
  ["inputs"], "all 2^64 amounts", "276 buckets with power-of-two arithmetic at each boundary; tests sample powers and random values.",
  ["spectator/percentile_buckets.cc", "spectator/percentile_timer.h", "spectator/percentile_distribution_summary.h", "spectator/util.h", "tools/gen_perc_bucket_values.cc", "tools/gen_perc_bucket_tags.cc"],
  [("index computation", "PercentileBucketIndexOf"), ("generated tables", "kBucketValues, kPowerOf4Index, kTimerTags, kDistTags")])
p("P28", "No pointer or reference to a meter outlives the registry's protection",
  "Code that runs outside the registry's or cache's lock only holds meters through owning references: no raw pointer or reference to a meter, or to part of one, taken under the lock is used after it is released, so expiry or deletion in another thread never frees something in use.",
  ["schedules"], "every interleaving of expiry/deletion with publishing, admin listing and parsing", "Use-after-free needs expiry between two instructions of another thread.",
  ["spectator/registry.h", "server/expiring_cache.h", "spectator/measurement.h"], [("shared ownership", "meter_map tables of shared_ptr")])
p("P29", "The number of registered age gauges never exceeds its limit",
  "A new age gauge is registered only while fewer than the configured limit exist; beyond it a working but unregistered one is returned, and identities registered earlier keep working; comparing with the limit and registering are one atomic step.",
  ["inputs", "histories"], "every sequence of age-gauge lookups and every limit", "registry.cc is not compiled by the pinned build.",
  ["spectator/registry.cc"], [("limit test", "Registry::GetAgeGauge")])
p("P30", "Common-tag changes reach every later payload and are race-free",
  "After a common tag is set or erased through the registry, every payload built from then on carries exactly the new set, and reading, publishing and changing the common tags from different threads never race.",
  ["schedules", "histories"], "every interleaving of updates with publishing and reading the configuration", "Needs the publisher and the admin server together; neither is compiled by the pinned build.",
  ["spectator/registry.cc", "spectator/publisher.h", "spectator/config.h"], [("common tags", "Registry::UpdateCommonTag, EraseCommonTag, Publisher")])
p("P31", "Compression never overruns its buffers, leaks its stream or truncates output",
  "For every payload size and chunk sizes of at least 2 the compressor, appended to only after its initialisation, only writes inside its output buffer, consumes all pending input before that input is cleared, starts every payload without input left from an earlier one, ends the stream completely before the result is returned, and pairs every successful stream initialisation with exactly one release on every path.",
  ["inputs", "fault_sequences"], "every payload size and zlib result code", "Depends on sizes relative to chunk boundaries and on error returns tests do not provoke.",
  ["spectator/compressed_buffer.cc", "spectator/compressed_buffer.h", "spectator/gzip.cc"], [("stream lifecycle", "CompressedBuffer::Init/Append/Result, gzip_compress, gzip_uncompress")])
p("P32", "Proc-file parsing is total: right columns, no overrun, files always closed",
  "For every content of the proc files the network statistics are taken from the row of the requested port and its queue and drop columns, rows with too few columns are skipped (rows are at most 4095 bytes long), absence is reported as such, and every opened file or descriptor is closed exactly once on every path.",
  ["inputs", "fault_sequences"], "every file content and failure to open or read", "Tests use two sample files.",
  ["server/proc_utils.cc", "util/files.h"], [("row parsing", "udp_info"), ("buffer size", "max_buffer_size")])
p("P33", "Start-up configuration follows its documented precedence",
  "The publish URI is the debug one if --debug, else --uri if given, else the external one (with certificates enabled) if --enable_external, else the configured default; --common_tags replaces the common tags only when every pair is complete and otherwise start-up fails; --no_common_tags clears them and disables status metrics; port flags accept exactly 1 to 65535. Each pair of --common_tags is divided at its first '=' and the last of equal keys wins; the meter ttl, age-gauge limit, verbose HTTP logging, ports and socket follow their own flags and documented defaults.",
  ["configurations"], "every combination of flags", "Flag combinations multiply and main is not compiled by the pinned build.",
  ["bin/spectatord_main.cc"], [("flag handling", "main, AbslParseFlag(PortNumber)")])
p("P34", "The endpoint path of any request URL is well defined",
  "Deriving the endpoint path of a request is defined for every URL string: it reads only inside the string and yields the path without scheme, host and query, or / when there is none (a text with a colon that is followed by fewer than two characters is returned whole).",
  ["inputs"], "every string", "Index arithmetic around missing scheme, host or path.",
  ["spectator/strings.cc"], [("path extraction", "PathFromUrl")])
p("P35", "Start-up opens exactly the configured listeners, each with its own parser",
  "Whatever the settings, starting the server opens the spectatord UDP listener on its port, a statsd UDP listener exactly if a statsd port is set and a unix datagram listener exactly if a socket path is set, each bound to the address family, port or path of its setting; each hands every text it receives to the parser of its own protocol, is started exactly once before the event loop runs, and lives until the loop ends. Before the unix socket is bound a stale socket file is removed, its directory made and the umask set so that every user can send. SIGINT and SIGTERM end the event loop and stop the server.",
  ["configurations"], "every combination of settings", "The listeners need real sockets, a running event loop and signals; no test starts the server.",
  ["server/spectatord.cc", "server/udp_server.cc", "server/local_server.cc"], [("start-up", "Server::Start, prepare_socket_path"), ("binding", "UdpServer, LocalServer constructors")])
p("P36", "Every HTTP request carries its method, payload, headers and time limits",
  "A request goes to the URL given with the headers given; a POST carries exactly the payload handed in with its size, another method carries none. A payload is marked Content-Encoding: gzip exactly if it is compressed, and one that cannot be compressed is not sent and gives -1. The whole request and the connection are limited by the configured times, an unset one being replaced by a default that is not zero. The response's body, and its headers when wanted, are collected completely and never read outside what libcurl hands over, and a body that is not wanted is discarded.",
  ["inputs", "configurations", "fault_sequences"], "every method, payload, configuration and attempt", "http_client.cc is not compiled by the pinned build; a request without a limit or payload shows only against a real server.",
  ["spectator/http_client.cc", "spectator/publisher.h"], [("request", "HttpClient::perform, Post, Get, Put"), ("limits", "Publisher::get_http_config")])
# accepted as properties of the system, not decidable by this technique
p("N01", "Published percentile estimates are accurate to the bucket width",
  "The percentile computed from bucket counts is within the width of the bucket containing the true percentile, for every distribution of recorded values.",
  ["inputs"], "every multiset of recorded values", "A numerical error bound over all inputs.",
  ["spectator/percentile_buckets.cc"], [("interpolation", "Percentiles")])
p("N02", "A compressed payload decompresses to the bytes appended",
  "For every payload the gzip stream produced decompresses to exactly the bytes appended.",
  ["inputs"], "every byte sequence", "Round-trip equality over all inputs.",
  ["spectator/compressed_buffer.cc", "spectator/gzip.cc"], [("zlib", "deflate")])
p("N03", "Measurements are published once per period without drift or overlap",
  "Publishing, expiry and upkeep each run once per configured period, whatever the duration of one run up to a period.",
  ["schedules"], "every duration of one run", "Real time.",
  ["spectator/publisher.h", "spectator/registry.cc"], [("period arithmetic", "sender, expirer, upkeep")])
p("N04", "Histories of concurrent meter updates and reports are linearizable",
  "The sum over all reports of a counter equals the sum of all its additions in every concurrent history, including additions racing with expiry of the meter.",
  ["schedules", "histories"], "every concurrent history", "Ordering of concurrent histories.",
  ["spectator/counter.cc", "spectator/registry.h"], [("atomics and shared ownership", "Counter, meter_map")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
