#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as one source so that
ids, titles and anchors stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
CK, QT, RP = "src/check_aggregator_impl.cc", "src/quota_aggregator_impl.cc", "src/report_aggregator_impl.cc"
CKH, QTH, RPH = "src/check_aggregator_impl.h", "src/quota_aggregator_impl.h", "src/report_aggregator_impl.h"
HND = "src/cache_removed_items_handler.h"
CL, CLH = "src/service_control_client_impl.cc", "src/service_control_client_impl.h"
OA, QOA = "src/operation_aggregator.cc", "src/quota_operation_aggregator.cc"
SIG, MD, DH, MU = "src/signature.cc", "utils/md5.cc", "utils/distribution_helper.cc", "src/money_utils.cc"
LRU = "utils/simple_lru_cache_inl.h"
HTTP = "sample/transport/http_transport.cc"
OPT = "include/aggregation_options.h"

p("C01", "Aggregator state is only touched under the lock that protects it",
  "Check, quota and report aggregators may be called from any number of threads at once: every access to state they keep between calls (the cache and its entries, the hand-over slot for evicted items, the flush callback) is made while holding one lock that is common to all accesses of that state. No public operation reads or writes such state before taking the lock or after releasing it.",
  ["schedules", "inputs"], "Every interleaving of calls to the public operations of one aggregator, on every path through them.",
  "The thread tests run a handful of schedules; an unlocked access on a rare path is a race no assertion observes.",
  [CK, QT, RP, HND], [("cache lock held around every cache operation", CK), ("callback lock around the flush callback", HND)],
  [("cache_", "the cached entries", CKH), ("stack_buffer_", "where evicted items are handed over", HND), ("flush_callback_", "who receives evicted items", HND)])
p("C02", "No aggregator calls out while holding a lock the call-out may need",
  "A flush callback is never run while the thread holds an aggregator lock that another public operation of that aggregator would block on, so a callback that synchronously delivers a response back into the aggregator cannot deadlock. Every lock taken by a public operation is released on every way out of it and is never taken again by a thread that already holds it.",
  ["schedules", "inputs", "histories"], "Every path of every public operation, including evictions caused by calls made from inside a flush callback.",
  "Tests use callbacks that do not call back in at the moment of an eviction.",
  [CK, QT, RP, HND], [("evicted items are buffered and delivered after the cache lock is released", HND)])
p("C03", "Every request completes exactly once",
  "For each asynchronous check, quota or report request the caller's completion callback is invoked exactly once provided the transport invokes its completion exactly once: either directly, or through the completion handed to exactly one transport call, never both and never neither. This holds on every path, whatever the aggregator answers and whatever status the transport reports.",
  ["inputs", "schedules", "fault_sequences"], "All requests, aggregator answers, transport statuses, synchronous or asynchronous completion.",
  "Mocks cover one or two statuses per entry point; a path that drops or doubles a completion hangs or double-frees only in the field.",
  [CL], [("direct completion or hand-over to the transport", CL)], observe=["completion callback"])
p("C04", "Synchronous calls return the status of their own completion",
  "A synchronous check, quota or report call returns exactly the status with which its own request completed, and only after it completed. The object that carries the result across threads stays valid until the completing thread has finished with it.",
  ["schedules", "inputs"], "All completion statuses and any thread or time of completion.",
  "Unit tests complete from one mock thread with fixed statuses.",
  [CL], [("promise moved into the completing thread; future waited on", CL)])
p("C05", "Completion statuses are faithful; a missing transport is rejected up front",
  "A request without a usable transport function completes with INVALID_ARGUMENT, and neither the aggregator nor any transport sees it. Otherwise the caller's completion carries unchanged either the status the aggregator decided (when it answered) or the status the transport reported (when the request was sent), and a request is sent if and only if the aggregator answered NOT_FOUND. Calls that bring no transport of their own use the one their kind was configured with.",
  ["inputs", "fault_sequences"], "All requests, aggregator statuses and transport statuses.",
  "Tests sample OK, one error and INVALID_ARGUMENT.",
  [CL], [("status decisions in Check/Quota/Report", CL)])
p("C06", "Only genuine answers are cached, and each server call is settled once",
  "A check response is stored in the cache exactly when the server call succeeded, under the request it answers; a failed check call stores nothing. Every completed quota call, including background refreshes, settles its cache entry exactly once: with the server's response on success, and with an empty (allowing) response when the call failed.",
  ["inputs", "fault_sequences", "histories"], "All transport statuses and responses, foreground and background calls.",
  "Tests inspect a few of the (call kind, outcome) pairs.",
  [CL], [("completion handlers", CL)])
p("C07", "Malformed requests are rejected without side effects",
  "A check, quota or report request whose service name differs from the configured one, or a check or quota request without an operation, is answered INVALID_ARGUMENT. Such a request changes no cached state, flushes nothing and is not aggregated, even when it is otherwise cacheable.",
  ["inputs", "histories"], "All malformed requests in any cache state.",
  "Tests check the status, not the absence of effects, and for few requests.",
  [CK, QT, RP], [("validation before any cache work", CK)])
p("C08", "Important or uncacheable traffic bypasses the caches",
  "A check whose operation is of non-LOW importance, a report containing any operation of non-LOW importance at any position, and every valid request of a kind whose cache is disabled, is answered NOT_FOUND by the aggregator so that it is sent immediately. It is not looked up, merged, stored or delayed, not even partially.",
  ["inputs", "configurations"], "All requests, any number and position of important operations, all configurations.",
  "Tests use one-operation requests.",
  [CK, QT, RP], [("importance and cache-presence tests before caching", RP)])
p("C09", "Cached check answers follow the documented refresh protocol",
  "A cacheable check with no cached response answers NOT_FOUND; with a fresh cached response it answers OK with exactly that response, aggregating the operation only if the response carries no check errors. When the response is at least the flush interval old, exactly the first check answers NOT_FOUND and restarts the interval so that the following ones keep using the old response until it is replaced.",
  ["inputs", "histories", "schedules"], "All cached responses, ages and interleavings of checks.",
  "Tests sample single sequences with sleeps.",
  [CK], [("lookup, age test and restart of the interval under one lock", CK)])
p("C10", "No operation of a cached report is lost or counted twice",
  "When a report is accepted for caching, every one of its operations is, exactly once, either merged into the cached entry for that operation's key or stored as a new entry under that key. An entry that grew too big is handed over for sending and leaves the cache.",
  ["inputs", "histories"], "Reports with any number of operations and any keys, any cache contents.",
  "Tests use reports of one or two operations.",
  [RP], [("per-operation merge or insert", RP)])
p("C11", "Everything evicted is delivered, in bounded batches",
  "Every check or report aggregate that leaves its cache with pending data, and every quota call an aggregator starts, is handed to the registered flush callback exactly once, before the public operation that caused it returns. Evicted reports are batched only with reports of the same service, a batch never exceeds ten operations by merging, and batching neither loses nor repeats an operation.",
  ["histories", "inputs"], "Any number of evictions in one operation, any item sizes.",
  "Tests evict one or two entries at a time.",
  [HND, RP, CK, QT], [("buffer of evicted items drained on scope exit", HND), ("report merging", RP)])
p("C12", "At most one quota call per key is outstanding",
  "The first quota request for a key is answered OK with a provisional allowing response while exactly one server call is started for it. While a call for the key is outstanding no further call is started for it; a request that finds the entry due for refresh with no call outstanding starts exactly one and restarts the refresh interval, and the arrival of a response marks the call as no longer outstanding.",
  ["histories", "schedules", "inputs"], "All interleavings of requests, refreshes and responses for a key.",
  "Tests exercise single-threaded sequences of two or three requests.",
  [QT, QTH], [("in-flight mark", QTH), ("refresh stamp", QT)])
p("C13", "A cached quota denial is enforced and probed, never accumulated",
  "While the cached quota response for a key is a denial, requests are answered with that denial and their tokens are not accumulated; when it is due for refresh the server is asked in NORMAL mode rather than best effort. When a denial arrives, tokens accumulated for the key are discarded.",
  ["histories", "inputs"], "All response contents and orders of requests and responses.",
  "Tests cover one denial scenario.",
  [QT, QTH], [("sign of the cached response", QTH)])
p("C14", "Accumulated quota tokens are sent exactly once",
  "Every request answered from a cached allowing quota response has its tokens accumulated in that entry. A refresh sends all accumulated tokens and empties the accumulator in the same step, and when nothing was accumulated it re-sends the original request of the entry; no accumulated token is sent by two refreshes.",
  ["histories", "inputs"], "All sequences of requests and refreshes while the entry lives.",
  "Tests follow one or two refreshes.",
  [QT, QTH], [("take-and-clear of the accumulator", QT)])
p("C15", "The statistics count exactly what happened",
  "For checks, quotas and reports alike, the statistics count every call received once, every request handed to a transport during a call once as in flight, every request handed to a transport by flushing once as flushed, and every operation of each report sent; nothing else changes them. Reading the statistics returns each counter under its own name.",
  ["inputs", "histories", "schedules"], "All sequences of calls and flushes from any threads.",
  "Tests compare totals of a few fixed scenarios.",
  [CL], [("atomic counters", CLH)])
p("C16", "Flushed requests carry the configured service name and config id",
  "Every check, quota or report request that an aggregator rebuilds from accumulated data carries the service name and the service config id the aggregator was created with, each in its own field. The same identity is passed by the client to all three aggregators.",
  ["inputs", "configurations"], "All names, ids and flush causes.",
  "Tests use requests in which several fields coincide.",
  [CK, QT, RP, CL], [("stamping of rebuilt requests", CK)])
p("C17", "Requests that differ in an identity field never share a cache key",
  "Two checks that differ only in operation name, consumer id, one label's key or value, one metric name or one metric-value label; two report operations that differ only in consumer id, operation name or one label; two metric values of one metric that differ only in labels; and two quota requests that differ only in method name, consumer id or the set of metric names, are digested as different byte sequences (for requests that list each metric once, with text free of zero bytes); so are requests with the same numbers of labels, metrics, values and value labels that differ in any identity text.",
  ["inputs"], "All requests, with any number of labels, metrics and values.",
  "Tests compare a dozen fixed requests.",
  [SIG], [("every identity field is digested, separated by delimiters", SIG)])
p("C18", "Cache keys do not depend on the order of unordered request data",
  "The key of a check, report operation, metric value or quota request is the same however its label maps are laid out in memory, and check and quota keys do not depend on the order in which the request lists its metrics (each listed once). Fields that are not part of the identity (operation id, times, values, importance) do not influence the key.",
  ["inputs"], "All permutations of labels and metrics, all values of non-identity fields.",
  "Hash-map order is fixed within one test binary; tests permute one or two cases.",
  [SIG], [("ordered traversal of label maps and metric names", SIG)])
p("C19", "The digest helper digests exactly the bytes it was given",
  "Each update of the digest feeds exactly the given bytes, with the given length, to the underlying hash, in order; finishing happens once, later reads return the same 16 bytes, and each digest object starts from a clean state.",
  ["inputs", "histories"], "All data, lengths (including embedded zero bytes) and call sequences.",
  "Tests cover a few short strings.",
  [MD, "utils/md5.h"], [("thin wrapper over the hash primitive", MD)])
p("C20", "Merged time windows are the exact union of the merged parts",
  "When operations or metric values are merged, the resulting start time is the earlier and the end time the later of those present, compared by seconds and then nanoseconds; a time absent on one side is taken from the other and a time absent on both stays absent.",
  ["inputs"], "All orderings of seconds and nanoseconds and all presence combinations.",
  "Tests cover a few orderings, mostly with equal nanoseconds.",
  [OA, QOA], [("timestamp comparison", OA)])
p("C21", "Metric values merge according to their kind and type",
  "A metric configured as anything other than DELTA (unlisted metrics are DELTA) keeps the whole value with the later end time, the newer arrival winning ties. DELTA values of the same type are combined (integers and doubles added, distributions merged), each within its own metric name and label set; a value of a different type leaves the accumulated value and its window untouched.",
  ["inputs", "configurations"], "All metric kinds, value types, label sets and orders of arrival.",
  "Tests cover matching types and a few kinds.",
  [OA], [("merge by metric kind", OA)])
p("C22", "Aggregated operations keep every metric value and log entry",
  "The operation produced from an aggregate contains every metric value and every log entry of every operation merged into it (the first included), metric values that share metric name and labels being combined into one and no others. Everything else except the time window is taken from the first operation, and an aggregate reports itself as too big from one hundred log entries on.",
  ["inputs", "histories"], "Any number of operations, metric sets, values and log entries.",
  "Tests merge two or three small operations.",
  [OA], [("per-name, per-label accumulation and rebuild", OA)])
p("C23", "Quota accumulation adds tokens per metric and loses none",
  "An accumulated quota operation, built from operations that carry one value per metric, holds for every metric name of every operation merged into it one value: the sum of the 64-bit integer tokens of all of them, the first operation included exactly once. Values of another type than the accumulated one change nothing, and the other fields are those of the first operation.",
  ["inputs", "histories"], "Any number of operations and metrics.",
  "Tests merge a few operations of two metrics.",
  [QOA], [("per-metric accumulation and rebuild", QOA)])
p("C24", "Merging distributions is complete or has no effect",
  "Merging two distributions whose bucket layouts (kind, number of buckets, every parameter or bound) do not match, or whose bucket counts differ in number, fails with INVALID_ARGUMENT and leaves the target unchanged. Otherwise count, mean, minimum, maximum, squared deviation and every bucket of the source are folded in, an empty source changes nothing and an empty target becomes the source.",
  ["inputs"], "All bucket kinds, parameters and counts.",
  "Tests vary a few parameters.",
  [DH], [("layout comparison before the first write", DH)])
p("C25", "Adding a sample always updates exactly one existing bucket",
  "For every distribution initialised by this library and every sample value, including infinities, NaN and values beyond any bucket, adding the sample increments exactly one bucket, whose index lies between zero and the last allocated bucket and whose range (lower bound included) contains the value up to rounding, and updates count, mean, minimum, maximum and squared deviation once. A distribution without bucket layout is rejected with INVALID_ARGUMENT and left unchanged.",
  ["inputs"], "All doubles and all accepted layouts with bucket counts a repeated field can hold.",
  "Tests add a dozen ordinary values.",
  [DH], [("index computed and clamped per layout", DH)])
p("C26", "Bucket layouts are validated before anything is written",
  "Initialising a distribution with a non-positive bucket count, a growth factor that is not above one, a scale or width that is not positive, or bounds that are unsorted or repeated, fails with INVALID_ARGUMENT and leaves the distribution untouched. On success the given layout is recorded and the bucket list has exactly two more entries than finite buckets (one more than bounds).",
  ["inputs"], "All parameters, with bucket counts a repeated field can hold.",
  "Tests use a few invalid values.",
  [DH], [("argument checks first", DH)])
p("C27", "Money validation and sign follow the value ordering exactly",
  "A money value is accepted exactly when its currency code has three letters' length, its units and nanos do not have opposite signs, and its nanos lie within plus or minus 999,999,999; otherwise the answer is INVALID_ARGUMENT. Its sign is that of the units, or of the nanos when the units are zero.",
  ["inputs"], "All combinations of code length, units and nanos.",
  "Tests cover a few points of each region.",
  [MU], [("chains of comparisons", MU)])
p("C28", "Money of different currencies never adds; addition stays in range",
  "Adding money values of different currencies fails with INVALID_ARGUMENT and leaves a cleared result. Adding valid values of one currency never overflows internally (whatever the units are), keeps the currency, and yields units and nanos that again do not disagree in sign and nanos within range; overflow is reported as OUT_OF_RANGE with the extreme value of the right sign, and anything else is the exact decimal sum.",
  ["inputs"], "All pairs of valid money values.",
  "Tests cover a table of sums; undefined overflow is invisible in an unoptimised build.",
  [MU], [("currency test first; carry and sign fix-up; overflow detection", MU)])
p("C29", "Late completions never touch a destroyed client",
  "Every completion handler or timer handler that can run after the client object is gone (handed to a transport or timer) uses only the caller's objects, objects it owns, and aggregators it shares ownership of; it never reads or writes the client object itself.",
  ["schedules", "histories"], "All completion and destruction orders.",
  "Tests destroy the client only after completions, or do not look at freed memory.",
  [CL], [("handlers capture copies and shared ownership", CL)])
p("C30", "Requests and responses lent to a transport live until completion",
  "Request copies and response objects that the client allocates for a transport call stay alive until the transport reports completion and are freed exactly once by it, on success and on failure alike, and never used after being freed. The request that a completion handler uses to store a response is the client's own copy, never the caller's or a temporary object.",
  ["inputs", "fault_sequences", "schedules"], "All outcomes and completion times.",
  "Tests rarely run under a leak checker and use few outcomes.",
  [CL], [("heap copies deleted in the completion handler", CL)])
p("C31", "An evicted cache entry is freed or re-inserted, exactly once",
  "When a cache gives up an entry, the owning aggregator either frees it exactly once after its last use or puts it back exactly once under its own key, on every path and for every cause of removal. It puts an entry back only if there is room for it, so that no sequence of requests can make evictions recurse without end.",
  ["inputs", "histories"], "All eviction causes (capacity, age, explicit removal, shutdown) and entry states.",
  "Tests never overfill a cache whose entries are put back.",
  [CK, QT, RP], [("removal hooks", QT)])
p("C32", "Shutdown flushes everything, stops the timer and disconnects",
  "Destroying the client asks all three aggregators to flush everything while their flush callbacks are still attached, stops the timer exactly once if there is one, and detaches the flush callbacks of all three aggregators before returning. Destroying an aggregator detaches its callback before dropping entries, so a dying aggregator never calls out.",
  ["histories", "schedules"], "All cache contents and configurations at shutdown.",
  "Tests check that data is flushed for one aggregator at a time.",
  [CL, CK, QT, RP], [("destructor order", CL)])
p("C33", "Periodic flushing covers all aggregators at the tightest interval",
  "If a timer factory is given and the intervals of the enabled caches (check: response expiration, quota: refresh interval, report: flush interval) are positive, one timer is created whose interval is the smallest of them, and each tick flushes all three aggregators whatever the others return. Without a timer factory no timer is created.",
  ["configurations", "histories"], "All option values.",
  "Tests use a few option sets.",
  [CL, CK, QT, RP], [("interval minimum and timer handler", CL)])
p("C34", "Cache limits are configured from the options they belong to",
  "Each aggregator's cache holds as many entries as its options allow, and none at all if that number is not positive; cached check responses expire by idle time after the response expiration, quota and report entries by age after the refresh and flush interval. For options built by the option constructors (with flush intervals below the largest int) the response expiration is always larger than the flush interval, and millisecond options are converted to the cache's time units without loss.",
  ["configurations"], "All option values.",
  "Tests use a few fixed option sets.",
  [CK, QT, RP, OPT], [("constructor wiring", CK)])
p("C35", "The LRU cache never frees a pinned value and frees each value once",
  "A value handed out by a lookup or pinned insertion is not destroyed until every pin on it is released, even if its entry is removed, replaced, expired or evicted meanwhile. Every value that leaves the cache is passed to the removal hook exactly once, when its last pin is gone.",
  ["histories", "inputs"], "All sequences of cache operations.",
  "Tests follow scripted sequences with few pins.",
  [LRU], [("pin count and deferred list", LRU)])
p("C36", "The LRU cache's size accounting is exact",
  "The reported size grows by an entry's units when it is inserted and shrinks by them exactly when its value is destroyed; the pinned size grows when an entry of the table gets its first pin and shrinks when it loses its last pin or leaves the table pinned. Apart from an explicit size update, no operation changes these totals otherwise, and the deferred totals count exactly the removed entries whose values are still pinned.",
  ["histories", "inputs"], "All sequences of cache operations and unit sizes.",
  "Tests compare totals in scripted sequences.",
  [LRU], [("unit counters", LRU)])
p("C37", "The LRU cache never serves expired entries and honours its capacity",
  "A lookup discards expired entries before it searches, so it never returns an unpinned entry whose idle time or age exceeds the configured limit. After an insertion or a change of sizes, unpinned entries are evicted, oldest first, until the cache is within capacity or only pinned entries remain, and an entry released while the cache is over capacity is evicted; nothing is evicted for capacity while the cache is within it.",
  ["histories", "configurations", "inputs"], "All sequences of cache operations, limits and unit sizes.",
  "Tests script a few expirations with sleeps.",
  [LRU], [("expiry before lookup, collection after insert and release", LRU)])
p("C38", "Stored responses are found by the requests they answer",
  "A response delivered to the check aggregator is stored under the same key with which an identical request is looked up, replaces the previously cached response for that key if there is one, and counts as fresh from its arrival; a quota response updates the entry that the same request created. Delivering a response never reports an error.",
  ["inputs", "histories"], "All requests and responses and any cache contents.",
  "Tests use a few requests.",
  [CK, QT], [("same key function on both sides", CK)])
p("C39", "Flush drops what is expired, FlushAll drops everything",
  "A periodic flush of an aggregator asks its cache to discard exactly the expired entries, a full flush asks it to discard all entries; with a disabled cache both do nothing. Both report success, and each aggregator is flushed at most once per request to flush it.",
  ["histories", "configurations"], "All cache contents.",
  "Tests check single entries.",
  [CK, QT, RP, CL], [("flush entry points", CK)])
p("C40", "The sample HTTP transport reports HTTP failures as failures",
  "In the sample transport the HTTP codes 400, 401, 403, 404, 409, 416, 429, 499, 501, 503 and 504 map to INVALID_ARGUMENT, UNAUTHENTICATED, PERMISSION_DENIED, NOT_FOUND, ABORTED, OUT_OF_RANGE, RESOURCE_EXHAUSTED, CANCELLED, UNIMPLEMENTED, UNAVAILABLE and DEADLINE_EXCEEDED, and every other code to its class (2xx OK, 4xx FAILED_PRECONDITION, 5xx INTERNAL, else UNKNOWN); a failed transfer completes with a non-OK status and never parses the response. A response that does not parse completes with a non-OK status, and each request completes exactly once.",
  ["inputs", "fault_sequences"], "All HTTP codes, transfer outcomes and bodies.",
  "The sample transport has no tests at all.",
  [HTTP], [("code table and failure propagation", HTTP)])
p("C44", "The sample transport sends exactly the serialized request",
  "Each check and report given to the sample transport is sent as a POST with the caller's authorization to the address of its own kind (server address, /v1/services/, service name, :check or :report), with a body that is exactly the serialized request, whatever bytes it contains, and the caller's response is parsed from exactly the body received, in the order its parts arrived.",
  ["inputs"], "All requests and response bodies, including zero bytes and any division of the body into parts.",
  "The sample transport has no tests at all.",
  [HTTP], [("body size and pointer given to the transfer library", HTTP)])
p("C45", "The caller's objects are not used after completion",
  "From the moment the completion callback of an asynchronous call may have run, because the library called it or because the call was handed to a transport that may complete it at once, the library neither reads nor writes the caller's request and response objects, which the caller may free in its callback.",
  ["schedules", "histories"], "All asynchronous calls, and all transports: completing inside the call, later, on another thread.",
  "Tests keep requests and responses alive until the test ends.",
  [CL], [("accesses after the transport call and in completion handlers", CL)])
p("C46", "What the aggregators flush is sent",
  "The client registers with each of its aggregators for the requests they flush. Every flushed request is given, unchanged and exactly once, to the transport the client was configured with for its kind; if none was configured, nothing is called and the request counts as failed.",
  ["inputs", "configurations"], "All flushed requests and all sets of configured transports.",
  "Tests always configure all three transports.",
  [CL], [("flush callbacks", CL), ("registration in the constructor", CL)])
p("C47", "Concurrent calls share no unprotected memory",
  "Any number of threads may use any number of clients at the same time, with transports completing on further threads. Memory that outlives a call (the client's members, objects the client shares with its callbacks, and variables of the library) is written by calls only atomically or under a lock that every other access to it holds; variables shared by all clients need a lock of their own, not one of the client's or an aggregator's. Constructors and the one-time initialisation of variables are exempt. (What protects the caches is C01.)",
  ["schedules"], "All calls, flush callbacks, timer handlers and completion handlers on any number of threads, for any number of clients.",
  "Tests run one client, mostly on one thread, and cannot see races.",
  [CL, SIG, OA], [("members of the client", CL), ("statics of the functions that compute keys", SIG), ("statics of the functions that merge operations", OA)])
p("C41", "Rounding errors of aggregated floating-point values stay bounded",
  "However many double values, samples and distributions are merged in whatever order, the sum, mean and squared deviation stay within a bounded relative error of those of the pooled samples.",
  ["inputs", "histories"], "All values and numbers of merges.", "Tests sample a table of values.",
  [OA, DH], [("floating-point accumulation", DH)])
p("C42", "Cached answers are never older than the configured limits in real time",
  "A cached check response is never used later than its expiration, and no accumulated report is held longer than the flush interval plus one timer period, measured on the wall clock.",
  ["schedules", "histories"], "All timings.", "Tests sleep for fixed times.",
  [CK, RP, LRU], [("timer and expiry", LRU)])
p("C43", "Concurrent operations on one aggregator are linearizable",
  "The results of concurrent calls to one aggregator equal those of some sequential order of the same calls consistent with real time.",
  ["schedules", "histories"], "All interleavings.", "Tests run few schedules.",
  [CK, QT, RP], [("one lock per cache", CK)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
