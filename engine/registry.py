"""Which rules decide which property."""
TECHNIQUE = "path-sensitive abstract interpretation of the compiled LLVM IR (typestate and value-flow rules, loops summarised; nothing is run, no solver)"
TABLE = "decision tables extracted by path-sensitive abstract interpretation of the compiled LLVM IR (path conditions and results as terms of the inputs), compared with the specification region by region; nothing is run, no solver"
TECH = {"C%d" % i: TABLE for i in range(20, 29)}
SHAPE = "abstract reachability over cache states (heap shapes with symbolic keys, values, units, limits and times, up to renaming): every path of every public operation of the compiled LLVM IR against a reference model, decision tables read off region by region; nothing is run, no solver"
TECH.update((p, SHAPE) for p in ("C35", "C36", "C37"))
TRUST = "Decided for every path the analysis enumerates from /repo's current sources; trusts the models of the standard library and of protobuf in engine/models.py. What cannot be decided is reported as undecided in the evidence and raises no alarm."
RULES = {
 "C03": ["rules_client.C03"], "C04": ["rules_client.C04"], "C05": ["rules_client.C05"], "C06": ["rules_client.C06"],
 "C15": ["rules_client.C15"], "C29": ["rules_client.C29"], "C30": ["rules_client.C30"], "C45": ["rules_client.C45"], "C46": ["rules_client.C46"], "C47": ["rules_shared.C47"],
 "C01": ["rules_agg.C01"], "C02": ["rules_agg.C02"], "C07": ["rules_agg.C07"], "C08": ["rules_agg.C08"], "C09": ["rules_agg.C09", "rules_lru.clock"], "C10": ["rules_agg.C10"],
 "C11": ["rules_agg.C11"], "C12": ["quota_model.C12", "rules_lru.clock"], "C13": ["quota_model.C13"], "C14": ["quota_model.C14"], "C16": ["rules_agg.C16"], "C31": ["rules_agg.C31"],
 "C32": ["rules_agg.C32"], "C33": ["rules_agg.C33"], "C34": ["rules_agg.C34", "rules_lru.clock"], "C38": ["rules_agg.C38", "rules_sig.refresh_key"], "C39": ["rules_agg.C39"],
 "C20": ["rules_ops.C20"], "C21": ["rules_ops.C21"], "C22": ["rules_ops.C22"], "C23": ["rules_ops.C23"],
 "C24": ["rules_dist.C24"], "C25": ["rules_dist.C25"], "C26": ["rules_dist.C26"], "C27": ["rules_money.C27"], "C28": ["rules_money.C28"],
 "C35": ["rules_lru.C35"], "C36": ["rules_lru.C36"], "C37": ["rules_lru.C37", "rules_lru.clock"],
 "C40": ["rules_http.C40"], "C44": ["rules_http.C44"],
 "C17": ["rules_sig.C17"], "C18": ["rules_sig.C18"], "C19": ["rules_sig.C19"],
}
EXPLAIN = {
 "C01": "Lockset analysis of every public aggregator operation, from an arbitrary state between operations: the member cells any operation writes, the cache and its entries must each have one lock common to all accesses (reads included).",
 "C02": "On every path of every public operation: locks held at each call of the flush callback against the locks any operation may block on, re-locking, balance at return, and cycles in the lock order including the edge from the callback back into every operation.",
 "C07": "Every path of Check, Quota and Report (0 to 3 operations) that does not establish that the service name matches and the operation is present must answer code 3 and touch neither cache, accumulators, entries nor callback.",
 "C08": "Every path of a well-formed request that does not establish LOW importance of every operation, or runs with the cache disabled, must answer code 5 and touch neither cache, accumulators nor callback.",
 "C09": "Every path of Check with its conditions evaluated on ages just below, at and above the flush interval and on responses with and without errors: answer, response handed out, time kept in the entry and accumulation are compared with the protocol.",
 "C10": "For reports of 0 to 3 arbitrary operations, every path: which operation objects reach accumulator creation or merging, how often, under which key's entry, and what follows the size check.",
 "C11": "Every path of every public operation with 0, 1, 2, ... 25 arbitrary entries given up by the cache: the multiset of accumulated data handed to the flush callback equals the data of the entries given up; batch sizes; MergeItem for arbitrary items.",
 "C12": "All histories of one quota cache entry (requests while fresh and when due, allowing and denying responses, flushes before, at the edge of and after expiry, eviction), explored over protocol state and entry shape until closed: calls started in each step against the protocol.",
 "C13": "The same exploration: answers, accumulation and refresh mode while the cached response is a denial, and what refreshes after a denial carry.",
 "C14": "The same exploration: what each request accumulates into which accumulator and which accumulated requests each refresh carries.",
 "C16": "For every item handed to a flush callback that is built from accumulated data: value flow of its service name and config id back to the factory's parameters; for the client constructor, the identity passed to the factories.",
 "C31": "Ownership analysis of every entry the cache gives up on every path: freed exactly once or put back exactly once under the key it was stored under, never used after being freed; the path that puts back must be impossible when the cache is full.",
 "C32": "Every path of the client's destructor (flushes, detaching, timer) and of every aggregator's destructor from an arbitrary state (no call of the flush callback, entries freed once).",
 "C33": "Every path of the client's constructor, evaluated on all order patterns of the three intervals; the timer handlers' paths; each aggregator's interval evaluated against its option.",
 "C34": "Every path of the factories evaluated on option values (cache size, lifetime kind and value), the option constructors, and the options passed by the client.",
 "C38": "What a quota key depends on; every path of CacheResponse: key, final content of the entry known under the key (response, time), insertions, status.",
 "C39": "Every path of Flush and FlushAll with 0 to 2 entries given up: what the cache is asked to drop, insertions, status.",

 "C20": "Construction, merging and read-out of an aggregate on operations of symbolic contents: the conditions of all paths form a decision table, read off for every order and presence of up to three windows.",
 "C21": "The same tables for every pair of value types, metric kinds and windows; and value flow of the configured metric kinds from the client's options to every aggregate the aggregators make.",
 "C22": "Construction, up to two merges and read-out for over a thousand shapes of operations (which metric names and label sets coincide, value types, numbers of log entries) with symbolic contents; the result is compared term by term with the multiset of inputs. The too-big test is read off its path conditions.",
 "C23": "The same for the quota aggregate: up to five operations with symbolic tokens; the result holds the symbolic sum per metric.",
 "C24": "All paths of Merge, its layout comparison included, as a decision table read off on layouts that agree and that differ in exactly one parameter, bound or number; results compared with the pooled formulas as terms of the inputs.",
 "C25": "All paths of AddSample as a decision table: index within the list for every class of sample (infinities, NaN, extremes, bounds and their neighbours), conversions of doubles to integers within range, one bucket, count, moments and extremes updated; no-layout case rejected and unchanged.",
 "C26": "All paths of the three initialisers as decision tables: which parameters are accepted (NaN and infinities included), nothing stored on a rejecting path before or after the decision, the layout recorded and the length of the list on accepting ones.",
 "C27": "All paths of ValidateMoney and GetAmountSign as decision tables read off on every sign and boundary pattern of code length, units and nanos.",
 "C28": "All paths of both additions as decision tables: status, currency, sign agreement, range, saturation and exact decimal sum on boundary patterns of both operands, and an overflow test of every signed addition, subtraction and multiplication on the paths.",
 "C35": "Every operation from every abstract cache state reachable through the public operations (bounded live entries, keys and pins; LRU and age-based, with and without limits, lookups that keep the order): what is passed to the removal hook and how often, uses of freed entries, failed assertions, what lookups hand out and what the cache still knows.",
 "C36": "The same exploration: Size, PinnedSize and the deferred totals after every path are compared, as sums of the symbolic units, with what was inserted and really destroyed.",
 "C37": "The same exploration: which entries each path expires and evicts, read off on order patterns of units, capacity and times at, below and above each boundary, and what lookups find; limits in seconds (negative, infinite, zero, fractions, huge).",
 "C40": "Every path of the sample transport's calls with the thread they start run at once and after the call returned; the transfer library is an environment with a symbolic outcome, code and body. Paths are read off on every code from 0 to 699 and every kind of failure: the completion's status, that it comes exactly once, and that failures are never parsed.",
 "C44": "The same paths: what the transfer library is given at each transfer (address, body and its size, method, authorization, headers in the body) as terms of the caller's values, what the body receiver does with each part, and what the response is parsed from.",
 "C03": "Every path through every overload of Check, Quota and Report, with the completion run both inside the transport call and after the call returned (or while it waits), invokes the caller's completion exactly once.",
 "C04": "On every path of the synchronous overloads the value returned is the one the completion set, after a wait, and the completing thread sets it through storage that does not belong to the waiting frame.",
 "C05": "On every path: with a null transport the completion carries INVALID_ARGUMENT and nothing else sees the request; otherwise the request is sent iff the aggregator's answer is decided to be NOT_FOUND, and the completion's status is the aggregator's or the transport's value itself.",
 "C06": "On every path of a completion handler, with success and failure of the call as path facts: how often and with which values the aggregators' CacheResponse is called.",
 "C15": "For every path of every entry point, flush callback and completion handler, the net change of each counter cell (identified through GetStatistics) equals what happened on that path; counter cells are only written by atomic read-modify-writes.",
 "C29": "Access analysis of all completion and timer handlers run after their creator returned: no access to the client object, dead frames or by-value arguments; aggregators used are among those the handler's closure shares ownership of.",
 "C30": "Ownership analysis of every object allocated and lent to a transport: freed exactly once, after completion began, never used afterwards; stored responses refer to the handler's own request copy.",
 "C45": "On every path of the asynchronous overloads, with the completion run inside the transport call and afterwards: every read, write and passing-on of the caller's request and response after the point where the caller's callback was called or could have been called by the transport.",
 "C46": "Every path of each flush callback the constructor registers (with the completion run inside the transport call and afterwards): number, target and arguments of the transport calls, related to whether the path knows that a transport is configured; and every path of the constructor: what each aggregator is left with as its flush callback.",
 "C47": "Lockset analysis: every access to the client's members, to objects the constructor makes that the client or its callbacks keep, on all paths of the calls, completion handlers, flush callbacks, timer handler and GetStatistics (a cell that is written needs one lock common to all its plain accesses); and every function of the repository that refers to a variable that is not constant: its writes, also through pointers and containers, outside the variable's initialiser must be atomic or under a lock that is itself a variable, in the function or in all its callers",
 "C17": "The byte sequence each Generate*Signature function feeds to the digest is recovered symbolically, loops included: every identity field, every label key and value, every metric name and metric-value label occurs in full on every path, all entries of each map or list are traversed, and no two texts are adjacent without a zero byte between them. Injectivity of MD5 itself is assumed.",
 "C18": "In the same recovered byte sequence: only identity fields occur (in data and in branch conditions), label maps are traversed in key order, and metrics of checks and quotas in name order.",
 "C19": "Every MD5 member: which bytes and lengths reach the hash and in which order, that finishing happens once and is remembered, and that construction initialises the hash once.",
}
