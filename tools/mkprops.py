#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
LRU = "utils/simple_lru_cache_inl.h"
CHK = "src/check_aggregator_impl.cc"; CHKH = "src/check_aggregator_impl.h"
REP = "src/report_aggregator_impl.cc"; QUO = "src/quota_aggregator_impl.cc"; QUOH = "src/quota_aggregator_impl.h"
RIH = "src/cache_removed_items_handler.h"; OPA = "src/operation_aggregator.cc"; QOA = "src/quota_operation_aggregator.cc"
SIG = "src/signature.cc"; MON = "src/money_utils.cc"; DIS = "utils/distribution_helper.cc"; CLI = "src/service_control_client_impl.cc"
MD5 = "utils/md5.cc"

prop("C01", "A cache lookup returns the live value; each value is destroyed exactly once",
 "For every sequence of insertions, pinned and unpinned lookups, releases, removals, resizes and clears, looking up a key in the LRU cache yields exactly the value most recently inserted under that key, or nothing if that entry has been removed, evicted or expired, and never the value of another key. Every inserted value is handed to the deleter exactly once, and never while a caller still holds it pinned.",
 ["histories"], "all operation sequences over several keys, units and pins, in both eviction modes",
 "simple_lru_cache_test runs fixed scripts; the table, the eviction list and the deferred list interact over histories (re-insertion under a pinned key, several deferred values of one key) that no script covers.",
 [LRU], [("LookupWithOptions/ReleaseWithOptions/InsertPinned/Remove", LRU), ("deferred list", LRU)],
 [("table_", "live entries", LRU), ("defer_", "removed entries that are still pinned", LRU)], ["Lookup", "RemoveElement"])
prop("C02", "The cache keeps to its size limit and evicts in the promised order",
 "After every operation the units held by entries that are not pinned fit within the maximum size that the pinned ones leave: nothing unpinned remains while the cache is over its limit. What is evicted for space is always the least recently used unpinned entry (in age-based mode the oldest one), never more entries than needed, and the reported sizes and entry counts equal the sums over the entries really held.",
 ["histories", "inputs"], "all operation sequences with arbitrary units and capacities",
 "Unit tests use a few capacities and unit sizes of 1; accounting errors only show for particular combinations of pins, units and resizes.",
 [LRU], [("GarbageCollect", LRU), ("ReleaseWithOptions", LRU), ("UpdateSize", LRU)],
 [("units_", "units of all entries", LRU), ("pinned_units_", "units of pinned entries", LRU), ("head_", "eviction list", LRU)], ["Size", "PinnedSize", "Entries", "RemoveElement"])
prop("C03", "Cache entries expire when their time is over and not before",
 "An entry whose idle time (or, in age-based mode, whose age since insertion) exceeds the configured limit is no longer returned by any lookup and is gone after the next purge, whatever the clock readings were; an entry within the limit is never dropped because of time. Negative or infinite limits mean that nothing ever expires by time, and no limit value makes the conversion to clock units overflow.",
 ["histories", "inputs"], "all clock histories (non-decreasing), all double values as limits",
 "Tests sleep for a few fixed periods; boundary instants, huge limits and interleavings of use and purge are not sampled.",
 [LRU], [("DiscardIdle", LRU), ("SetTimeout", LRU), ("RemoveExpiredEntries", LRU)],
 [("last_use_", "time of last use or of insertion", LRU), ("max_idle_", "limit in cycles", LRU)], ["Lookup", "Entries"])

prop("C33", "Looking into the cache shows what is in it and changes nothing",
 "At any point of any history, iterating over a cache visits each entry in its table exactly once, pinned ones included, with its key, its value and the time of its last use (or, in age-based mode, of its insertion); GetLastUseTime, GetInsertionTime, AgeOfLRUItemInMicroseconds, StillInUse and MaxSize agree with that history, whatever the clock readings; a ScopedLookup finds what a Lookup finds and releases it at its end, even if the entry was removed meanwhile; DebugOutput invokes DebugIterator once for every value held, in the table or removed and still pinned, with its key, its pins and whether its removal is deferred. None of these inspections affects what is found, evicted or expired later.",
 ["histories", "inputs"], "all sequences of operations and inspections over several keys, pins, both modes, all clock histories",
 "Tests inspect caches of fixed contents at a few moments; inspections in the middle of pins, deferred removals and purges, or at extreme ages, are not sampled.",
 [LRU], [("SimpleLRUCacheConstIterator", LRU), ("AgeOfLRUItemInMicroseconds/GetLastUseTime/GetInsertionTime/StillInUse", LRU), ("ScopedLookup", LRU)],
 [("table_", "entries found by lookups", LRU), ("last_use_", "time of last use or of insertion", LRU), ("defer_", "removed entries still pinned", LRU)], ["const_iterator", "AgeOfLRUItemInMicroseconds", "StillInUse", "ScopedLookup", "DebugOutput"])

prop("C04", "A cached check answer is the latest server answer to that same request",
 "When a check is answered from the cache, the answer is exactly the response most recently cached for a request with the same operation name, consumer, labels and metrics, be it a pass or a denial. Requests for another service or without an operation are rejected as invalid and touch nothing; requests of more than low importance, or with caching disabled, are never answered from the cache.",
 ["histories", "inputs"], "all sequences of checks and cached responses over several keys, importances and response contents",
 "Tests use two fixed requests and responses; which of several cached answers is returned after arbitrary interleavings is not covered.",
 [CHK, CHKH], [("Check/CacheResponse", CHK), ("importance gate", CHK)],
 [("check_response_", "cached answer", CHKH)], ["CheckAggregator::Check status and response"])
prop("C05", "Cached check answers are refreshed every flush interval and expire",
 "For each cached check, once the flush interval has passed since the last answer or last forwarded request, exactly the next check is forwarded to the server, while all others before another interval passes are answered from the cache. An entry that was not used for longer than the expiration time is never served; it is gone after the next flush. The expiration time is made longer than the flush interval, whatever was configured.",
 ["histories"], "all non-decreasing clock histories and sequences of checks, responses and flushes, for pass and denial entries",
 "The tests sleep once or twice per case around one interval; exact boundary instants, repeated intervals and interleavings with responses and flushes are not reached.",
 [CHK, CHKH], [("ShouldFlush", CHK), ("set_last_check_time", CHK), ("SetMaxIdleSeconds(expiration)", CHK)],
 [("last_check_time_", "last answer or forwarded request", CHKH)], ["CheckAggregator::Check status", "Flush"])
prop("C06", "Checks answered from a cached pass are reported to the server exactly once",
 "Every check that found a cached passing answer is merged into its entry, and when the entry leaves the cache by eviction, expiry or a full flush, one request with the merged metrics of all of them is handed to the flush callback, exactly once, with the configured service name and config id. Entries without such usage, and checks answered with a denial, produce no flush request.",
 ["histories"], "all sequences of checks, responses, evictions, expiries and flushes, arbitrary metric values",
 "Tests look at one or two flushes; loss or double sending needs a particular mix of eviction, refresh, replaced responses and flushes.",
 [CHK, RIH], [("Aggregate", CHK), ("OnCacheEntryDelete", CHK), ("StackBuffer", RIH)],
 [("operation_aggregator_", "usage not reported yet", CHKH)], ["flush callback"])

prop("C07", "No reported operation is lost or sent twice",
 "Every operation accepted for aggregation reaches the flush callback exactly once: summed over everything flushed, delta metric values, log entries and operation spans equal those of the operations accepted, per operation identity and metric. This holds through merging, eviction for space, expiry, oversize flushing and the final flush of everything.",
 ["histories", "inputs"], "all sequences of reports (one or more operations each, several identities), flushes and clock values",
 "Tests report one or two fixed operations; the conservation law has to hold over every mix of merging, eviction and flush paths.",
 [REP, RIH, OPA, LRU], [("Report", REP), ("OnCacheEntryDelete", REP), ("MergeItem/StackBuffer", RIH)],
 [("cache_", "operations not sent yet", "src/report_aggregator_impl.h")], ["flush callback"])
prop("C08", "Flushed report requests stay within the batch limits and are timely",
 "A flushed report request carries at least one and at most 10 operations and always the configured service name and config id. An aggregated operation is sent as soon as it has 100 or more log entries after a merge, and no operation remains in the cache after a flush that runs later than the flush interval since it was first stored. No more aggregated operations are held than the configured number of entries; apart from a full flush, an operation leaves earlier than the flush interval only when a report needs more entries than that or for its log entries.",
 ["histories", "inputs"], "any number of operations flushed together, any log entry counts, all clock values",
 "Tests cover the limits at single points (one batch); off-by-one behaviour at other counts, and timeliness under arbitrary clocks, is open.",
 [REP, OPA], [("MergeItem, kMaxOperationsToSend", REP), ("TooBig, kMaxLogEntries", OPA), ("SetAgeBasedEviction", REP)],
 [], ["flush callback"])
prop("C09", "A report is either wholly aggregated or wholly left to the caller",
 "A report with any operation of more than low importance, or with aggregation disabled, is left to the caller (not found) and nothing of it is stored; a report for another service name is rejected as invalid and nothing of it is stored. Every other report is accepted and all its operations are stored.",
 ["inputs"], "all importance combinations, operation counts and service names",
 "The tests try one importance at one position.",
 [REP], [("HasHighImportantOperation", REP), ("Report", REP)], [], ["ReportAggregator::Report status", "flush callback"])

prop("C10", "At most one quota allocation per key is outstanding at any time",
 "The first quota call for a key hands exactly that request to the flush callback and is answered positively without waiting; while the key stays in the cache, no further allocation for it is sent until a response is cached. After that, the first call more than a refresh interval after the previous send causes exactly one allocation; other than that only amounts accumulated since are sent, with no other allocation of the key outstanding.",
 ["histories"], "all sequences of quota calls, responses and flushes over several keys, all non-decreasing clocks",
 "Tests run single scripted sequences with sleeps; duplicates need a particular order of purge, lookup and late response.",
 [QUO, QUOH], [("in_flight", QUO), ("ShouldRefresh", QUO), ("OnCacheEntryDelete", QUO)],
 [("in_flight_", "an allocation is outstanding", QUOH), ("last_refresh_time_", "time of last send", QUOH)], ["flush callback"])
prop("C11", "Aggregated quota amounts are sent exactly once",
 "While the cached answer of a key is positive, the amounts asked for by the callers are added up per metric, and the next allocation sent for the key carries exactly the total accumulated since the previous one (the entry's original request if nothing was accumulated). Sending an allocation resets the total, so no amount is sent twice, and an entry evicted for space sends what it accumulated. A denial discards the amounts accumulated so far and calls answered with a denial add nothing; a key dropped for idleness or by a full flush loses its amounts.",
 ["histories", "inputs"], "all sequences of quota calls with arbitrary amounts and metrics, responses, flushes, evictions for space",
 "Tests check one aggregated total in one script.",
 [QUO, QOA], [("CacheElem::Aggregate", QUO), ("ReturnAllocateQuotaRequestAndClear", QUO), ("MergeOperation", QOA)],
 [("operation_aggregator_", "amounts not sent yet", QUOH)], ["flush callback"])
prop("C12", "Quota calls are answered with the latest verdict of the server",
 "A cached quota call is answered with exactly the response most recently cached for the same method, consumer and set of metrics (a positive empty one before the first). The allocation that refreshes a denied key asks in normal mode; invalid requests (other service, no operation) are rejected and with caching disabled every call is left to the caller.",
 ["histories", "inputs"], "all sequences of quota calls and responses over several keys",
 "Tests use fixed scripts with one denial.",
 [QUO, QUOH], [("Quota/CacheResponse", QUO), ("NORMAL mode on denial", QUO)], [("quota_response_", "latest verdict", QUOH)], ["QuotaAggregator::Quota response", "flush callback"])
prop("C13", "The quota cache stays within its capacity and every call terminates",
 "For every capacity and every number of distinct keys, each quota call, cached response and flush terminates without crashing, and the cache never serves more keys than its capacity. A key for which nothing was sent for longer than the expiration is dropped, at the latest by a flush after a refresh interval has passed too, and a full flush empties the cache without sending anything.",
 ["histories", "configurations"], "all capacities, key sequences and clock values, including more keys than capacity",
 "The only capacity test never exceeds the capacity with entries that are still fresh.",
 [QUO, LRU], [("OnCacheEntryDelete re-insertion", QUO), ("ShouldDrop", QUO)], [], ["Quota", "Flush", "FlushAll"])

prop("C14", "Merging delta metrics adds values and unites time spans",
 "Merging operations of one identity (in checks, reports and quota calls alike) yields, per metric name and label set, the exact sum of all integer and distribution values and the left-to-right sum of the double values of delta metrics, with the earliest start and latest end time of all of them, for every order of timestamps. Values of different types are never combined: such a value leaves the accumulated one unchanged.",
 ["inputs", "histories"], "all values, timestamps (any seconds and nanos, present or not), metric and label sets up to the bound",
 "Tests merge two or three fixed values.",
 [OPA], [("MergeDeltaMetricValue", OPA), ("MergeMetricValueSets", OPA), ("TimestampBefore", OPA)],
 [("metric_value_sets_", "accumulated values", "src/operation_aggregator.h")], ["ToOperationProto"])
prop("C15", "Gauge and cumulative metrics keep the value with the latest end time",
 "For a metric declared cumulative or gauge, merging keeps the complete value whose end time is latest, the newer arrival winning ties; a metric that is not declared is treated as delta. The kind of one metric never affects another metric of the same operation.",
 ["inputs", "histories"], "all end times and metric kinds, any arrival order",
 "Tests use two fixed end times.",
 [OPA], [("MergeCumulativeOrGaugeMetricValue", OPA), ("metric_kinds lookup", OPA)], [], ["ToOperationProto"])
prop("C16", "Merging keeps all log entries, the identity and the overall time span",
 "The merged operation keeps the name, consumer, labels and other plain fields of the first operation, contains every log entry of every merged operation exactly once and in arrival order, and spans from the earliest start to the latest end time. Metrics that occur in only some of the operations are all kept, under their own name and labels.",
 ["inputs", "histories"], "all timestamps and log entry counts, metric sets up to the bound",
 "Tests merge two operations with fixed times.",
 [OPA], [("MergeOperation", OPA), ("MergeLogEntries", OPA), ("ToOperationProto", OPA)], [], ["ToOperationProto"])

prop("C17", "Requests with the same identity always get the same signature",
 "Signatures depend only on the identity: for reports the consumer, operation name and labels; for checks these plus metric names and metric labels; for quota the method, consumer and set of metric names. The order in which labels, metrics or metric values were added, timestamps, values, ids and log entries do not influence them.",
 ["inputs"], "all string contents up to the bound, all insertion orders, all values of the other fields",
 "Tests compare a few fixed digests.",
 [SIG], [("UpdateHashLabels ordering", SIG), ("metric name ordering", SIG)], [], ["Generate*Signature"])
prop("C18", "Requests with different identity never share a signature",
 "Two requests of the same kind that differ in operation name, consumer, any label key or value, or (checks and quota) in metric names or (checks) metric labels feed different data to the digest, so they never share a cache entry (up to collisions of the digest itself; strings without NUL bytes). The same holds for the label sets that keep the values of one metric apart.",
 ["inputs"], "all pairs of requests with NUL-free strings up to the bound",
 "Tests compare a few fixed digests; ambiguity of the encoding needs pairs of requests chosen against it.",
 [SIG, MD5], [("delimiters", SIG)], [], ["Generate*Signature"])

prop("C19", "Money addition is exact, or saturates and says so",
 "For all valid amounts of the same currency, adding them gives exactly the mathematical sum as a valid amount when it can be represented, and otherwise the largest or smallest amount with an out-of-range error; the saturating form gives the same amounts. Different currencies give an invalid-argument error and a cleared result.",
 ["inputs"], "all pairs of valid units (64 bit) and nanos",
 "Tests check about 30 pairs out of 2^188.",
 [MON], [("TryAddMoney", MON), ("SaturatedAddMoney", MON)], [], ["TryAddMoney result and status"])
prop("C20", "Money validation and sign agree with the amount",
 "Validation accepts an amount exactly when the currency code has three characters, units and nanos do not disagree in sign and nanos are within one unit; everything else is an invalid-argument error. The reported sign of a valid amount is the sign of its value.",
 ["inputs"], "all units, nanos and currency code lengths up to the bound",
 "Tests check a dozen values.",
 [MON], [("ValidateMoney", MON), ("GetAmountSign", MON)], [], ["ValidateMoney", "GetAmountSign"])

prop("C21", "A sample is counted in exactly the bucket that contains it",
 "Adding any sample (including infinities and not-a-number) to an initialized distribution increments exactly one bucket, the one whose bounds contain the sample (within rounding error of an inner bound it may be the neighbour), with underflow and overflow in the first and last bucket, and never touches memory outside the buckets. Not-a-number samples go to the first bucket of linear and exponential distributions.",
 ["inputs"], "all 64-bit floating point samples, for bucket layouts up to the bound",
 "Tests add a few dozen ordinary samples to three layouts.",
 [DIS], [("UpdateLinearBucketCount", DIS), ("UpdateExponentialBucketCount", DIS), ("UpdateExplicitBucketCount", DIS)], [], ["AddSample"])
prop("C22", "Distribution statistics and bucket totals stay consistent",
 "After any number of samples the count equals the number of samples and the sum of all bucket counts, minimum and maximum are the smallest and largest sample, and the mean of the first sample is the sample itself with zero deviation. The running mean and the sum of squared deviations follow from the previous count, mean and deviation by the usual incremental formula (up to rounding).",
 ["inputs", "histories"], "all finite samples, all prior statistics of one step",
 "Tests add a few fixed samples.",
 [DIS], [("UpdateGeneralStatictics", DIS)], [], ["AddSample"])
prop("C23", "Merging distributions adds all counts, or changes nothing",
 "Merging two distributions with matching bucket options adds total and per-bucket counts, keeps the smaller minimum and the larger maximum, gives the mean and deviation of all samples together (up to rounding), and is a no-op for an empty source and a copy for an empty target. Distributions with different bucket options or bucket numbers are rejected as invalid and the target stays unchanged.",
 ["inputs"], "all counts, statistics and bucket parameters, all pairs of bucket option types",
 "Tests merge a few fixed pairs.",
 [DIS], [("Merge", DIS), ("BucketsApproximatelyEqual", DIS)], [], ["Merge"])
prop("C24", "Distributions are initialized exactly for valid bucket parameters",
 "Initialization accepts exactly the valid parameters (a positive number of buckets, growth factor above 1, positive scale or width, strictly ascending explicit bounds), gives one more bucket than explicit bounds or two more than the finite buckets, all empty whatever the distribution held before, and rejects everything else as invalid without touching the distribution. Parameters that are not numbers are invalid.",
 ["inputs"], "all parameter values, explicit bounds up to the bound",
 "Tests try one bad value per parameter.",
 [DIS], [("InitExponential/InitLinear/InitExplicit", DIS)], [], ["Init*"])

prop("C25", "Every client call completes exactly once with the right status",
 "For every check, quota and report call the completion callback runs exactly once (a blocking call returns exactly then): at once with the cached result on a hit or with an error for an invalid request or a missing transport, otherwise with the status the transport delivered. A call goes to the transport at most once, with the caller's own request, and only when it is not answered or absorbed by the cache. The caller's request and response are not used any more once the callback has run, and a client without transports of its own completes calls that bring their transport and drops what it would flush, without failing.",
 ["histories", "schedules"], "all sequences of calls, cache states and transport completions (in place, deferred in any order, failing)",
 "Tests cover each transport style once per call type.",
 [CLI], [("Check/Quota/Report", CLI), ("StatusPromise", CLI)], [], ["DoneCallback", "Transport*Func"])
prop("C26", "Failed server calls are never cached as answers",
 "When the transport fails a check, the caller gets that error, nothing is cached and an existing cached answer stays as it is. When the transport fails a quota allocation, the key fails open: callers get a positive answer and a later refresh is possible; a denial or pass delivered successfully is what later callers get.",
 ["fault_sequences", "histories"], "all placements of transport failures in call sequences",
 "Tests inject one failure per case.",
 [CLI], [("on_done lambdas", CLI), ("AllocateQuotaFlushCallback", CLI)], [], ["DoneCallback", "later calls"])
prop("C27", "Destroying the client sends what is pending and is safe with late completions",
 "When the client is destroyed, everything aggregated but unsent (report operations and check usage) is handed to the transport before destruction finishes, and the periodic timer is stopped. Transport completions and timer ticks that arrive after destruction are harmless: they touch no freed memory, leak nothing and send nothing.",
 ["schedules", "histories"], "all points of destruction relative to outstanding completions and timer ticks",
 "Tests destroy clients only after all completions, except for one check case.",
 [CLI, CHK, QUO, REP], [("~ServiceControlClientImpl", CLI), ("shared aggregator copies in callbacks", CLI)], [], ["transport calls", "memory safety"])
prop("C28", "Statistics count exactly what happened",
 "The statistics report exactly the number of check, quota and report calls made, the transport sends made on behalf of a call and on behalf of a flush, and the number of report operations sent, whatever the mix of hits, misses, failures and flushes.",
 ["histories"], "all sequences of calls of the three kinds and flush causes",
 "Tests compare the counters after one script each.",
 [CLI], [("atomic counters", CLI), ("GetStatistics", CLI)], [], ["GetStatistics"])
prop("C29", "The periodic flush runs at the shortest interval and serves all three caches",
 "If a timer function is given and any cache is enabled (with positive intervals), exactly one timer is requested with the smallest interval among the enabled caches (expiration for checks, refresh for quota, flush for reports). Each tick removes expired checks, refreshes due quota and sends due reports.",
 ["configurations", "histories"], "all option values and clock values at the tick",
 "Tests use one interval setting.",
 [CLI, CHK, QUO, REP], [("GetNextFlushInterval", CLI), ("timer lambda", CLI)], [], ["periodic_timer", "transport calls"])
prop("C30", "Concurrent use is free of races, deadlocks and lost updates",
 "For every interleaving of concurrent calls, transport completions and timer ticks, there is no data race and no deadlock, every call completes exactly once, and everything reported is sent exactly once by the time the client has been destroyed. Caches are only touched under their lock.",
 ["schedules"], "all interleavings, at synchronisation operations, of two or three threads with up to the stated number of calls",
 "Tests start a few threads and see whichever interleaving happens.",
 [CLI, CHK, QUO, REP, RIH], [("cache_mutex_", CHK), ("callback_mutex_", RIH), ("atomic counters", "src/service_control_client_impl.h")], [], ["all public calls"])
prop("C31", "In-place completions and re-entrant flushes never deadlock or misroute",
 "A transport may complete calls in place, from within the flush callback and after any amount of time, for every kind of call: the nested cache updates and flushes complete without deadlock, and every flushed item is delivered exactly once. The flush callback always runs without the cache lock being held.",
 ["histories", "schedules"], "all nestings of flush and completion, all clock values between them",
 "Tests nest once with a frozen situation in which the nested call has nothing to flush.",
 [RIH, CLI, QUO, CHK], [("StackBuffer declared before the lock", RIH), ("FlushOut", RIH)], [("callback_mutex_", "held while flushing", RIH)], ["flush callback", "CacheResponse from within it"])
prop("C32", "Digests depend on exactly the bytes fed in",
 "The digest object hands every byte given to it, embedded NUL bytes included, exactly once and in order to the hash function whichever overload is used, yields a 16-byte digest, and yields the same digest when asked again. The printable form shows each digest byte as two lower-case hex digits.",
 ["inputs"], "all byte strings and chunkings up to the bound, all digest values",
 "Tests hash a few strings.",
 [MD5, "utils/md5.h"], [("Update overloads", "utils/md5.h"), ("Digest", MD5), ("DebugString", MD5)], [], ["MD5::Digest"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
