"""What is run for every property, and within which bounds."""

COMMON_ASSUMPTIONS = [
    "the code is executed as clang -O1 LLVM bitcode of the current sources with exceptions treated as violations; sampled paths are re-run on a g++ ASan/UBSan build",
    "stubbed below the code: libprotobuf runtime (strings, repeated fields, map base, Status, logging) after its 3.21 sources; generated message code is real",
    "stubbed: MD5 as an injective function of its input, the clock as a harness-controlled non-decreasing value, libstdc++ tree/hash/stream/future internals",
    "memory allocation does not fail",
]


def J(harness, entry, **kw):
    return dict(kw, harness=harness, entry=entry)


PROPS = {}


def P(pid, jobs, bounds, **kw):
    PROPS[pid] = dict(kw, jobs=jobs, bounds=bounds)


P("C19", [J("money", "h_money_add"), J("money", "h_money_saturated")],
  "all int64 units and int32 nanos of both amounts (valid ones assumed), three currency pairings; loop-free code, no unrolling bound",
  outside="currency codes other than the fixed ones used; result aliasing an argument",
  covers=["exact", "positive-overflow", "negative-overflow", "mismatch", "saturated"])
P("C20", [J("money", "h_money_validate")],
  "all int64 units, all int32 nanos, currency codes of 0 to 5 arbitrary bytes",
  outside="currency codes longer than 5 bytes",
  covers=["accepted", "rejected", "positive", "negative", "zero"])

LRU_OPS = "Insert, InsertPinned, Lookup and Release (with and without update of the eviction order), Remove, RemoveAll, RemoveUnpinned, SetMaxSize, UpdateSize"
LRU_L = "10 keys of symbolic units, one of them pinned, one used again, one removed, with any capacity from 0 to 24 set twice"
P("C01", [J("lru", "h_lru_ops", cases=4, weight=5, trace_every=2003), J("lru", "h_lru_large", cases=2)],
  {"quick": "every sequence of 5 operations (%s) on up to 3 keys, both eviction modes, capacities 0..4 and units 0..3 symbolic, up to 3 pins per value; then release of all pins and Clear; " % LRU_OPS + LRU_L,
   "thorough": "as quick with sequences of 6 operations"},
  defs={"PROP": 1}, covers=["end", "evicted", "found", "deferred", "many"],
  outside="more keys or longer histories; expiry by time (C03); mismatched Lookup/Release options, which the header declares misuse")
P("C02", [J("lru", "h_lru_ops", cases=4, weight=5, trace_every=2003), J("lru", "h_lru_overfull", cases=2, trace_every=2003), J("lru", "h_lru_large", cases=2)],
  {"quick": "every sequence of 5 operations (%s) on up to 3 keys, both eviction modes, capacities 0..4 and units 0..3 symbolic; every sequence of 5 of them for a cache that also limits the number of entries, to 0..2, through IsOverfull; " % LRU_OPS + LRU_L,
   "thorough": "as quick with sequences of 6 operations of each"},
  defs={"PROP": 2}, covers=["end", "entries", "evicted", "found", "deferred", "many"],
  outside="more keys or longer histories; units above 3; other overrides of IsOverfull")
P("C03", [J("lru", "h_lru_time", cases=8, weight=5, trace_every=503), J("lru", "h_lru_limit")],
  {"quick": "every sequence of 5 operations (Insert, InsertPinned, Lookup and Release with both options, RemoveExpiredEntries, new limit) on 2 keys with symbolic time steps of 0..10 s, limits 2.5 s, 0, 1 us, 1e300 s, both modes; and every double as limit against every age for one entry (clocks up to the year 2262)",
   "thorough": "as quick with sequences of 6 operations"},
  defs={"PROP": 3}, covers=["end", "expired", "found", "deferred", "huge", "finite", "negative"],
  outside="clocks that run backwards; switching between the idle and the age mode on a cache in use")
P("C33", [J("lru", "h_lru_inspect", cases=2, weight=2, trace_every=2003), J("lru", "h_lru_age")],
  {"quick": "every sequence of 5 operations (Insert, InsertPinned, Lookup and Release with both options, ScopedLookup with the entry removed meanwhile or not, Remove, RemoveExpiredEntries) on 2 keys of a cache of 2 units with symbolic time steps of 0..10 s, without time limit and with 2.5 s, both modes, with an iteration over the cache, a listing through DebugOutput and all inspections after every one; every age of an entry (clocks up to the year 2262)",
   "thorough": "as quick with sequences of 6 operations"},
  defs={"PROP": 33}, covers=["end", "oldest", "scoped", "found", "deferred", "listed-deferred", "expired", "age"],
  outside="more keys or longer histories; the texts of DebugOutput and Summary")

CHECK_B = "(checks of low or arbitrary other importance, invalid checks of three kinds, cached passes and denials, flushes, full flushes) of a check aggregator on 2 or 3 keys that differ in one identity component each, with symbolic time steps of 0..10 s and symbolic metric values; capacities 1, 2, 100; flush interval/expiration 1 s/3 s, 0/1 ms, 2 s/2.001 s, 0.5 s/INT_MAX ms, 0.8 s/1.7 s with two metrics in either order, 0.7 s/0.9 s with and without metrics; answers cached for checks of any importance; one answer of arbitrary content (0 to 2 errors of any code, any project number, operation id of up to 2 bytes) served twice; disabled caches (0, -1) with every history of 4 calls; 12 keys through a cache of 9, with any of them denied and any refreshed"
for _p, _c in (("C04", ["passed", "denied", "invalid", "important", "evicted", "disabled", "content", "many"]), ("C05", ["refresh", "expired", "passed", "denied", "end", "options", "many"]), ("C06", ["flushed", "evicted", "expired", "end", "many"])):
    P(_p, [J("check", "h_check", cases_quick=[0, 1, 2, 4, 6, 8, 10, 12, 14], cases_thorough=range(16), weight=5, trace_every=1009), J("check", "h_check_off"), J("check", "h_check_large")] + ([J("check", "h_check_options")] if _p == "C05" else [J("check", "h_check_response")]),
      {"quick": "every history of 5 calls " + CHECK_B, "thorough": "as quick with histories of 6 calls"},
      defs={"PROP": int(_p[1:])}, covers=_c, outside="more keys, longer histories, clocks that run backwards; metric kinds and the merging of other fields (C14 to C16)")
REPORT_B = "(reports of 1 or 2 operations, with an important operation or for another service at most once, flushes, full flushes) of a report aggregator on 2 or 3 keys that differ in one identity component each, with symbolic time steps of 0..10 s, symbolic metric values, importance and (2 reports) spans, 0, 1 or 99 log entries per operation; capacities 1, 2, 100; flush intervals 0, 1, 2 s and INT_MAX ms; batches of 1 to 23 and of 75 operations of different identities or in pairs leaving at once by full flush, expiry and eviction, or one of them of any other importance; disabled caches (0, -1) and empty reports with every history of 3 calls"
for _p, _c in (("C07", ["merged", "end", "batch", "accepted"]), ("C08", ["full-batch", "flushed", "end", "disabled", "full"]), ("C09", ["important", "important-later", "invalid", "accepted", "empty", "disabled"])):
    P(_p, [J("report", "h_report", cases=6, weight=5, trace_every=1009), J("report", "h_report_batch", cases=6), J("report", "h_report_off")],
      {"quick": "every history of 4 calls " + REPORT_B, "thorough": "as quick with histories of 5 calls, spans over 3 reports and batches of every size up to 35 and of 111"},
      defs={"PROP": int(_p[1:])}, covers=_c, outside="more keys, longer histories; metric kinds and the merging of other value types (C14 to C16)")
SIG_ID = "operation name, consumer, up to 2 labels (1 for checks), up to 2 metrics (checks: up to 2 values with up to 2 labels in the first)"
SIG_L = "one identity with strings of up to 1100 bytes, 18 labels, 18 metrics and up to 9 values with up to 9 labels each"
P("C17", [J("sig", "h_sig_same", cases=4), J("sig", "h_sig_large_same", cases=4)],
  {"quick": "every identity of " + SIG_ID + " with at most 4 arbitrary non-NUL bytes in all strings together (each up to 2), against the same identity with labels, metrics, metric value sets and metric values added in the reverse order, another hash order and different values, times, ids and log entries; all four signature functions; " + SIG_L + " in reverse order",
   "thorough": "as quick with 6 bytes"},
  covers=["same", "again", "large"], outside="other identities with longer strings, more labels or metrics")
P("C18", [J("sig", "h_sig_differ", cases=4, weight=3), J("sig", "h_sig_sets"), J("sig", "h_sig_large_differ", cases=4), J("sig", "h_sig_flat")],
  {"quick": "every pair of identities of " + SIG_ID + " with at most 3 (checks: 2) arbitrary non-NUL bytes in each of the two; all four signature functions; and every pair of check requests with one or two sets of one or two metrics, of one or two values with up to one label; " + SIG_L + " against the same with any one string changed in any of up to 5 places, shortened or extended (the other byte arbitrary), a label or metric missing, or the values of two labels exchanged",
   "thorough": "as quick with 5 (checks: 4) bytes"},
  covers=["differ", "identical", "sets", "byte", "longer", "shorter", "label", "metric", "swapped"], outside="other pairs of longer strings; strings with NUL bytes; collisions of MD5 itself")
P("C32", [J("sig", "h_md5_chunks"), J("sig", "h_md5_whole"), J("sig", "h_md5_print")],
  "every sequence of up to 3 updates through each overload with up to 3 arbitrary bytes (any 32-bit integer), arbitrary inputs of 0, 1, 63, 64, 65 and 130 bytes in one and in two pieces, and the printed form of every 16-byte digest",
  covers=["raw", "string", "cstring", "int", "whole", "printed"], outside="the MD5 function of OpenSSL itself; digests asked for before further updates")

QUOTA_B = "(quota calls with arbitrary amounts, of 4 modes, invalid calls, cached passes and denials, flushes) of a quota aggregator on 2 or 3 keys with symbolic time steps of 0..10 s, then a full flush and one more call; capacities 1, 2, 100; refresh interval/expiration 1/5, 1/8, 1/2.5, 0/3, 2/0.5 s and INT_MAX ms; disabled caches (0, -1) with every history of 4 calls; 14 keys through a cache of 9, with any of them denied, unanswered and idle"
for _p, _c in (("C10", ["first", "refreshed", "again", "end", "many"]), ("C11", ["accumulated", "evicted-amounts", "end", "many"]), ("C12", ["denied", "normal", "invalid", "disabled", "many"]), ("C13", ["evicted", "expired", "again", "end", "disabled", "many"])):
    P(_p, [J("quota", "h_quota", cases=8, weight=5, trace_every=1009), J("quota", "h_quota_off"), J("quota", "h_quota_response"), J("quota", "h_quota_large", cases=2)],
      {"quick": "every history of 4 or 5 calls " + QUOTA_B, "thorough": "as quick with histories one call longer"},
      defs={"PROP": int(_p[1:])}, covers=_c, outside="more keys, longer histories, clocks that run backwards; metric value sets with other than one value")

OP_B = "merging of 3 operations "
OP_L = "10 operations of 9 metrics with up to 7 label sets of up to 3 labels each (or 20 quota metrics), a metric missing from some of them by choice, in changing orders, some values arbitrary"
P("C14", [J("opagg", "h_op_values", cases=3), J("opagg", "h_op_times", cases=3), J("opagg", "h_quota_values"), J("opagg", "h_quota_times", cases=2), J("opagg", "h_op_large", cases=4), J("opagg", "h_quota_large", cases=4)],
  {"quick": OP_B + "with values of every type (arbitrary doubles, integers within +-2^60, distributions with arbitrary bucket counts), one or two label sets or metrics, each possibly absent, repeated or of another type than before, in 4 hash orders; time spans with every 64-bit seconds and 32-bit nanos, present or not; the same for quota operations; " + OP_L,
   "thorough": "as quick with 4 operations"},
  defs={"PROP": 14}, covers=["values", "incompatible", "value-span", "quota-span", "quota", "large"], outside="integer sums beyond 64 bits; other combinations of more metrics, label sets or operations")
P("C15", [J("opagg", "h_op_kinds", cases=5), J("opagg", "h_agg_kinds", cases=2), J("client", "h_client_kinds", cases=2), J("opagg", "h_op_large", cases=4)],
  {"quick": OP_B + "with two metrics, each declared gauge, cumulative or delta, not declared, or without a map; end times with any seconds and nanos, present or not; values of changing type; and 3 operations through the report and the check aggregator, directly and through a client; " + OP_L,
   "thorough": "as quick with 4 operations"},
  defs={"PROP": 15}, covers=["kept", "delta", "newer", "older", "through", "client"], outside="metrics declared with an unspecified kind; more metrics or operations")
P("C16", [J("opagg", "h_op_logs"), J("opagg", "h_op_times", cases=3), J("opagg", "h_op_values", cases=3), J("opagg", "h_quota_values"), J("opagg", "h_op_large", cases=4)],
  {"quick": OP_B + "with 0 to 3 log entries each, different ids, importances and labels; spans with every 64-bit seconds and 32-bit nanos, present or not; metrics and label sets that occur in only some of them, in 4 hash orders; " + OP_L,
   "thorough": "as quick with 4 operations"},
  defs={"PROP": 16}, covers=["logs", "op-span", "values", "quota"], outside="more log entries (C08 has up to 99), metrics or operations")

P("C21", [J("dist", "h_dist_linear", cases_quick=range(10), cases_thorough=range(14)), J("dist", "h_dist_expo", cases_quick=range(9), cases_thorough=range(13)), J("dist", "h_dist_explicit", cases_quick=range(6), cases_thorough=range(8)), J("dist", "h_dist_unknown")],
  {"quick": "every 64-bit sample, into an empty distribution and into one with arbitrary counts, for 10 linear layouts (1 to 4 and 20 buckets; ordinary, subnormal, huge and infinite widths and offsets), 9 exponential layouts (1 to 4 and 20 buckets; growth factors that are powers of two or infinite; ordinary, subnormal and infinite scales) and every list of 0 to 5 strictly ascending explicit bounds",
   "thorough": "as quick, with widths and growth factors that are no powers of two (14 linear and 13 exponential layouts) and up to 7 explicit bounds"},
  defs={"PROP": 21}, covers=["underflow", "overflow", "finite", "nan", "unknown"], outside="other linear and exponential layouts; linear offsets that are not numbers; log2 is taken to be monotone and exact at the bounds")
P("C22", [J("dist", "h_dist_history", cases=3), J("dist", "h_dist_step")],
  {"quick": "every history of 2 (explicit bounds: 3) finite samples; one step from any minimum and maximum and from counts 1, 3, 7, 15 with integer means, samples and deviations of 4 bits, where the arithmetic is exact",
   "thorough": "as quick with histories one sample longer"},
  defs={"PROP": 22}, covers=["history", "step", "mean-step"], outside="the size of rounding errors; counts beyond 63 bits")
P("C23", [J("dist", "h_dist_merge"), J("dist", "h_dist_merge_mean"), J("dist", "h_dist_mismatch", cases=3)],
  "every pair of distributions with the same options: all three types, 1 to 3 buckets or bounds, any parameters but NaN, counts from -5 to 2^62, any bucket counts up to 2^62, any minima and maxima; mean and deviation on integers of 3 bits where the arithmetic is exact; mismatches in type, number, count of buckets, and in either parameter by more than 1e-4 relative to 6 fixed values",
  defs={"PROP": 23}, covers=["merged", "empty-source", "empty-target", "mean", "mismatch", "numbers"], outside="parameters that differ by less than 1e-4; sums beyond 63 bits; the size of rounding errors")
P("C24", [J("dist", "h_dist_init", cases=2), J("dist", "h_dist_init_explicit", cases=range(5)), J("dist", "h_dist_again")],
  "every number of buckets up to 6 (negative ones included), every 64-bit width, offset, scale and growth factor, every list of up to 4 explicit bounds; on a new distribution and on one in use",
  defs={"PROP": 24}, covers=["accepted", "rejected", "again"], outside="more buckets or bounds; linear offsets that are not numbers")

CLIENT_B = "of a client with the caches enabled (capacities 1 and 100) or not: plain, blocking and own-transport calls, calls without transport, invalid and important ones, on 2 keys with symbolic amounts and symbolic time steps of 0..3 s; transports that complete with a pass, a denial or an error, in place, later in any of two orders, or after the client is gone; timer ticks; then destruction, late completions and a late tick"
CLIENT_J = [J("client", "h_client_check", cases=6), J("client", "h_client_quota", cases=6, weight=3), J("client", "h_client_report", cases=6), J("client", "h_client_mixed", cases=6)]
CLIENT_T = "every history of 6 check or report calls (5 with an unusual one), 5 (4) quota calls and 4 mixed calls and completions "
CLIENT_Q = "every history of 5 check or report calls (4 with an unusual one), 4 (3) quota calls and 3 mixed calls and completions "
CLIENT_O = "longer histories, more keys; transports that complete twice or never, calls made while the client is being destroyed; concurrent use (C30); time inside transports (C31)"
P("C25", CLIENT_J + [J("client", "h_client_notransport", cases=2)], {"quick": CLIENT_Q + CLIENT_B, "thorough": CLIENT_T + CLIENT_B}, defs={"PROP": 25}, covers=["end", "hit", "hit-deny", "failed", "late", "sent", "absorbed", "quota-hit", "refresh", "no-transport"], outside=CLIENT_O)
P("C26", CLIENT_J[:2] + CLIENT_J[3:], {"quick": CLIENT_Q + CLIENT_B, "thorough": CLIENT_T + CLIENT_B}, defs={"PROP": 26}, covers=["end", "failed", "denied", "hit", "quota-deny", "quota-hit", "quota-refresh"], outside=CLIENT_O)
P("C27", CLIENT_J, {"quick": CLIENT_Q + CLIENT_B, "thorough": CLIENT_T + CLIENT_B}, defs={"PROP": 27}, covers=["end", "late", "flushed", "tick"], outside=CLIENT_O)
P("C28", CLIENT_J, {"quick": CLIENT_Q + CLIENT_B, "thorough": CLIENT_T + CLIENT_B}, defs={"PROP": 28}, covers=["end", "flushed", "sent", "absorbed", "failed", "tick"], outside=CLIENT_O)
P("C29", [J("client", "h_client_interval"), J("client", "h_client_tick", cases=7)],
  {"quick": "every combination of enabled caches with intervals from {1, 500, 1000, 2000, INT_MAX} ms; for every combination of enabled caches, one check with a hit, one key with accumulated quota and two reports, two ticks after any time up to 9 s each (to the microsecond), with every outcome of the transports", "thorough": "as quick"},
  defs={"PROP": 29}, covers=["interval", "ticks", "check-expired", "aged", "report-due"], outside="intervals of zero or less; the timer itself, which the user provides")
MT_B = "two or three threads with up to %s operations each (calls of one kind on 2 keys with in-place, late and failing completions, ticks, statistics, completion of an earlier request; one call of each kind on three threads; blocking calls completed by a further thread; destruction while requests complete or the timer ticks), capacities 1, 100 and off, fresh, due and expired entries, symbolic amounts; every interleaving at lock operations, stores to atomics and thread ends with up to %s preemptions (any number of switches where a thread waits or ends)"
P("C30", [J("threads", "h_mt_check", cases=10, preempt_quick=2, preempt_thorough=3, weight=2, trace_every=397), J("threads", "h_mt_quota", cases=8, preempt_quick=3, preempt_thorough=3, weight=2, trace_every=397),
          J("threads", "h_mt_report", cases=3, preempt_quick=3, preempt_thorough=3, weight=2, trace_every=397), J("threads", "h_mt_mixed", preempt_quick=2, preempt_thorough=4, weight=2, trace_every=397),
          J("threads", "h_mt_sync", cases=6, preempt_quick=4, preempt_thorough=6), J("threads", "h_mt_destroy", cases=3, preempt_quick=4, preempt_thorough=6)],
  {"quick": MT_B % ("2", "2 to 4"), "thorough": MT_B % ("3", "3 to 6")}, defs={"PROP": 30},
  covers=["check", "cached", "sent", "quota", "evicted", "refreshed", "report", "mixed", "sync", "destroyed"],
  outside="more threads, operations or preemptions; weak memory orders (the code uses sequentially consistent atomics and locks); calls made while the client is being destroyed; usage counted for checks that leave a cache while the client is being destroyed")
P("C31", [J("client", "h_client_slow", cases=9), J("client", "h_client_reenter", cases=6, weight=2), J("client", "h_agg_reenter", cases=3)],
  {"quick": "every history of 3 calls or ticks on 2 or 3 keys, capacities 1, 2, 100, with 0..2 s passing inside every transport and every way of completing; 2 calls with a further call of each kind made from within the first transport or callback that runs; flush callbacks of each aggregator that flush, fully flush or call it again", "thorough": "as quick with one more call"},
  defs={"PROP": 31}, covers=["slow", "reentered", "inner", "nested", "end"], outside="deeper nesting by the user; calls made from within the transports while the client is being destroyed")

NOT_APPLICABLE = {}
