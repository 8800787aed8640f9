"""What each property's check runs: engine entry, parameters, limits; and the bound each run covers."""
TRUST = [
    "The LLVM IR symbolically executed is what rustc makes of /repo's current sources (opt-level 2, panic=abort, arithmetic overflow checked as in a debug build), linked against a facade std whose HashMap, clock, threads, channels, sockets and rand are models (model/); everything else of std, serde, serde_json and httparse is the real code.",
    "Z3 4.8.12 decides every branch and assertion; models are re-evaluated against their constraints before use; sampled paths and every counterexample are replayed on a native build.",
    "No claim beyond the stated bounds.",
]
def J(entry, *params, **o): return (entry, list(params), o)
ALLKIND = "stored value of any of 14 kinds/shapes"
SRV = {0: "single-threaded", 1: "multi-threaded", 2: "asynchronous"}
PRG = {2: "async", 3: "simple", 4: "multi"}
PROPS = {
 "C01": dict(jobs=dict(
    quick=[J("e_kv", 4, 2, 0, 1, 0, 0, bound="every history of 4 set/try_set/upd/del statements over 2 symbolic one-character keys (equal or different), symbolic integer values; then get/try_get/ex/type/lifetime of both keys"),
           J("e_kv", 2, 2, 0, 5, 0, 1, bound="every history of 2 statements over 2 keys of 0-2 symbolic characters, symbolic values of all 5 scalar kinds"),
           J("e_kv", 2, 2, 1, 2, 1, 0, bound="2 statements with lifetimes on an advancing symbolic clock"),
           J("e_any", 2, 0, 14, 2, 2, 0, bound="2 statements of any of the 20 kinds on a key holding any of 14 value shapes")],
    thorough=[J("e_kv", 5, 2, 0, 1, 0, 0, bound="5 statements over 2 keys"), J("e_kv", 4, 3, 0, 1, 0, 0, bound="4 statements over 3 keys"), J("e_kv", 3, 2, 0, 5, 0, 1, time=900, bound="3 statements, keys of 0-2 characters, 5 value kinds"), J("e_kv", 3, 2, 1, 2, 1, 0, time=900, bound="3 statements with lifetimes, advancing clock"), J("e_any", 2, 1, 14, 2, 2, 1, bound="2 statements of any kind with lifetimes and clock"), J("e_any", 3, 0, 5, 1, 1, 0, time=900, bound="3 statements of any kind")])),
 "C02": dict(jobs=dict(
    quick=[J("e_expiry", 13, reach=[1, 2, 3], bound="a key holding any of 13 value shapes with any 32-bit lifetime, any later instant (ns precision, up to 2^32 s later), then any of the 20 statement kinds, then a full read of both keys"),
           J("e_straddle", 13, bound="the clock may tick 0-2 s during any of the 10 read statements"),
           J("e_any", 1, 1, 14, 3, 2, 1, bound="any statement with clock advance")],
    thorough=[J("e_expiry", 13, reach=[1, 2, 3]), J("e_straddle", 13), J("e_any", 2, 1, 14, 2, 2, 1, bound="2 statements of any kind with lifetimes, clock advancing before each"), J("e_kv", 3, 2, 1, 1, 1, 0, bound="3 key-value statements with lifetimes and clock over 2 keys")])),
 "C03": dict(jobs=dict(
    quick=[J("e_purge", 3, 2, 1, reach=[1, 2, 3], bound="3 statements (set/try_set/del/lifetime changes/removal step) on 2 keys, symbolic clock, symbolic random draws, then removal to the end"),
           J("e_purge", 4, 2, 0, reach=[1, 2, 3], bound="4 statements without clock advance in between")],
    thorough=[J("e_purge", 4, 2, 1, reach=[1, 2, 3], time=1500), J("e_purge", 4, 3, 0, reach=[1, 2, 3], time=900), J("e_purge", 5, 2, 0, reach=[1, 2, 3], time=600)])),
 "C04": dict(jobs=dict(
    quick=[J("e_kv", 1, 1, 2, 1, 1, 0, reach=[1], bound="any 64-bit lifetime"), J("e_life", 2, 1, bound="2 statements keeping or replacing a lifetime; ns clock"), J("e_life", 1, 2, reach=[1, 90], bound="1 statement with any 64-bit lifetime")],
    thorough=[J("e_life", 3, 1), J("e_kv", 2, 1, 2, 1, 1, 0, reach=[1, 90]), J("e_life", 1, 2, reach=[1, 90])])),
 "C05": dict(jobs=dict(
    quick=[J("e_vec", 3, 2, 0, bound="3 statements on an integer vector of length 2, any 64-bit index, any element"), J("e_vec", 2, 1, 9, bound="2 statements, all four element types"), J("e_vec", 2, 0, 9, bound="2 statements on an empty vector")],
    thorough=[J("e_vec", 4, 2, 0, time=1200), J("e_vec", 3, 1, 9), J("e_vec", 3, 3, 1), J("e_vec", 3, 0, 9)])),
 "C06": dict(jobs=dict(
    quick=[J("e_map", 3, 1, 2, 0, 0, bound="3 statements on a map of 1 entry, integer or string keys (equal or different, symbolic)"), J("e_map", 2, 2, 2, 9, 1, bound="2 statements on 2 entries, all element types, other iteration order"), J("e_map", 2, 1, 1, 1, 2, bound="string keys of 0-2 characters")],
    thorough=[J("e_map", 4, 2, 2, 0, 0), J("e_map", 3, 2, 2, 9, 1), J("e_map", 3, 1, 1, 1, 2), J("e_map", 5, 1, 2, 0, 0)])),
 "C07": dict(jobs=dict(
    quick=[J("e_types", 1, 1, bound="any stored value (scalars; vectors and maps of every type with one element) and any collection statement given a value or map key of any kind including collections"), J("e_any", 1, 0, 14, 7, 7, 0, bound="any statement on any of 14 shapes with 7 value kinds")],
    thorough=[J("e_types", 2, 0, bound="2 statements on an empty collection or scalar"), J("e_types", 1, 1), J("e_any", 2, 0, 14, 4, 3, 0)])),
 "C08": dict(jobs=dict(
    quick=[J("e_req", 2, 0, 4, reach=[1, 2, 3, 4], bound="requests of 2 statements of any of 22 kinds, 3 authorisation levels"), J("e_req", 3, 1, 2, reach=[1, 2, 3, 4], bound="requests of 3 statements of 8 kinds")],
    thorough=[J("e_req", 3, 0, 2, reach=[1, 2, 3, 4]), J("e_req", 4, 1, 2, reach=[1, 2, 3, 4])])),
 "C09": dict(jobs=dict(
    quick=[J("e_req", 3, 1, 3, reach=[1, 2, 3, 4], bound="requests of 3 statements of 8 kinds"), J("e_req", 2, 0, 4, reach=[1, 2, 3, 4], bound="requests of 2 statements of any of 22 kinds")],
    thorough=[J("e_req", 4, 1, 3, reach=[1, 2, 3, 4]), J("e_req", 3, 0, 3, reach=[1, 2, 3, 4])])),
 "C10": dict(jobs=dict(
    quick=[J("e_total", 4, 0, 1, reach=[1, 2, 3], bound="every text of 4 ASCII characters"), J("e_total", 3, 1, 1, reach=[1, 2, 3], bound="`set k ` and any 3 ASCII characters"), J("e_total", 3, 2, 1, reach=[1, 2, 3], bound="`set k int ` + any 3"),
           J("e_total", 4, 3, 1, reach=[1, 2, 3], bound="`set k str int {` + any 4"), J("e_total", 3, 4, 1, reach=[1, 2, 3], bound="each of the 19 commands with a key + any 3"), J("e_total", 3, 7, 1, reach=[1, 2, 3], bound="`set k int int {1:` + any 3"),
           J("e_total", 3, 8, 1, reach=[1, 2, 3], bound="an open string literal + any 3"), J("e_total", 3, 9, 1, reach=[1, 2, 3], bound="an open vector literal + any 3"), J("e_total", 3, 10, 1, reach=[1, 2, 3], bound="after a complete statement, any 3"),
           J("e_odd", 3, 0, reach=[1, 2, 3], bound="every mix of 3 characters out of 14 non-ASCII representatives and any ASCII"), J("e_odd", 2, 1, reach=[1, 2, 3]), J("e_odd", 3, 2, reach=[1, 2, 3]), J("e_odd", 2, 3, reach=[1, 2, 3])],
    thorough=[J("e_total", 5, 0, 1, reach=[1, 2, 3], bound="every text of 5 ASCII characters"), J("e_total", 5, 3, 1, time=900), J("e_total", 4, 4, 1, time=900), J("e_total", 4, 1, 1), J("e_total", 4, 2, 1), J("e_total", 4, 6, 1), J("e_total", 4, 7, 1), J("e_total", 4, 8, 1), J("e_total", 4, 9, 1), J("e_total", 4, 5, 1, time=900), J("e_odd", 4, 0, time=600), J("e_odd", 4, 2), J("e_odd", 4, 1), J("e_odd", 4, 3)])),
 "C11": dict(jobs=dict(
    quick=[J("e_ints", 1, 0, reach=[1, 3]), J("e_ints", 10, 1, reach=[1, 3], bound="every 10-digit negative integer"), J("e_ints", 19, 0, reach=[1, 2, 3], bound="every 19-digit integer, in and out of range"), J("e_ints", 19, 1, reach=[1, 2, 3], bound="the same, negative"), J("e_ints", 20, 0, reach=[1, 2, 3], bound="every 20-digit integer (leading zeros or out of range)"),
           J("e_strs", 4, 1, reach=[1, 2, 3, 4], bound="every string literal body of 4 ASCII characters, escapes included"), J("e_strs", 3, 0, reach=[1, 2, 3], bound="unclosed literals of 3 characters"), J("e_floats", 2, 2, bound="every float literal dd.dd, both signs"), J("e_floats", 3, 1), J("e_floats", 1, 3)],
    thorough=[J("e_ints", k, n, reach=[1]) for n in (0, 1) for k in (2, 5, 9, 15, 17, 18, 19, 20, 22)] + [J("e_strs", 6, 1, reach=[1, 2, 3, 4], time=900, bound="every string literal body of 6 ASCII characters"), J("e_strs", 5, 0, reach=[1, 2, 3]), J("e_floats", 6, 6), J("e_floats", 1, 12)])),
 "C12": dict(jobs=dict(
    quick=[J("e_gram", 1, 2, 0, 1, reach=[1, 3], bound="every statement form and literal shape (collections of 2), any letter case, any single whitespace character between tokens, symbolic identifiers and values"), J("e_gram", 1, 0, 0, 2, reach=[1, 3], bound="identifiers of 2 characters"),
           J("e_gram", 2, 0, 0, 1, reach=[1, 3], bound="two statements, separators and empty statements")],
    thorough=[J("e_gram", 1, 0, 1, 1, reach=[1, 3], time=600, bound="1-2 whitespace characters, whitespace around punctuation"), J("e_gram", 1, 1, 1, 2, reach=[1, 3], time=900), J("e_gram", 1, 3, 0, 2, reach=[1, 3]), J("e_gram", 2, 0, 0, 2, reach=[1, 3], time=600)])),
 "C13": dict(jobs=dict(
    quick=[J("e_seq", 100, 2, 1, 19, reach=[1, 2, 3], bound="each of the 19 commands, a key and any 2 tokens of 22 kinds"), J("e_seq", 200, 3, 0, 19, reach=[1, 2, 3], bound="any 3 tokens"), J("e_seq", 100, 2, 0, 19, reach=[1, 2, 3], bound="each command and any 2 tokens")]
        + [J("e_seq", 8, 3, h, 19, reach=[1, 2, 3], bound="set: fixed opening number %d and any 3 tokens" % h) for h in (1, 2, 3, 4, 5, 6, 7, 8)],
    thorough=[J("e_seq", 100, 3, 1, 19, reach=[1, 2, 3], time=600), J("e_seq", 200, 4, 0, 19, reach=[1, 2, 3], time=600)] + [J("e_seq", 8, 4, h, 19, reach=[1, 2, 3], time=600) for h in (1, 2, 3, 4, 5, 6, 7)])),
 "C14": dict(jobs=dict(
    quick=[J("e_seg", m, sh, 1, 1, t, 0, bound="request layout %d split at every position, %d further bytes" % (sh, t)) for m in (0, 1) for sh, t in ((0, 0), (1, 2), (2, 0), (3, 1), (4, 0))]
        + [J("e_seg", m, 1, 2, 2, 1, 0, bound="two splits, every second position") for m in (0, 1)] + [J("e_seg", m, 0, 1, 7, 0, 1500, bound="body beyond the read buffer, split at every 7th position") for m in (0, 1)]
        + [J("e_trickle", m, 1, k, 0, bound="pieces of %d bytes" % k) for m in (0, 1) for k in (1, 2, 5)] + [J("e_trickle", m, 0, 1024, p, bound="body of about %d bytes, full reads" % p) for m in (0, 1) for p in (940, 2000, 4000)],
    thorough=[J("e_seg", m, sh, 2, 1, 1, 0, bound="two splits at every position, layout %d" % sh) for m in (0, 1) for sh in range(5)] + [J("e_seg", m, 0, 3, 3, 0, 0, bound="three splits, every third position") for m in (0, 1)]
        + [J("e_seg", m, 4, 1, 1, 0, 3000, bound="body beyond the read buffer, every position") for m in (0, 1)] + [J("e_seg", m, 0, 2, 40, 0, 3000) for m in (0, 1)] + [J("e_trickle", m, sh, k, 0) for m in (0, 1) for sh in range(5) for k in range(1, 30)])),
 "C15": dict(jobs=dict(
    quick=[J("e_bytes", m, p, n, 0, reach=[1, 3], bound="any %d bytes after beginning %d" % (n, p)) for m in (0, 1) for p, n in ((0, 5), (1, 5), (2, 4), (4, 4), (5, 3), (6, 4), (7, 4), (8, 3), (9, 3), (11, 2), (12, 3))]
        + [J("e_bytes", 0, 10, 3, 0, reach=[1, 2, 3], bound="any 3 bytes as the value of \"query\"")]
        + [J("e_headers", m, n, bound="%d headers" % n) for m in (0, 1) for n in (2, 32, 33)] + [J("e_accept", m, bound="a failed accept, then a request") for m in (0, 1)],
    thorough=[J("e_bytes", m, p, n, 0, reach=[1, 3], time=600) for m in (0, 1) for p, n in ((0, 8), (1, 7), (2, 6), (4, 6), (5, 5), (6, 6), (7, 6), (8, 5), (9, 3), (10, 3), (11, 2), (3, 4))] + [J("e_bytes", m, p, 3, 1, reach=[1, 3]) for m in (0, 1) for p in range(13)]
        + [J("e_headers", m, n) for m in (0, 1) for n in range(2, 36)] + [J("e_accept", m) for m in (0, 1)])),
 "C16": dict(jobs=dict(
    quick=[J("e_length", m, n, 2, f, reach=[1, 3], bound="any announced length of %d characters" % n) for m in (0, 1) for n, f in ((1, 0), (2, 0), (2, 1), (3, 1), (4, 0))] + [J("e_huge", m, reach=[1, 2, 3], bound="14 extreme announced lengths") for m in (0, 1)]
        + [J("e_query", m, p, n, reach=[1], bound="query text: beginning %d and any %d ASCII characters" % (p, n)) for m in (0, 1) for p, n in ((0, 3), (1, 2), (3, 3), (5, 2), (6, 2), (7, 2))] + [J("e_query", 0, 2, 4, reach=[1, 4, 5], bound="every \\u escape"), J("e_query", 1, 4, 2, reach=[1, 4, 5], bound="surrogate pairs")]
        + [J("e_bodies", m, reach=[1, 3], bound="20 other bodies, 10 other methods, with and without announced length") for m in (0, 1)],
    thorough=[J("e_length", m, n, 5, f, reach=[1, 3], time=400) for m in (0, 1) for n in (1, 2, 3, 4, 6, 8, 10) for f in (0, 1)] + [J("e_huge", m) for m in (0, 1)] + [J("e_query", m, p, n, reach=[1], time=600) for m in (0, 1) for p, n in ((0, 5), (1, 4), (2, 5), (3, 6), (4, 4), (5, 4), (6, 4), (7, 4))] + [J("e_bodies", m) for m in (0, 1)])),
 "C17": dict(jobs=dict(
    quick=[J("e_partial", m, 3, 125, 2, reach=[1, 2], bound="1-3 bytes per write, or a failure at each of the first 125 byte positions") for m in (0, 1)] + [J("e_respond", m, 7, 9, 2, 8, 1, bound="every response kind but values, texts of 2 characters") for m in (0, 1)] + [J("e_respond", m, 2, 1, 3, 8, 1, bound="string values of 3 characters") for m in (0, 1)],
    thorough=[J("e_partial", m, 40, 130, 3, reach=[1, 2], time=600) for m in (0, 1)] + [J("e_respond", m, 7, 9, 3, 12, 1) for m in (0, 1)] + [J("e_respond", m, 2, 1, 4, 8, 1) for m in (0, 1)])),
 "C18": dict(jobs=dict(
    quick=[J("e_respond", m, 0, 5, 2, 8, 1, bound="scalar values: strings of 2 characters, integers of 9 bits and extreme ones, boundary floats") for m in (0, 1)] + [J("e_respond", m, 5, 1, 1, 4, 2, bound="vectors of 0-2 elements") for m in (0, 1)] + [J("e_respond", m, 6, 1, 1, 4, 1, bound="maps of 0-1 entries") for m in (0, 1)] + [J("e_respond", m, 7, 9, 1, 8, 1, bound="all other responses") for m in (0, 1)],
    thorough=[J("e_respond", m, 0, 5, 3, 12, 1) for m in (0, 1)] + [J("e_respond", m, 5, 1, 1, 8, 3, time=900) for m in (0, 1)] + [J("e_respond", m, 6, 1, 1, 1, 2, time=1200, bound="maps of 0-2 entries") for m in (0, 1)] + [J("e_respond", m, 7, 9, 3, 12, 1) for m in (0, 1)])),

 "C19": dict(jobs=dict(
    quick=[J("e_hist", m, 2, 0, 18, 1, 1, 0, bound="%s server: every history of 2 requests out of 18 (key, vector, multi-statement, malformed and shutdown requests; symbolic values) from 6 kinds of user" % SRV[m]) for m in (0, 1, 2)]
        + [J("e_hist", m, 3, 0, 10, 0, 1, 0, bound="%s server: every history of 3 requests out of 10" % SRV[m]) for m in (0, 1, 2)],
    thorough=[J("e_hist", m, 3, 0, 18, 0, 1, 0, time=900, bound="%s server: 3 requests out of 18" % SRV[m]) for m in (0, 1, 2)] + [J("e_hist", m, 4, 0, 10, 0, 1, 0, time=900, bound="%s server: 4 requests out of 10" % SRV[m]) for m in (0, 1, 2)] + [J("e_hist", 1, 2, 0, 18, 0, 2, 1, time=400, bound="2 listeners and 2 analysers, schedules with one delay"), J("e_hist", 2, 2, 0, 18, 0, 1, 1, time=400)])),
 "C20": dict(jobs=dict(
    quick=[J("e_race", 1, 2, 0, 2, 1, 0, bound="multi-threaded server, 2 clients at once (set, get, del, try_set) and then a reader; 2 listeners, 2 analysers; every schedule with one delay"), J("e_race", 1, 2, 0, 2, 1, 5, bound="the same, timers may also fire early"),
           J("e_race", 1, 2, 4, 2, 2, 0, bound="2 clients (set, get), every schedule with two delays"), J("e_race", 1, 3, 0, 3, 1, 0, bound="3 clients, 3 listeners and 3 analysers, one delay"), J("e_race", 1, 2, 3, 2, 1, 0, bound="2 clients of which some send malformed or empty requests"),
           J("e_race", 2, 2, 0, 1, 2, 0, bound="asynchronous server, 2 clients, two delays"), J("e_race", 2, 3, 0, 1, 2, 0, bound="asynchronous server, 3 clients, two delays"), J("e_race", 2, 2, 0, 1, 1, 5), J("e_race", 2, 2, 3, 1, 2, 0)],
    thorough=[J("e_race", 1, 2, 0, 2, 2, 0, time=900, bound="2 clients, two delays"), J("e_race", 1, 2, 4, 2, 3, 0, time=900, bound="2 clients (set, get), three delays"), J("e_race", 1, 3, 0, 2, 2, 0, time=900, bound="3 clients, 2 listeners and 2 analysers, two delays"), J("e_race", 1, 2, 4, 2, 2, 5, time=600, bound="timers may fire early, two delays"),
              J("e_race", 1, 4, 4, 2, 1, 0, time=600, bound="4 clients"), J("e_race", 2, 2, 0, 1, 3, 0, time=600), J("e_race", 2, 3, 0, 1, 3, 0, time=900), J("e_race", 2, 4, 4, 1, 2, 0, time=600), J("e_race", 2, 2, 0, 1, 2, 5, time=600)])),
 "C21": dict(jobs=dict(
    quick=[J("e_down", m, 2, 0, 1, 0, 0, bound="%s server: 2 requests one after another out of 5 (with and without shutdown, alone or within longer requests) from 6 kinds of user, a reader, a final shutdown" % SRV[m]) for m in (0, 1, 2)]
        + [J("e_down", 1, 1, 1, 2, 1, 0, bound="multi-threaded server, every schedule with one delay"), J("e_down", 1, 1, 1, 2, 1, 5, bound="the same, timers may fire early"), J("e_down", 2, 2, 1, 1, 1, 0, bound="asynchronous server, 2 clients at once, one delay"),
           J("e_race", 1, 2, 2, 2, 1, 5, bound="set, get or shutdown at once; timers may fire early"), J("e_race", 2, 2, 2, 1, 1, 5), J("e_race", 2, 2, 2, 1, 2, 0)],
    thorough=[J("e_down", m, 3, 0, 1, 0, 0, time=900, bound="%s server: 3 requests" % SRV[m]) for m in (0, 1, 2)] + [J("e_down", 1, 2, 1, 2, 1, 0, time=600), J("e_down", 1, 1, 1, 2, 2, 0, time=600), J("e_down", 2, 1, 1, 1, 2, 5, time=600), J("e_race", 1, 2, 2, 2, 2, 0, time=600), J("e_race", 1, 3, 2, 2, 1, 5, time=600), J("e_race", 2, 3, 2, 1, 2, 0, time=600), J("e_race", 2, 2, 2, 1, 2, 5, time=600)])),
 "C22": dict(jobs=dict(
    quick=[J("e_access", m, s, p, bound="%s server: %s, 18 requests and 3 malformed ones%s" % (SRV[m], ("each of 6 kinds of user", "any user name of 4-6 printable characters")[s], ", after an earlier write" if p else "")) for m in (0, 1, 2) for s in (0, 1) for p in (0, 1)]
        + [J("e_hist", m, 1, 0, 18, 2, 1, 0) for m in (0, 1, 2)],
    thorough=[J("e_access", m, s, p) for m in (0, 1, 2) for s in (0, 1) for p in (0, 1)] + [J("e_hist", m, 2, 0, 18, 2, 1, 0, time=900, bound="%s server: 2 requests with symbolic user names" % SRV[m]) for m in (0, 1, 2)])),
 "C23": dict(jobs=dict(
    quick=[J("e_broken", m, 1, t, b, bound="%s server: a disturbed client (broken connection while responding, request cut off by end of stream or read error at 7 places, failed accept, garbage, malformed command) between healthy ones%s" % (SRV[m], ", one delay" if b else "")) for m, t, b in ((0, 1, 0), (1, 2, 1), (2, 1, 1))]
        + [J("e_broken", m, 2, t, 0, bound="%s server: 2 disturbed clients" % SRV[m]) for m, t in ((0, 1), (1, 2), (2, 1))],
    thorough=[J("e_broken", m, 3, t, 0, time=900, bound="%s server: 3 disturbed clients" % SRV[m]) for m, t in ((0, 1), (1, 1), (1, 2), (2, 1))] + [J("e_broken", 1, 1, 2, 2, time=900), J("e_broken", 2, 1, 1, 2, time=600), J("e_broken", 1, 2, 2, 1, time=900), J("e_broken", 2, 2, 1, 1, time=600)])),
 "C24": dict(jobs=dict(
    quick=[J("e_race", 1, 2, 1, 2, 1, 0, bound="multi-threaded server: 2 clients with requests of 2-3 statements at once; 2 listeners, 2 analysers; every schedule with one delay"), J("e_race", 1, 3, 1, 1, 1, 0, bound="3 clients, one listener and analyser"), J("e_race", 2, 2, 1, 1, 2, 0, bound="asynchronous server, two delays"), J("e_race", 2, 2, 1, 1, 1, 5, bound="timers may fire early"), J("e_race", 2, 3, 1, 1, 1, 0)],
    thorough=[J("e_race", 1, 2, 1, 2, 2, 0, time=900), J("e_race", 1, 3, 1, 2, 1, 0, time=600), J("e_race", 1, 2, 1, 2, 1, 5, time=600), J("e_race", 2, 2, 1, 1, 3, 0, time=900), J("e_race", 2, 3, 1, 1, 2, 0, time=900), J("e_race", 2, 2, 1, 1, 2, 5, time=900)])),
 "C25": dict(jobs=dict(
    quick=[J("e_reclaim", m, n, k, 1, b, 0, reach=[1], soft=[2], bound="%s server: %d entries with a lifetime nobody asks for again, %s permanent entry; after the removal interval they are gone from memory%s" % (SRV[m], n, ("no", "one")[k], ", one delay" if b else "")) for m, n, k, b in ((1, 1, 0, 0), (1, 2, 1, 0), (1, 1, 1, 1), (2, 1, 0, 0), (2, 2, 0, 0), (2, 1, 1, 1))],
    thorough=[J("e_reclaim", m, n, k, 1, b, 0, reach=[1], soft=[2], time=900) for m, n, k, b in ((1, 3, 0, 0), (1, 2, 1, 0), (1, 2, 0, 1), (2, 3, 0, 0), (2, 2, 1, 0), (2, 2, 0, 1))])),
 "C26": dict(jobs=dict(
    quick=[J("e_bind", m, 0, d, bound="any IPv4 address with two symbolic octets, any %d-digit port" % d) for m in (0, 1, 2) for d in (2, 5)] + [J("e_bind", m, 1, 4, bound="IPv6 addresses, any 4-digit port") for m in (0, 1, 2)]
        + [J("e_prog", m, 1, 0, 10, 1, 1, 0, bound="the %s program: any of 10 requests, 6 kinds of user" % PRG[m]) for m in (2, 3, 4)],
    thorough=[J("e_bind", m, f, d) for m in (0, 1, 2) for f in (0, 1) for d in (1, 2, 3, 4, 5)] + [J("e_prog", m, 2, 0, 18, 1, 1, 0, time=600, bound="the %s program: 2 requests" % PRG[m]) for m in (2, 3, 4)] + [J("e_race", 4, 2, 0, 3, 1, 0, time=600, bound="the multi program, 2 clients at once")])),
}

# Long inputs, many keys, long requests: fixed shapes far beyond the sizes the exhaustive runs above reach, with the
# deciding values, indices, keys or draws symbolic. Text mode (last parameter 1): the statements are spelled as query
# text and reach the store through the tokenizer and the parser, as a client's do.
def more(pid, quick, thorough=()):
    PROPS[pid]["jobs"]["quick"] += quick; PROPS[pid]["jobs"]["thorough"] += list(quick) + list(thorough)
BIG = 300_000_000
more("C01", [J("s_keys", 300, 1, 0, 1, steps=BIG, bound="300 keys, then any statement on any key of two characters"), J("s_keys", 1100, 0, 0, 1, steps=BIG, bound="1100 keys written and read"), J("s_keys", 24, 1, 0, 1, bound="24 keys, of which one symbolic, then any statement on any of them"),
             J("e_kv", 3, 2, 0, 1, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="3 statements over 2 keys, as query text"),
             J("e_any", 1, 0, 14, 2, 2, 0, 0, 0, 0, 1, reach=[1, 91], bound="any statement on any stored value, as query text")])
more("C02", [J("e_expiry", 13, 0, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 2, 3, 91], bound="a key with any 32-bit lifetime, any later instant, any statement, as query text")])
more("C03", [J("e_purge", 3, 3, 1, reach=[1, 2, 3], bound="3 statements on 3 keys, symbolic clock"), J("s_draws", 6, 4, 0, bound="6 keys with lifetimes, 4 removal steps, every draw symbolic"),
             J("s_draws", 4, 2, 1, bound="4 keys, overwritten and expiring, 2 removal steps, every draw symbolic"), J("s_draws", 20, 3, 0, 2, bound="20 keys, the first 2 draws symbolic"),
             J("s_fair", 3, 100, 0, bound="one expired key among 3 (keys overwritten, deleted or made permanent besides), found by a long run of removal steps"), J("s_fair", 5, 200, 2, bound="the same among 5, the first 2 draws symbolic"), J("s_fair", 7, 300, 0), J("s_fair", 20, 800, 0),
             J("s_keys", 12, 1, 3, bound="12 keys of which every third has a lifetime")],
     [J("e_purge", 4, 4, 0, reach=[1, 2, 3], time=600), J("s_keys", 60, 1, 2, 0, 1, time=300), J("s_keys", 30, 1, 1, 0, 2, time=400), J("s_draws", 40, 2, 1, 2, time=600)])
more("C04", [J("e_life", 1, 2, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="1 statement with any 64-bit lifetime, as query text")], [J("e_life", 2, 2, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], time=400)])
more("C05", [J("s_vec", 40, 0, 1, bound="an integer vector of 40 elements, any 64-bit index"), J("s_vec", 33, 1, 1, bound="a string vector of 33"), J("s_vec", 1100, 0, 0, steps=BIG, bound="an integer vector of 1100, filled, read and emptied"), J("s_vec", 70000, 0, 0, steps=BIG, bound="an integer vector of 70000, filled, read and emptied"),
             J("e_vec", 2, 2, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="2 statements with any 64-bit index, as query text"), J("e_vec", 1, 1, 9, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="1 statement, all element types, as query text")],
     [J("s_vec", 100, 1, 1), J("e_vec", 2, 1, 9, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91])])
more("C06", [J("s_map", 20, 0, 1, bound="a map of 20 integer keys, then any statement"), J("s_map", 300, 1, 1, steps=BIG, bound="a map of 300 string keys, then any statement"), J("s_map", 1500, 0, 0, steps=BIG, bound="a map of 1500 integer keys, filled and read"),
             J("e_map", 2, 1, 2, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="2 statements, as query text"), J("e_map", 1, 2, 2, 9, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="1 statement, all element types, as query text")], [J("s_map", 40, 1, 2, time=400)])
more("C07", [J("e_types", 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 91], bound="the same, as query text")])
for pid in ("C08", "C09"):
    more(pid, [J("s_req", 20, reach=[1, 2, 4], bound="requests of 20 statements"), J("s_req", 60, reach=[1, 2, 4], bound="requests of 60 statements"), J("s_req", 1100, steps=BIG, reach=[1, 2, 4], bound="requests of 1100 statements"),
               J("e_req", 2, 0, 1, 0, 0, 0, 0, 0, 0, 1, reach=[1, 2, 4, 91], bound="requests of 2 statements, as query text")], [J("s_req", 20, 0, 0, 0, 0, 0, 0, 0, 0, 1, reach=[1, 2, 4], time=300), J("e_req", 3, 1, 2, 0, 0, 0, 0, 0, 0, 1, reach=[1, 2, 4, 91])])
TEXTS = {"C10": (0, 1, 2, 3, 7, 11, 12, 13), "C11": (1, 2, 8, 9, 10, 13), "C12": (0, 3, 4, 5, 6, 7), "C13": (4, 5, 6, 11, 12)}
for pid, kinds in TEXTS.items():
    more(pid, [J("s_text", k, n, steps=BIG, bound="one long construct (long name %d), %d characters or elements" % (k, n)) for k in kinds for n in (64, 300, 1100)] + [J("s_text", 1, 70000, steps=BIG, bound="a string literal of 70000 characters")], [J("s_text", k, 3000, steps=BIG, time=300) for k in kinds])
more("C14", [J("s_split", m, 1, bound="a query of non-ASCII text split at every position") for m in (0, 1)] + [J("s_body", m, n, k, x, steps=BIG, bound="a body of about %d bytes in pieces of %d" % (n, k)) for m in (0, 1) for n, k, x in ((3000, 97, 1), (70000, 1024, 0))],
     [J("s_split", m, 2, time=300) for m in (0, 1)])
more("C16", [J("s_body", m, 70000, 1024, 0, steps=BIG, bound="a body of about 70000 bytes") for m in (0, 1)])
for pid, kinds in (("C17", (0, 1, 2, 3, 4, 5)), ("C18", (0, 1, 2, 3, 4, 5))):
    more(pid, [J("s_out", m, k, 200, steps=BIG, bound="a response of kind %d of 200 characters or elements" % k) for m in (0, 1) for k in kinds], [J("s_out", m, k, 1000, steps=BIG, time=300) for m in (0, 1) for k in kinds if k != 2])
more("C19", [J("e_many", m, 150, t, 0, steps=BIG, bound="%s server: 150 clients, one of them sending any of 8 requests" % SRV[m]) for m, t in ((0, 1), (1, 2), (2, 1))])
more("C23", [J("e_many", m, 150, t, 1, steps=BIG, bound="%s server: 150 clients, one of them disturbed in one of 3 ways at any place" % SRV[m]) for m, t in ((0, 1), (1, 2), (2, 1))] + [J("e_broken", 1, 1, 1, 0, bound="one listener and one analyser"), J("e_broken", 1, 2, 1, 0)])
more("C21", [J("e_race", 1, 1, 6, 1, 2, 5, bound="one listener and one analyser, a slow request: two delays or timers firing early; the server goes on serving and stops only when asked")],
     [J("e_race", 1, 1, 4, 1, 2, 5, time=400), J("e_race", 1, 1, 2, 1, 2, 5, time=400), J("e_race", 1, 1, 6, 2, 2, 5, time=600)])
more("C24", [J("e_race", m, 2, 5, t, b, 0, steps=BIG, bound="%s server: 2 clients with requests of 26 statements (or 2 reading), %d delays" % (SRV[m], b)) for m, t, b in ((1, 2, 1), (2, 1, 2))]
    + [J("e_race", m, 2, 7, t, 1, 0, steps=BIG, bound="%s server: requests of 72 statements" % SRV[m]) for m, t in ((1, 2), (2, 1))], [J("e_race", 1, 2, 5, 2, 2, 0, steps=BIG, time=900), J("e_race", 2, 2, 5, 1, 3, 0, steps=BIG, time=600)])
more("C04", [J("e_any", 1, 1, 14, 2, 2, c, bound="any statement on any stored value with a lifetime%s, then the key at a later instant" % ("" if c else " (fixed clock)")) for c in (1, 0)])
POS = [J("e_ints", 19, n, p, reach=[1, 2, 3], bound="an integer literal of 19 digits (where it first differs from the largest magnitude, and how) %s" % w) for n, p, w in ((0, 1, "as a vector index"), (1, 1, "with a minus sign as a vector index"), (1, 2, "as the index of vset"), (1, 3, "as a lifetime"), (0, 5, "in a vector literal"), (1, 6, "in a map literal"), (0, 7, "as a map key"), (1, 4, "as the key of mget"))] + [J("e_ints", 3, 1, 2, reach=[1, 2, 3], bound="-ddd as an index: only -0 passes")]
more("C11", POS + [J("s_float", k, bound="a long or extreme float literal (number %d), one digit of it replaced by any other" % k) for k in range(12)])
more("C13", POS)
more("C12", [J("e_ident", n, 0, bound="any identifier of %d ASCII characters but keywords, as the key of two statements" % n) for n in (4, 5, 6, 8)] + [J("e_ident", n, 1, bound="identifiers of %d letters of other alphabets, in either case, digits and underscores" % n) for n in (2, 3)], [J("e_ident", 10, 0, time=300), J("e_ident", 7, 0, time=300)])
more("C22", [J("e_hist", m, 2, 0, 18, 1, 1, 0, bound="%s server: 2 requests, each by one of 6 kinds of user, of any of 18 kinds" % SRV[m]) for m in (0, 1, 2)])
# Stalls (flags 8, 32): besides being delayed, the running thread or task may be held up for 20 ms (or 2 s) of the virtual clock.
ST = "; every schedule with one delay or stall of 20 ms at any scheduling point"
more("C20", [J("e_race", 1, 2, 0, 2, 1, 8, bound="multi-threaded server, 2 clients at once and then a reader" + ST), J("e_race", 1, 2, 0, 2, 1, 40, bound="the same, or a stall of 2 s"), J("e_race", 1, 3, 0, 2, 1, 8, bound="3 clients" + ST), J("e_race", 2, 2, 0, 1, 1, 8, bound="asynchronous server, 2 clients" + ST), J("e_race", 2, 3, 0, 1, 1, 8)],
     [J("e_race", 1, 2, 4, 2, 2, 24, time=300, bound="two stalls"), J("e_race", 1, 2, 4, 2, 2, 8, time=600, bound="two delays or stalls"), J("e_race", 2, 2, 0, 1, 2, 8, time=300)])
more("C21", [J("e_down", 1, 1, 1, 2, 1, 8, bound="multi-threaded server, any of 6 requests by any of 6 kinds of user" + ST), J("e_race", 1, 2, 2, 2, 1, 40, bound="set, get or shutdown at once" + ST + " or 2 s"), J("e_race", 2, 2, 2, 1, 1, 40)],
     [J("e_down", 1, 1, 1, 2, 1, 40, time=300), J("e_down", 2, 1, 1, 1, 2, 8, time=300), J("e_down", 2, 2, 1, 1, 1, 8, time=600), J("e_down", 1, 2, 1, 2, 1, 8, time=900)])
more("C23", [J("e_broken", 1, 1, 2, 1, 8, bound="multi-threaded server, a disturbed client between healthy ones" + ST), J("e_broken", 1, 1, 1, 1, 8), J("e_broken", 2, 1, 1, 1, 8, bound="asynchronous server" + ST)]
    + [J("e_often", m, n, t, steps=BIG, bound="%s server: the same of 10 disturbances %d times in a row, then healthy clients" % (SRV[m], n)) for m, n, t in ((0, 8, 1), (1, 8, 1), (1, 8, 2), (2, 8, 1), (0, 70, 1), (1, 70, 2), (2, 70, 1))])
more("C24", [J("e_race", 1, 2, 1, 2, 1, 8, bound="requests of 2-3 statements at once" + ST), J("e_race", 1, 2, 5, 2, 1, 8, steps=BIG, bound="requests of 26 statements" + ST), J("e_race", 2, 2, 1, 1, 1, 8), J("e_race", 1, 2, 7, 2, 1, 8, steps=BIG)])
more("C25", [J("e_reclaim", 2, 1, 1, 1, 1, 8, reach=[1], soft=[2], bound="asynchronous server" + ST)])
for pid, k in (("C16", 0), ("C14", 1), ("C22", 1)):
    more(pid, [J("e_near", m, k, reach=[1, 2], bound="another header named almost like %s (a character added, changed or cut off), at any place" % ("Content-Length", "Username")[k]) for m in (0, 1)])
# Time: slow clients, long idle periods, lifetimes ending between requests.
LAPSE = [J("e_lapse", m, l, 2, t, steps=BIG, bound="%s server: an entry with a lifetime of %d s written in one of 3 ways, asked for shortly before its end, then any of 6 statements after it (and before or after background removal)" % (SRV[m], l)) for m, t in ((0, 1), (1, 2), (2, 1)) for l in (1, 7)]
more("C02", LAPSE); more("C19", LAPSE)
IDLE = [J("e_idle", m, s, t, n, steps=BIG, bound="%s server: clients %d s apart" % (SRV[m], s)) for m, t in ((0, 1), (1, 1), (2, 1)) for s, n in ((15, 2), (300, 1))]
more("C19", IDLE); more("C21", IDLE)
more("C14", [J("e_slow", m, sh, 1, 3, g, bound="request layout %d split at every third position, the client pausing for %d ms" % (sh, g)) for m in (0, 1) for sh, g in ((0, 700), (1, 20000))] + [J("e_slow", m, 2, 2, 9, 3000, bound="two splits and pauses") for m in (0, 1)]
    + [J("e_exact", m, 1024 * k, bound="requests of %d bytes, two more and two less; the client waits or closes" % (1024 * k)) for m in (0, 1) for k in (1, 2, 4)] + [J("e_exact", m, k, steps=BIG) for m in (0, 1) for k in (8192, 65536)],
    [J("e_slow", m, sh, 2, 3, 700) for m in (0, 1) for sh in range(5)] + [J("e_exact", m, 1024 * k, steps=BIG) for m in (0, 1) for k in range(1, 20)])
more("C17", [J("e_taker", m, k, g, reach=[1, 2], bound="the client takes %d bytes at a time, %d ms apart, or stops taking anything at any of the first 126 bytes" % (k, g)) for m in (0, 1) for k, g in ((20, 700), (64, 20000))]
    + [J("s_out", m, k, 70000, steps=BIG, bound="a response of kind %d of 70000 characters" % k) for m in (0, 1) for k in (0, 4)])
more("C18", [J("s_out", m, k, 70000, steps=BIG, bound="a response of kind %d of 70000 characters" % k) for m in (0, 1) for k in (0, 4)])
more("C23", [J("e_pause", m, n, t, g, steps=BIG, bound="%s server: %d clients which send or take slowly, with pauses of %d ms, among others" % (SRV[m], n, g)) for m, n, t, g in ((0, 1, 1, 700), (0, 2, 1, 3000), (1, 1, 1, 700), (1, 1, 2, 3000), (1, 2, 2, 700), (2, 1, 1, 700), (2, 2, 1, 3000))])
more("C20", [J("e_pause", m, 2, t, 700, steps=BIG, bound="%s server: 2 clients which send or take slowly, among others" % SRV[m]) for m, t in ((1, 2), (2, 1))])
more("C25", [J("e_reclaim", m, 1, 1, 1, 0, 0, s, reach=[1], soft=[2], steps=BIG, bound="%s server, after %d idle seconds" % (SRV[m], s)) for m in (1, 2) for s in (60, 300)])
more("C25", [J("e_crowd", m, n, t, k, steps=BIG, reach=[1], soft=[2], bound="%s server: one entry expires among %d with lifetimes that go on, %s" % (SRV[m], n, "every third for ever" if k else "wherever it is")) for m, n, t, k in ((1, 3, 1, 0), (1, 12, 1, 0), (1, 12, 2, 3), (2, 3, 1, 0), (2, 12, 1, 0), (2, 20, 1, 3))], [J("e_crowd", m, 20, 1, 0, steps=BIG, reach=[1], soft=[2]) for m in (1, 2)])
# The entry has a lifetime that goes on
L8 = "; the entry has a lifetime that goes on"
more("C05", [J("e_vec", 2, 2, 0, 0, 0, 0, 0, 0, 1, bound="2 statements" + L8), J("e_vec", 3, 1, 0, 0, 0, 0, 0, 0, 1, bound="3 statements" + L8), J("e_vec", 1, 1, 9, 0, 0, 0, 0, 0, 1, bound="1 statement, all element types" + L8)])
more("C06", [J("e_map", 2, 1, 2, 0, 0, 0, 0, 0, 1, bound="2 statements" + L8), J("e_map", 1, 2, 2, 9, 0, 0, 0, 0, 1, bound="1 statement, all element types" + L8)])
more("C07", [J("e_types", 1, 1, 0, 0, 0, 0, 0, 0, 1, bound="1 statement" + L8)])
for pid in ("C08", "C09"): more(pid, [J("e_req", 2, 1, 4, 0, 0, 0, 0, 0, 1, reach=[1, 2, 4], bound="requests of 2 statements; the entries have lifetimes that go on")])
more("C16", [J("e_spelled", m, reach=[1, 2], bound="the name Content-Length with every letter in either case") for m in (0, 1)])
# Names and strings that differ only far from their beginning, or only in length
for pid, k in (("C01", 0), ("C06", 1), ("C01", 2)):
    more(pid, [J("s_long", n, k, bound="%s of %d characters equal but for one of them, at any place, or in length" % (("keys", "map keys", "string values")[k], n)) for n in (9, 33, 70, 300, 1100)], [J("s_long", n, k, steps=BIG) for n in (17, 65, 129, 257, 5000)])
more("C03", [J("s_long", n, 3, bound="two keys of %d characters, equal but for one, or in length, with or without lifetimes; removal steps" % n) for n in (9, 300)], [J("s_long", n, 3, steps=BIG, time=300) for n in (33, 70, 1100)])
# Through the servers: every kind of value and statement, every layout of a query, large requests and responses, nearly a role's name
MT = ((0, 1), (1, 2), (2, 1))
more("C19", [J("e_kinds", m, t, 1, 14, 2, 2, 0, 0, 0, 1, bound="%s server: any of 14 stored values, any of 29 statements on it, then its value and type" % SRV[m]) for m, t in MT]
    + [J("e_layout", m, t, bound="%s server: queries with any of 8 kinds of blank, separators, letter case, escapes, other alphabets" % SRV[m]) for m, t in MT]
    + [J("e_bulk", m, t, k, n, steps=BIG, bound="%s server: a request of kind %d with %d characters, elements or statements, among small ones" % (SRV[m], k, n)) for m, t in MT for k, n in ((0, 5000), (1, 100), (2, 300), (3, 1100), (4, 200))],
    [J("e_kinds", m, t, 2, 5, 1, 1, 0, 0, 0, 1, time=600) for m, t in MT] + [J("e_bulk", m, t, 0, 70000, steps=BIG) for m, t in MT])
more("C07", [J("e_kinds", 0, 1, 1, 14, 2, 2, 0, 0, 0, 1, bound="any of 14 stored values, any statement on it, then its value and type, through a server")])
more("C12", [J("e_layout", 0, 1, bound="the same through a server")])
more("C22", [J("e_kinds", m, t, 1, 5, 1, 1, 1, 0, 0, 1, bound="%s server: a stored value, any of 29 statements by any of the three roles, then its value and type" % SRV[m]) for m, t in MT]
    + [J("e_who", m, t, bound="%s server: a user named nearly like a role (a character added, changed, dropped or in the other case; up to 1024 more)" % SRV[m]) for m, t in MT])
more("C04", [J("e_life", 2, 1, 0, 0, 0, 0, 0, 0, 1, bound="2 statements, at any instants to the nanosecond"), J("e_life", 1, 2, 0, 0, 0, 0, 0, 0, 1, reach=[1, 90], bound="1 statement with any 64-bit lifetime, at any instants to the nanosecond")])
more("C14", [J("e_longhead", m, n, k, p, steps=BIG, bound="a header of %d bytes (or %d headers) anywhere among the others" % (n, k)) for m in (0, 1) for n, k, p in ((20000, 0, 0), (70000, 0, 1000), (0, 29, 37))])
more("C24", [J("e_race", m, 2, k, t, 1, 0, steps=BIG, bound="%s server: requests of %s" % (SRV[m], "9000 characters" if k == 8 else "402 statements")) for m, t in ((1, 2), (2, 1)) for k in (8, 9)])
EDIT = ["a vector of integers with a lifetime", "a vector of strings", "a vector of floats, then a read", "a map of strings with a lifetime", "a map of negative integers", "a map of truth values, then a read", "vset and mset statements", "statements of six kinds", "reads"]
more("C13", [J("e_edit", k, 9, reach=[1, 2, 3], steps=BIG, bound="a well-formed request (%s, 9 elements or statements) with any one token dropped, replaced by any or added, anywhere" % EDIT[k]) for k in range(9)] + [J("e_edit", k, 40, reach=[1, 2, 3], steps=BIG, bound="the same, %s, 40 elements" % EDIT[k]) for k in (0, 3)],
    [J("e_edit", k, 40, reach=[1, 2, 3], steps=BIG, time=300) for k in (1, 2, 4, 5, 7, 8)])
for pid in ("C08", "C09"): more(pid, [J("s_rep", n, l, reach=[1, 2, 3, 4], bound="requests that repeat one of 15 statements %d times (by itself, alternating with another, on two keys), texts and keys of %d characters" % (n, l + 1)) for n, l in ((2, 40), (3, 0), (9, 300))], [J("s_rep", n, l, reach=[1, 2, 3, 4], steps=BIG, time=300) for n, l in ((40, 40), (200, 3), (3, 2000))])
for pid in ("C03", "C25"): more(pid, [J("s_fair", 300, 6000, steps=BIG, bound="one expired key among 300, found by a long run of removal steps")], [J("s_fair", n, 20 * n, steps=BIG, time=400) for n in (70, 1100)])
for pid in ("C02", "C03"): more(pid, [J("e_lapsed", 2, 1, reach=[1], bound="a lapsed key among up to 2 others with lifetimes, lapsed or not, in any order; any statement on it, then one that writes, then removal")], [J("e_lapsed", 3, 1, reach=[1], steps=BIG, time=300), J("e_lapsed", 5, 0, reach=[1], steps=BIG, time=300)])
more("C07", [J("s_vec", n, c, 1, bound="a vector of %d elements; values of the wrong type" % n) for n, c in ((40, 0), (30, 1))] + [J("s_map", n, t, 1, bound="a map of %d entries; keys and values of the wrong type" % n) for n, t in ((20, 0), (70, 1))], [J("s_vec", 1100, 0, 1, steps=BIG, time=300), J("s_map", 300, 1, 1, steps=BIG, time=300)])
for pid, ks in (("C12", range(4)), ("C11", (1,))): more(pid, [J("e_uni", n, k, reach=[1], bound="string literals with any character of %d bytes" % n) for n in (2, 3, 4) for k in ks])
more("C19", [J("e_stale", m, t, 0, 0, 2, reach=[1], bound="%s server: reads of every kind before and after each of two writes" % SRV[m]) for m, t in MT])
more("C20", [J("e_stale", 1, 2, 1, 0, 1, reach=[1], bound="multi-threaded server, 2 listeners: reads of every kind before and after a write, 1 delay")] + [J("e_stale", 1, t, 0, 0, 3, reach=[1], bound="the same, %d listeners, three writes" % t) for t in (1, 2, 3)], [J("e_stale", 1, 2, 1, 0, 2, reach=[1], steps=BIG, time=400), J("e_stale", 2, 2, 1, 0, 1, reach=[1], steps=BIG, time=300)])
for pid in ("C08", "C09"): more(pid, [J("e_req", 0, 0, 1, reach=[1, 4], bound="a request without statements"), J("e_req", 1, 0, 9, reach=[1, 2, 3, 4], bound="requests of one statement on a key that holds anything")])
more("C16", [J("e_octets", m, n, s, reach=[1, 5] + ([2, 4] if n > 1 else []), bound="%d bytes beyond ASCII, any, in a string of the body%s: accepted as they are exactly if UTF-8" % (n, ", split within" if s else "")) for m in (0, 1) for n in (1, 2, 3) for s in (0, 1)])
