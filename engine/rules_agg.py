"""Rules about the aggregators: C01, C02, C07-C14, C16, C31, C32, C34, C38, C39."""
from agg import *
def wh(e, fn): return at_ev(e) if e is not None and e.loc[0] != "?" else loc(fn)
NOPS = (0, 1, 2, 3)
DISPATCH = {}
LONG = 300
def long_low(w, v, st):
    """All operations are of LOW importance, none has an entry yet."""
    long_(w, v, st, LONG)
def long_(w, v, st, low):
    name = report_key()
    for i in range(LONG):
        v.assume(st, eq(get(T("op", i), "importance"), 0), i < low)
        if w.cache is not None and name: st.meta["in", w.cache, T("sigof", name, T("op", i))] = 0
def long_last(w, v, st):
    """Only the last operation is important."""
    long_(w, v, st, LONG - 1)
def report_key():
    for w, fn, v, res in runs("Report", "Report", 0, 1):
        for st in res:
            for e in cev(st, "lookup", "insert"):
                if is_t(e.key, "sigof"): return e.key.a[0]
def each(rep, kind, op, evict=2, n=None, conn=True, enabled=None, full=False, setup=None):
    """(world, fn, vm, state) of every path that returns."""
    got = 0
    for w, fn, v, res in runs(kind, op, evict, n, conn, full, setup):
        rep.use(v)
        for st in res:
            if st.status == "ret": got += 1
            elif "bound" in st.why: rep.ob("followed to the end", None, loc(fn), "a loop was not followed to its end")
            if st.status != "ret": continue
            if enabled is not None and (w.cache is not None) != enabled: continue
            yield w, fn, v, st
    if not got: rep.ob("the operation returns", None, "", "%s::%s: no path of it could be followed to its end" % (impl(kind), op))
def mains(kind): return [(MAIN[kind], n) for n in NOPS] if kind == "Report" else [(MAIN[kind], None)]
def allops(kind):
    for op in OPS[kind]:
        for n in (NOPS if kind == "Report" and op == "Report" else (None,)): yield op, n
def req(kind, n=None): return sized(n) if n is not None and kind == "Report" else T("ld", REQUEST)
def result(st, fn): return st.mem.get((RET, 0)) if fn.sret else st.ret
def code(st, fn): return models.scode(result(st, fn))
def cev(st, *ops): return [e for e in st.events if e.kind == "cache" and e.op in ops]
def accs(st, *ops): return [e for e in st.events if e.kind == "acc" and e.op in ops]
QUIET = ("size", "entries", "maxsize", "pinnedsize", "deferredsize", "deferredentries", "ageoflruiteminmicroseconds", "getlastusetime", "getinsertiontime", "stillinuse")
def effects(st):
    """What an operation did to the cache, the accumulators or the callback."""
    out = []
    for e in st.events:
        if e.kind == "cache" and e.op not in QUIET: out.append((e, "the cache (%s)" % e.op))
        elif e.kind == "evict": out.append((e, "the cache (an entry is given up)"))
        elif e.kind == "acc" and e.op in ("new", "merge"): out.append((e, "accumulated data"))
        elif e.kind == "acc-elem" and e.rw == "w": out.append((e, "a cache entry"))
        elif e.kind == "icall" and e.target is DELIVER: out.append((e, "the flush callback"))
    return out
def owner(p):
    """The cache entry or object something hangs below."""
    while True:
        b = base_off(p)[0] if isinstance(p, Term) else p
        if is_t(b, "ld"): p = b.a[0]; continue
        return b
def name_ok(kind, v, st): return v.decide(st, seq(T("ld", SNAME), get(T("ld", REQUEST), "service_name")))
def has_op(kind, v, st):
    if kind == "Report": return True
    return v.decide(st, has(T("ld", REQUEST), OPFIELD[kind]))
def low(kind, v, st, n):
    """Whether every operation of the request is of LOW importance: True, False, None."""
    if kind == "Quota": return True
    if kind == "Check": return v.decide(st, eq(get(get(T("ld", REQUEST), "operation"), "importance"), 0))
    r = True
    for i in range(n):
        d = v.decide(st, eq(get(T("op", i), "importance"), 0))
        if d is False: return False
        if d is None: r = None
    return r
def about(st, *fields):
    """Conditions of the path that mention a field of the request in a form the
    rules do not know."""
    fs = set(fields)
    known = set()
    for a, b in st.path:
        for t in subterms(a):
            if t.h == "fld" and len(t.a) > 1 and t.a[1] in fs and a.h not in ("seq", "has", "eq"): known.add(a)
    return known

# ------------------------------------------------------------------ C01, C02
def C01(rep):
    for kind in KINDS:
        cells = {}; entries = []; wr = set(); globs = []
        for op, n in allops(kind):
            for w, fn, v, st in each(rep, kind, op, 2, n, conn=False):
                inserted = set()
                for e in st.events:
                    if e.kind == "acc-self" and is_c(e.off):
                        cells.setdefault(e.off, []).append((e, fn, op))
                        if e.rw == "w": wr.add(e.off)
                    elif e.kind == "cache" and e.op not in ("new", "destroy"): entries.append((e, fn, op))
                    elif e.kind == "acc-elem" and e.elem.h == "elem": entries.append((e, fn, op))
                    elif e.kind == "acc-new" and e.elem in inserted: entries.append((e, fn, op))
                    elif e.kind == "acc" and is_t(owner(e.this), "elem"): entries.append((e, fn, op))
                    elif e.kind == "acc-glob": globs.append((e, fn, op))
                    if e.kind == "cache" and e.op == "insert" and not e.evicting: inserted.add(e.elem)
        def one(what, uses):
            locks = None
            for e, fn, op in uses: locks = set(e.held) if locks is None else locks & set(e.held)
            rep.sites += len(uses)
            if locks or not uses: rep.ob("one lock protects " + what[0], True); return
            # the lock most uses hold; the use without it is the culprit
            cnt = {}
            for e, fn, op in uses:
                for h in e.held: cnt[h] = cnt.get(h, 0) + 1
            best = max(cnt, key=lambda h: cnt[h]) if cnt else None
            e, fn, op = next(((e, fn, op) for e, fn, op in uses if best not in e.held), uses[0])
            rep.ob("one lock protects " + what[0], False, wh(e, fn), "%s: %s %s without holding %s" % (op, what[1], "is accessed" if best is not None else "is accessed by several operations", "the lock the other accesses hold" if best is not None else "any lock"), chain_of(e))
        for off in sorted(wr): one(("member state of the %s aggregator" % kind.lower(), "aggregator state at offset %d" % off), cells[off])
        one(("the cache and its entries of the %s aggregator" % kind.lower(), "the cache or one of its entries"), entries)
        for e, fn, op in globs:
            if e.rw == "w": rep.ob("no unprotected global state", bool(e.held), wh(e, fn), "%s: writes a global without holding a lock" % op, chain_of(e))
        rep.ob("no unprotected global state", True)
        if not entries: raise Missing("accesses to the %s cache" % kind.lower())

def C02(rep):
    for kind in KINDS:
        taken = {}; edges = {}; calls = []
        for op, n in allops(kind):
            for w, fn, v, st in each(rep, kind, op, 2, n):
                rep.ob("every lock is released on every way out", not st.held, loc(fn), "%s::%s: returns holding a lock" % (kind, op), path=path_of(st))
                for e in st.events:
                    if e.kind == "lock":
                        rec = e.get("recursive")
                        taken.setdefault(e.mutex, (rec, e, fn, op))
                        rep.ob("no lock is taken again by its holder", not e.again or rec, wh(e, fn), "%s::%s: takes a lock its thread already holds" % (kind, op), chain_of(e), path_of(st))
                        if not e.again:
                            for h in e.held:
                                if h is not e.mutex: edges.setdefault((h, e.mutex), (e, fn, op))
                    elif e.kind == "unlock":
                        rep.ob("only held locks are released", e.ok, wh(e, fn), "%s::%s: releases a lock it does not hold" % (kind, op), chain_of(e), path_of(st))
                for e in deliveries(st): calls.append((e, fn, op, st))
        for e, fn, op, st in calls:
            bad = [h for h in e.held if h in taken and not taken[h][0]]
            rep.ob("no call-out under a lock the call-out may need", not bad, wh(e, fn), "%s::%s: runs the flush callback while holding a lock that %s" % (kind, op, "every call back into %s::%s would block on" % (kind, taken[bad[0]][3]) if bad else ""), chain_of(e), path_of(st))
            for h in e.held:
                for m in taken:
                    if m is not h: edges.setdefault((h, m), (e, fn, op))
        for (a, b), (e, fn, op) in edges.items():
            rep.ob("locks are taken in one order", not path_between(edges, b, a), wh(e, fn), "%s::%s: takes two locks in the opposite order of another operation (or of a call from the flush callback)" % (kind, op), chain_of(e))
        if not calls: raise Missing("calls of the %s flush callback" % kind.lower())
        if not taken: rep.ob("locks exist", True)
def path_between(edges, a, b):
    seen = {a}; w = [a]
    while w:
        x = w.pop()
        if x is b: return True
        for (p, q) in edges:
            if p is x and q not in seen: seen.add(q); w.append(q)
    return False

# ------------------------------------------------------------------ C07, C08
def C07(rep):
    for kind in KINDS:
        k = 0
        for op, n in mains(kind):
            for w, fn, v, st in each(rep, kind, op, 2, n):
                nm, hs = name_ok(kind, v, st), has_op(kind, v, st)
                if nm is True and hs is True:
                    k += 1
                    rep.ob("well-formed requests are not rejected", v.decide(st, eq(code(st, fn), 3)) is not True, loc(fn), "%s: a well-formed request is answered INVALID_ARGUMENT" % kind, path=path_of(st)); continue
                bad = nm is False or hs is False
                unsure = not bad and (nm is None and odd(st, "service_name") or hs is None and odd(st, OPFIELD.get(kind)))
                if unsure and nm is None:
                    w_ = other_service(st)
                    if w_ is not None: unsure = False
                c = code(st, fn); fx = effects(st)
                why = "a request of another service" if nm is False else "a request without operation" if hs is False else "a request whose %s was not checked" % ("service name" if nm is not True else "operation")
                rep.ob("malformed requests are answered INVALID_ARGUMENT", True if c == 3 else None if unsure else False, loc(fn), "%s: %s is answered with code %s" % (kind, why, show(c)[:40]), path=path_of(st))
                rep.ob("malformed requests have no effect", True if not fx else None if unsure else False, wh(fx[0][0], fn) if fx else loc(fn), "%s: %s reaches %s" % (kind, why, fx[0][1] if fx else ""), chain_of(fx[0][0]) if fx else (), path_of(st))
        rep.ob("well-formed requests are accepted on some path", k > 0, loc(op_fn(kind, MAIN[kind])), "%s: no path accepts a request of the configured service" % kind)
def other_service(st):
    """A service name other than the configured one with which a request takes this path."""
    a, b = T("ld", SNAME), get(T("ld", REQUEST), "service_name")
    ws = words_for([x for x, _ in st.path if mentions(x, b) or mentions(x, a)])
    for own in ("library.sandbox.com", "lib"):
        for w in sorted(ws | {own + "x", "x" + own, own[:-1], own[1:], own.upper(), own + ".", "www." + own, own + own}):
            if w != own and admits(st.path, {a: own, b: w}) is True: return w
    return None
def odd(st, field):
    """The path tests the field in a form the rule does not know."""
    for a, b in st.path:
        for t in subterms(a):
            if any(x == field or x == "has:%s" % field for x in t.a if isinstance(x, str)): return True
    return False

def C08(rep):
    for kind in KINDS:
        by = 0
        for op, n, setup in [(op, n, None) for op, n in mains(kind)] + ([(MAIN[kind], LONG, long_last)] if kind == "Report" else []):
            for w, fn, v, st in each(rep, kind, op, 2, n, setup=setup):
                if name_ok(kind, v, st) is not True or has_op(kind, v, st) is not True: continue
                l = low(kind, v, st, n)
                if w.cache is not None and l is True: continue
                by += 1
                unsure = w.cache is not None and l is None and odd2(st, n)
                if unsure and high(kind, st, n): unsure = False
                what = "with the cache disabled a request" if w.cache is None else "a request with an operation of other than LOW importance" if l is False else "a request whose importance was not checked%s" % (" for every operation" if kind == "Report" else "")
                c = code(st, fn); fx = effects(st)
                rep.ob("bypassing requests are answered NOT_FOUND", True if c == 5 else None if unsure else False, loc(fn), "%s: %s is answered with code %s" % (kind, what, show(c)[:40]), path=path_of(st))
                rep.ob("bypassing requests leave the cache alone", True if not fx else None if unsure else False, wh(fx[0][0], fn) if fx else loc(fn), "%s: %s reaches %s" % (kind, what, fx[0][1] if fx else ""), chain_of(fx[0][0]) if fx else (), path_of(st))
        if not by: rep.ob("bypassing requests exist", None, "", kind)
def high(kind, st, n):
    """The path can be taken by a request with an operation of another importance."""
    ls = [get(get(T("ld", REQUEST), "operation"), "importance")] if kind == "Check" else [get(T("op", i), "importance") for i in range(n)]
    if len(ls) > 4: return False
    import itertools
    return any(any(vs) and admits(st.path, dict(zip(ls, vs))) is True for vs in itertools.product((0, 1, 2), repeat=len(ls)))
def odd2(st, n):
    for a, b in st.path:
        if a.h == "eq" and is_c(a.a[1]): continue
        for t in subterms(a):
            if any(x == "importance" for x in t.a if isinstance(x, str)): return True
    return False

# ------------------------------------------------------------------ C09, C38
def resp_cell(rep, kind):
    """Where a cache entry keeps the response: (offset) from what cached answers are."""
    offs = set()
    for w, fn, v, res in runs(kind, MAIN[kind], 0):
        for st in res:
            if st.status != "ret" or w.cache is None: continue
            x = st.mem.get((RESPONSE, 0))
            if is_t(x, "ld"):
                b, o = base_off(x.a[0])
                if is_t(b, "elem"): offs.add(o)
    return offs
def time_cells(kind):
    offs = set()
    for w, fn, v, res in runs(kind, MAIN[kind], 0):
        for st in res:
            for a, b in st.path:
                ls = leaves([a])
                if not any(l.h == "now" for l in ls): continue
                for l in ls:
                    if is_t(l, "ld"):
                        bb, o = base_off(l.a[0])
                        if is_t(bb, "elem"): offs.add(o)
    return offs
def opt(kind, name): return T("ld", P(OPTIONS, field_off(AGG_OPTS[kind], name)))
def lookups(st): return [e for e in st.events if e.kind == "cache" and e.op == "lookup"]
def cacheable(kind, w, v, st, n=None):
    return w.cache is not None and name_ok(kind, v, st) is True and has_op(kind, v, st) is True and low(kind, v, st, n) is True
BASE = 10 ** 12
def C09(rep):
    rc, tc = resp_cell(rep, "Check"), time_cells("Check")
    F = opt("Check", "flush_interval_ms")
    if len(rc) != 1 or len(tc) != 1:
        fn = op_fn("Check", "Check")
        if not rc: rep.ob("cached answers come from the entry", False, loc(fn), "Check: no path answers with the response of the cache entry")
        elif not tc: rep.ob("the age of the response decides", False, loc(fn), "Check: no path compares the age of the cached response with the current time")
        else: rep.ob("roles of the entry's members", None, loc(fn), "the entry's response and time could not be told apart")
        return
    rc, tc = rc.pop(), tc.pop()
    want_key = None
    hits = {"due": 0, "fresh": 0}
    for w, fn, v, st in each(rep, "Check", "Check", 0, enabled=True):
        if not cacheable("Check", w, v, st): continue
        ls = lookups(st)
        rep.ob("the cache is asked under the request's key", bool(ls) and all(is_t(l.key, "sigof") and l.key.a[1] is T("ld", REQUEST) for l in ls), wh(ls[0] if ls else None, fn), "Check: the cache is asked for %s" % [show(l.key)[:80] for l in ls], path=path_of(st))
        if not ls: continue
        e = ls[-1].elem; c = code(st, fn); ac = accs(st, "new", "merge")
        if not isinstance(e, Term):
            rep.ob("no cached response: NOT_FOUND", c == 5, loc(fn), "Check: without a cached response the answer is %s" % show(c)[:40], path=path_of(st))
            rep.ob("no cached response: nothing is accumulated", not ac and not cev(st, "insert"), wh((ac + [None])[0], fn), "Check: without a cached response the request is accumulated or stored", path=path_of(st))
            continue
        r0 = T("ld", P(e, rc)); t0 = T("ld", P(e, tc))
        errs = size(get(r0, "check_errors"))
        for f in (1, 7, 500, 1000, 60000):
            for age, due in ((0, False), (1, f * 1000 <= 1), (f * 1000 - 1, False), (f * 1000, True), (f * 1000 + 1, True), (f * 1000 * 50 + 3, True)):
                for ne in (0, 1, 3):
                    env = {F: f, t0: BASE - age, errs: ne}
                    for i in range(8): env[T("now", i)] = BASE
                    if holds(st.path, env) is False: continue
                    hits["due" if due else "fresh"] += 1
                    what = "a response %d us old with a flush interval of %d ms and %s check errors" % (age, f, "no" if not ne else "some")
                    if due:
                        rep.ob("a due response is refreshed", c == 5, loc(fn), "Check: %s is answered with code %s instead of NOT_FOUND" % (what, show(c)[:40]), path=path_of(st))
                        t1 = v.load(st, P(e, tc))
                        try: ok = evalt(t1, env) == BASE
                        except Unk: ok = None
                        rep.ob("a refresh restarts the interval", ok, loc(fn), "Check: %s: the time of the entry becomes %s" % (what, show(t1)[:60]), path=path_of(st))
                    else:
                        rep.ob("a fresh response is the answer", c == 0, loc(fn), "Check: %s is answered with code %s instead of OK" % (what, show(c)[:40]), path=path_of(st))
                        rep.ob("the answer is exactly the cached response", st.mem.get((RESPONSE, 0)) is r0, loc(fn), "Check: the caller gets %s" % show(st.mem.get((RESPONSE, 0)))[:80], path=path_of(st))
                        rep.ob("a cached answer leaves the time alone", v.load(st, P(e, tc)) is t0, loc(fn), "Check: %s: answering from the cache changes the time of the entry" % what, path=path_of(st))
                        rep.ob("operations are accumulated exactly when the response has no errors", len(ac) == (0 if ne else 1) and all(a.vals and a.vals[0] is get(T("ld", REQUEST), "operation") and owner(a.this) in (e, owner(v.load(st, a.this)) if False else owner(a.this)) for a in ac),
                               wh(ac[0] if ac else None, fn), "Check: %s: the operation is accumulated %d times" % (what, len(ac)), path=path_of(st))
                    if ne: rep.ob("operations are not accumulated under an error response", not ac, wh(ac[0] if ac else None, fn), "Check: %s: the operation is accumulated" % what, path=path_of(st))
        rep.ob("the cached response is kept", v.load(st, P(e, rc)) is r0, loc(fn), "Check: changes the cached response", path=path_of(st))
        for a in ac:
            hold = a.this
            cells = [o for (b, o), x in st.mem.items() if b is e and x is hold] if is_t(hold, "new") else None
            rep.ob("the accumulator belongs to the entry", owner(hold) is e or bool(cells), wh(a, fn), "Check: the operation is accumulated outside the entry found", path=path_of(st))
        rep.ob("the entry stays in the cache", not cev(st, "remove", "insert", "clear"), loc(fn), "Check: a check changes which entries are cached", path=path_of(st))
    for k in hits: rep.ob("%s responses are distinguished" % k, hits[k] > 0, loc(op_fn("Check", "Check")), "Check: no path answers %s responses" % k)

def C38(rep):
    rc, tc = resp_cell(rep, "Check"), time_cells("Check")
    names = {e.key.a[0] for w, fn, v, st in each(rep, "Check", "Check", 0, enabled=True) for e in lookups(st) if is_t(e.key, "sigof")}
    def roles(fn):
        if len(rc) == 1 and len(tc) == 1: return next(iter(rc)), next(iter(tc))
        rep.ob("roles of the entry's members", None, loc(fn), "the entry's response and time could not be told apart"); return None, None
    for w, fn, v, st in each(rep, "Check", "CacheResponse", 0):
        rep.ob("delivering a response reports no error", v.decide(st, eq(code(st, fn), 0)), loc(fn), "Check: CacheResponse returns %s" % show(code(st, fn))[:40], path=path_of(st))
        if w.cache is None:
            fx = effects(st)
            rep.ob("with the cache disabled nothing is stored", not fx, wh(fx[0][0] if fx else None, fn), "Check: CacheResponse uses a disabled cache", path=path_of(st)); continue
        keys = [e.key for e in cev(st, "lookup", "insert", "remove")]
        rep.ob("stored under the key requests are looked up with", bool(keys) and all(is_t(k, "sigof") and k.a[0] in names and k.a[1] is T("ld", REQUEST) for k in keys), wh((cev(st, "insert", "lookup") + [None])[0], fn), "Check: CacheResponse uses the key %s" % [show(k)[:80] for k in keys], path=path_of(st))
        now = [k for k in st.meta if isinstance(k, tuple) and k[0] == "in" and isinstance(st.meta[k], Term)]
        rep.ob("afterwards exactly one entry holds the response", len(now) == 1, loc(fn), "Check: after CacheResponse %d entries are known under the key" % len(now), path=path_of(st))
        if len(now) != 1: continue
        e = st.meta[now[0]]
        r, t = roles(fn)
        if r is None: continue
        rep.ob("the response stored is the one delivered", v.load(st, P(e, r)) is T("ld", RESPONSE), loc(fn), "Check: CacheResponse stores %s" % show(v.load(st, P(e, r)))[:80], path=path_of(st))
        tv = v.load(st, P(e, t))
        try: ok = evalt(tv, {T("now", i): BASE for i in range(8)}) == BASE
        except Unk: ok = False
        rep.ob("the response counts as fresh from its arrival", ok, loc(fn), "Check: CacheResponse sets the time of the entry to %s" % show(tv)[:60], path=path_of(st))
        found = [x for x in lookups(st) if isinstance(x.elem, Term)]
        ins = cev(st, "insert")
        rep.ob("a new entry is inserted exactly when there was none", len(ins) == (0 if e.h == "elem" else 1), wh(ins[0] if ins else None, fn), "Check: CacheResponse inserts %d entries" % len(ins), path=path_of(st))
        if found: rep.ob("the existing entry is updated", e.h == "elem" or bool(ins), loc(fn), "Check: CacheResponse leaves the existing entry", path=path_of(st))
    qr = resp_cell(rep, "Quota")
    for w, fn, v, st in each(rep, "Quota", "CacheResponse", 0):
        rep.ob("delivering a response reports no error", v.decide(st, eq(code(st, fn), 0)), loc(fn), "Quota: CacheResponse returns %s" % show(code(st, fn))[:40], path=path_of(st))
        if w.cache is None:
            fx = effects(st)
            rep.ob("with the cache disabled nothing is stored", not fx, wh(fx[0][0] if fx else None, fn), "Quota: CacheResponse uses a disabled cache", path=path_of(st)); continue
        ls = lookups(st)
        qn = {e.key.a[0] for w2, f2, v2, res in runs("Quota", "Quota", 0) for s in res for e in cev(s, "lookup", "insert") if is_t(e.key, "sigof")}
        rep.ob("stored under the key requests are looked up with", bool(ls) and all(is_t(k.key, "sigof") and k.key.a[0] in qn and k.key.a[1] is T("ld", REQUEST) for k in ls), wh(ls[0] if ls else None, fn), "Quota: CacheResponse uses the key %s" % [show(k.key)[:80] for k in ls], path=path_of(st))
        if not ls: continue
        e = ls[-1].elem
        if not isinstance(e, Term): continue
        if len(qr) != 1: rep.ob("roles of the entry's members", None, loc(fn), "the entry's response could not be identified"); continue
        x = v.load(st, P(e, next(iter(qr))))
        rep.ob("the response stored is the one delivered", x is T("ld", RESPONSE), loc(fn), "Quota: CacheResponse stores %s" % show(x)[:80], path=path_of(st))
        rep.ob("the entry stays in the cache", st.meta.get(("in", w.cache, ls[-1].key)) is e, loc(fn), "Quota: CacheResponse takes the entry out of the cache", path=path_of(st))

# ------------------------------------------------------------------ C10
def C10(rep):
    for op, n, evs, setup in [(op, n, (0, 1), None) for op, n in mains("Report")] + [(MAIN["Report"], LONG, (0,), long_low)]:
        for ev in evs:
            for w, fn, v, st in each(rep, "Report", op, ev, n, enabled=True, setup=setup):
                if name_ok("Report", v, st) is not True or code(st, fn) == 5: continue
                if low("Report", v, st, n) is not True: continue
                rep.ob("an accepted report is answered OK", code(st, fn) == 0, loc(fn), "Report: an accepted report is answered with %s" % show(code(st, fn))[:40], path=path_of(st))
                takes = accs(st, "new", "merge")
                for i in range(n):
                    o = T("op", i)
                    mine = [a for a in takes if a.vals and a.vals[0] is o]
                    rep.ob("each operation is taken exactly once", len(mine) == 1, wh(mine[1] if len(mine) > 1 else None, fn), "Report: operation %d of %d is taken %d times" % (i, n, len(mine)), path=path_of(st))
                    if len(mine) != 1: continue
                    a = mine[0]; at = st.events.index(a)
                    key = lambda k: is_t(k, "sigof") and k.a[1] is o
                    if a.op == "new":
                        x = owner(a.this)
                        ins = [e for e in st.events[at:] if e.kind == "cache" and e.op == "insert" and not e.evicting and holds_obj(st, e.elem, a.this)]
                        rep.ob("a new aggregate is stored once under its key", len(ins) == 1 and key(ins[0].key), wh(ins[1] if len(ins) > 1 else a, fn), "Report: the aggregate made for operation %d is stored %d times%s" % (i, len(ins), "" if len(ins) != 1 else " under another key"), path=path_of(st))
                        if ins: rep.ob("a new aggregate replaces nothing", ins[0].known in (0, None), wh(ins[0], fn), "Report: storing operation %d replaces the entry other operations were merged into" % i, path=path_of(st))
                    else:
                        ls = [e for e in st.events[:at] if e.kind == "cache" and e.op == "lookup" and isinstance(e.elem, Term) and (e.elem is owner(a.this) or holds_obj(st, e.elem, a.this))]
                        rep.ob("operations are merged into the entry of their key", bool(ls) and key(ls[-1].key), wh(a, fn), "Report: operation %d is merged into an entry found under another key" % i, path=path_of(st))
                        if not ls: continue
                        big = [e for e in st.events[at:] if e.kind == "acc" and e.op == "toobig" and e.this is a.this]
                        rep.ob("the size is checked after merging", bool(big), wh(a, fn), "Report: after merging operation %d the entry's size is not checked" % i, path=path_of(st))
                        if not big: continue
                        val = v.decide(st, ne(big[-1].ret, 0)) if big[-1].get("ret") is not None else None
                        rm = [e for e in st.events[st.events.index(big[-1]):] if e.kind == "cache" and e.op == "remove" and key(e.key)]
                        if val is True:
                            rep.ob("an entry that grew too big leaves the cache", len(rm) >= 1, wh(a, fn), "Report: the entry operation %d was merged into is too big but stays in the cache" % i, path=path_of(st))
                            nxt = next((st.events.index(e) for e in st.events[at + 1:] if e.kind == "acc" and e.op in ("new", "merge")), len(st.events))
                        elif val is False:
                            rep.ob("other entries stay", len(rm) == 0 or any(e.kind == "acc" and e.op == "merge" for e in st.events[st.events.index(big[-1]):]), wh(rm[0] if rm else a, fn), "Report: an entry is removed although it is not too big", path=path_of(st))
                        else: rep.ob("the size decides", None if rm else False, wh(a, fn), "Report: the size of the entry operation %d was merged into is ignored" % i, path=path_of(st))
                rep.ob("nothing else is taken", len(takes) == n or any(a.vals and not is_t(a.vals[0], "op") for a in takes) is False, wh((takes + [None])[0], fn), "Report: something other than the report's operations is merged", path=path_of(st))
                rep.ob("the caller's operations are all that is dropped or kept", not cev(st, "clear", "expire"), loc(fn), "Report: a report flushes the cache", path=path_of(st))
def holds_obj(st, e, x):
    """The cache entry e is, or keeps, the object x."""
    if e is x or owner(x) is e: return True
    return any(b is e and val is x for (b, o), val in st.mem.items())

# ------------------------------------------------------------------ C11, C16
def flat_ops(x):
    """The operations of a report item, in order; None when they are not known one by one."""
    if is_t(x, "mergefrom"):
        a, b = flat_ops(x.a[0]), flat_ops(x.a[1])
        return None if a is None or b is None else a + b
    l = get(x, "operations")
    return flat_list(l)
def flat_list(l):
    if is_t(l, "nil"): return []
    if is_t(l, "append"):
        r = flat_list(l.a[0]); return None if r is None else r + [l.a[1]]
    if is_t(l, "list"): return list(l.a[0])
    if is_t(l, "concat"):
        a, b = flat_list(l.a[0]), flat_list(l.a[1]); return None if a is None or b is None else a + b
    if is_t(l, "empty"): return []
    return None
def field(x, f):
    """A text field of an item that may have been merged from others."""
    if is_t(x, "mergefrom"):
        a, b = field(x.a[0], f), field(x.a[1], f)
        return a if a is b else get(x, f)
    return get(x, f)
def acc_roles(kind):
    """Offsets of a cache entry that hold the accumulator (0 = the entry itself)."""
    offs = set()
    for op, n in mains(kind):
        for w, fn, v, res in runs(kind, op, 0, n):
            for st in res:
                for e in accs(st, "merge"):
                    t = e.this
                    if is_t(t, "ld"):
                        b, o = base_off(t.a[0])
                        if is_t(b, "elem"): offs.add(o)
                    elif is_t(t, "elem"): offs.add(None)
    return offs
BATCHES = (2, 3, 10, 11, 12, 25)
MANY = (130, 520)
def C11(rep):
    for kind in ("Check", "Report"):
        roles = acc_roles(kind)
        if len(roles) != 1: rep.ob("where entries keep their data", None, "", "%s: %s" % (kind, roles)); continue
        off = next(iter(roles))
        todo = [(op, n, 3 if kind == "Check" else m, False) for op, n in allops(kind) for m in (BATCHES if kind == "Report" and op in ("FlushAll", "Flush") else (2,))]
        todo += [("FlushAll", None, m, False if off is None else off) for m in MANY]
        for op, n, m, full in todo:
            for w, fn, v, st in each(rep, kind, op, m, n, full=full):
                due = []       # (accumulator, version, event)
                vers = {}
                for e in st.events:
                    if e.kind == "acc" and e.op in ("new", "merge"): vers[e.this] = vers.get(e.this, 0) + 1
                    if e.kind == "evict":
                        if off is None: a = e.elem
                        else: a = e.snap.get(off, T("ld", P(e.elem, off)))
                        if a == 0: continue
                        p = v.decide(st, ne(a, 0)) if isinstance(a, Term) and a.h not in ("new",) and off is not None else True
                        if e.elem in st.meta.get("back", ()): continue
                        due.append((a, vers.get(a, 0), e, p))
                ds = deliveries(st)
                got = []
                for d in ds:
                    item = d.argvals[0]
                    if kind == "Check":
                        got.append((get(item, "operation"), d)); continue
                    ops = flat_ops(item)
                    if ops is None: rep.ob("the contents of a batch are known", None, wh(d, fn), show(item)[:120]); got = None; break
                    rep.ob("a batch has at most ten operations", len(ops) <= 10, wh(d, fn), "%s::%s: a flushed request carries %d operations" % (kind, op, len(ops)), path=path_of(st))
                    got += [(x, d) for x in ops]
                if got is None: continue
                for a, ver, e, p in due:
                    mine = [x for x in got if is_t(x[0], "accumulated") and x[0].a[0] is a]
                    if p is False: rep.ob("entries without data are not sent", not mine, wh(mine[0][1] if mine else e, fn), "%s::%s: an entry without accumulated data is sent" % (kind, op), path=path_of(st)); continue
                    rep.ob("every aggregate given up is delivered exactly once", len(mine) == 1, wh(e, fn), "%s::%s: data of a cache entry that is given up (%d of %d entries) is delivered %d times" % (kind, op, due.index((a, ver, e, p)) + 1, len(due), len(mine)), path=path_of(st))
                    for x in mine: rep.ob("what is delivered is complete", x[0].a[1] == ver, wh(x[1], fn), "%s::%s: the data delivered is not the latest" % (kind, op), path=path_of(st))
                for x, d in got:
                    rep.ob("only data of entries given up is delivered", is_t(x, "accumulated") and any(x.a[0] is a for a, _, _, _ in due), wh(d, fn), "%s::%s: delivers %s" % (kind, op, show(x)[:80]), path=path_of(st))
    merge_rule(rep)
def merge_rule(rep):
    """MergeItem of the report aggregator, for arbitrary items."""
    cls = impl("Report")
    fs = [f for f in program().find(cls + "::MergeItem") if not f.decl]
    if not fs: return
    f = fs[0]
    new, old = T("arg", "new_item"), T("arg", "old_item")
    v = new_vm(boundaries(0))
    st = State(); st.meta["x"] = 0
    res = v.analyse(f, [T("arg", "this"), new, old])
    rep.use(v)
    X, O = T("ld", new), T("ld", old)
    sa, sb = size(get(O, "operations")), size(get(X, "operations"))
    for st in res:
        if st.status != "ret": continue
        fin = v.load(st, old)
        merged = fin is not O
        for r in ((0,), (1,)):
            val = st.ret
            if v.decide(st, ne(val, 0)) is (r[0] == 0): continue
            if r[0] == 0:
                rep.ob("a batch that refuses an item is left alone", not merged, loc(f), "an item that is not merged changes the batch", path=path_of(st)); continue
            want = mergefrom_(O, X)
            okm = fin is want or contains(fin, O, X) or added(fin, O, X)
            rep.ob("a merged item is added in full", okm, loc(f), "merging leaves %s" % show(fin)[:120], path=path_of(st))
            same = v.decide(st, seq(get(O, "service_name"), get(X, "service_name")))
            rep.ob("only items of one service are merged", True if same else None if same is None and odd(st, "service_name") else False, loc(f), "items of different services are merged", path=path_of(st))
            for a in range(0, 13):
                for b in range(0, 13):
                    if a + b <= 10: continue
                    hd = holds(st.path, {sa: a, sb: b})
                    if hd is False: continue
                    rep.ob("a batch has at most ten operations", None if hd is None and unknown_sizes(st, {sa: a, sb: b}) else False, loc(f), "an item of %d operations is merged into a batch of %d" % (b, a), path=path_of(st))
        for k in st.events:
            if k.kind == "free": rep.ob("merging frees nothing", False, wh(k, f), "merging frees an object")
def unknown_sizes(st, env):
    """Some condition of the path depends on sizes in a way that cannot be evaluated."""
    for a, b in st.path:
        if any(t.h == "size" for t in subterms(a)):
            try: evalt(a, env)
            except (Unk, TypeError): return True
    return False
def mergefrom_(o, x): return mergefrom(o, x, REQ["Report"])
def added(fin, O, X):
    """Field by field: the operations one after the other, the rest from either."""
    if get(fin, "operations") is not concat(get(O, "operations"), get(X, "operations")): return False
    return all(any(get(fin, f) is get(y, f) for y in (O, X)) for f in ("service_name", "service_config_id"))
def contains(fin, O, X): return is_t(fin, "mergefrom") and fin.a[0] is O and fin.a[1] is X

def C16(rep):
    for kind in KINDS:
        k = 0
        for op, n in allops(kind):
            for w, fn, v, st in each(rep, kind, op, 2, n):
                for d in deliveries(st):
                    item = d.argvals[0]
                    if not any(t.h == "accumulated" for t in subterms(item)): continue
                    k += 1
                    for f, src in (("service_name", SNAME), ("service_config_id", CONFIG)):
                        x = field(item, f)
                        rep.ob("rebuilt requests carry the configured " + f, x is T("ld", src), wh(d, fn), "%s::%s: the %s of a rebuilt request is %s" % (kind, op, f, show(x)[:60]), path=path_of(st))
        if not k: rep.ob("rebuilt requests exist", None, "", kind)
    import rules_client
    rules_client.C16client(rep)

# ------------------------------------------------------------------ C31
def C31(rep):
    for kind in KINDS:
        own, kept = signature_cells(kind)
        for op, n in allops(kind):
            for w, fn, v, st in each(rep, kind, op, 2, n):
                givens = {}
                for i, e in enumerate(st.events):
                    if e.kind == "evict": givens.setdefault(e.elem, []).append(i)
                for x, at in givens.items():
                    frees = [e for e in st.events[at[0]:] if e.kind == "free" and e.ptr is x]
                    puts = [e for e in st.events[at[0]:] if e.kind == "cache" and e.op == "insert" and e.elem is x]
                    rep.ob("an entry given up is freed or put back exactly once", len(frees) + len(puts) == len(at) and len(frees) <= 1, wh((frees + puts)[1] if len(frees + puts) > 1 else st.events[at[0]], fn),
                           "%s::%s: an entry given up (%s) is freed %d times and put back %d times" % (kind, op, why_of(x), len(frees), len(puts)), path=path_of(st))
                    for p in puts:
                        good = any(p.key is st.mem.get((x, o), T("ld", P(x, o))) for o in own) if own else None
                        lost = next((kept[o] for o in kept if kept[o] and p.key is T("ld", P(x, o))), None)
                        if lost:
                            rep.ob("an entry is put back under its own key", False, wh(lost[0], fn), "%s::%s: an entry stored on this path does not note its key, under which it is put back later" % (kind, op), chain_of(lost[0]), path_of(lost[1])); continue
                        rep.ob("an entry is put back under its own key", True if good else None if good is None else False, wh(p, fn), "%s::%s: an entry is put back under %s" % (kind, op, show(p.key)[:80]), path=path_of(st))
                        rep.ob("an entry is put back only if there is room", room(v, st, kind), wh(p, fn), "%s::%s: an entry is put back although the cache may be full" % (kind, op), chain_of(p), path_of(st))
                for e in st.events:
                    if e.kind == "use-after-free": rep.ob("no use after free", not entry_like(e.ptr), wh(e, fn), "%s::%s: a freed entry is used" % (kind, op), chain_of(e), path_of(st))
                    if e.kind == "free":
                        rep.ob("nothing is freed twice", not e.again, wh(e, fn), "%s::%s: frees an object twice" % (kind, op), chain_of(e), path_of(st))
                        i = st.events.index(e)
                        incache = e.ptr.h == "elem" or any(x.kind == "cache" and x.op == "insert" and x.elem is e.ptr for x in st.events[:i])
                        if incache: rep.ob("entries in the cache are not freed", e.ptr in givens and givens[e.ptr][0] < i, wh(e, fn), "%s::%s: frees an entry that is still in the cache" % (kind, op), chain_of(e), path_of(st))
                    if e.kind == "cache" and e.op == "insert" and e.elem not in givens:
                        rep.ob("an entry is put in once", sum(1 for x in st.events if x.kind == "cache" and x.op == "insert" and x.elem is e.elem) == 1, wh(e, fn), "%s::%s: an entry is put into the cache twice" % (kind, op), path=path_of(st))
def why_of(x): return {"expired": "expired", "capacity": "the cache was full", "clear": "full flush", "expire": "flush"}.get(x.a[1], "") if is_t(x, "evicted") else "removed"
def entry_like(p): return is_t(p) and p.h in ("elem", "evicted", "new")
def signature_cells(kind):
    """Offsets at which an entry keeps the key it was stored under."""
    if kind != "Quota": return set(), {}
    r = None; some = set(); without = {}
    for w, fn, v, res in runs(kind, MAIN[kind], 0):
        for st in res:
            for e in cev(st, "insert"):
                cs = {o for (b, o), x in st.mem.items() if b is e.elem and x is e.key}
                r = cs if r is None else r & cs
                some |= cs; without[w, id(e)] = (e, st, cs)
    return r or set(), {o: next(((e, st) for e, st, cs in without.values() if o not in cs), None) for o in some}
def room(v, st, kind):
    """The path is impossible when the cache holds as many entries as it may."""
    sizes = [t for a, b in st.path for t in subterms(a) if t.h.startswith("cache-")]
    if not sizes: return False
    for num in (1, 2, 1000):
        for over in (0, 1):
            env = {opt(kind, "num_entries"): num}
            for s in sizes: env[s] = num + over
            for s in sizes:
                if s.h in ("cache-maxsize",): env[s] = num
            h = holds([(a, b) for a, b in st.path if any(t in env for t in subterms(a))], env)
            if h is not False: return None if h is None else False
    return True

# ------------------------------------------------------------------ C39, C32, C34
def C39(rep):
    for kind in KINDS:
        for op, want, other in (("Flush", "expire", "clear"), ("FlushAll", "clear", "expire")):
            for w, fn, v, st in each(rep, kind, op, 2):
                rep.ob("flushing reports success", v.decide(st, eq(code(st, fn), 0)), loc(fn), "%s::%s returns %s" % (kind, op, show(code(st, fn))[:40]), path=path_of(st))
                a, b = cev(st, want), cev(st, other)
                if w.cache is None:
                    fx = effects(st)
                    rep.ob("a disabled cache is left alone", not fx, wh(fx[0][0] if fx else None, fn), "%s::%s uses a disabled cache" % (kind, op)); continue
                rep.ob("a %s drops exactly what it should" % ("flush" if op == "Flush" else "full flush"), len(a) == 1 and (not b or op == "FlushAll"), wh((b or a or [None])[0], fn),
                       "%s::%s: asks the cache %d times to drop %s entries and %d times to drop %s ones" % (kind, op, len(a), "expired" if want == "expire" else "all", len(b), "all" if want == "expire" else "expired"), path=path_of(st))
                rep.ob("nothing else leaves the cache", not cev(st, "remove"), wh((cev(st, "remove") + [None])[0], fn), "%s::%s: removes single entries" % (kind, op), path=path_of(st))
                if op == "FlushAll":
                    ins = cev(st, "insert")
                    rep.ob("a full flush puts nothing back", not ins, wh(ins[0] if ins else None, fn), "%s::FlushAll: puts an entry back into the cache" % kind, path=path_of(st))

def dtor_runs(kind):
    key = ("dtor", kind)
    if key in _c: return _c[key]
    out = []
    cls = impl(kind)
    s = cls.split("::")[-1]
    fs = [f for f in program().find(cls + "::~" + s) if not f.decl]
    if not fs: _c[key] = []; return []
    f = next((f for f in fs if "D2" in f.name), fs[0])
    for w in worlds(kind) + connected(kind):
        v = new_vm(boundaries(2)); v.acc = watcher(w); v.unroll = UNROLL
        st = w.st.clone(); st.events = []; st.path = []; st.frames = []; st.status = "run"; st.pending = None
        v.push(st, f, [w.obj], None, T("root", f.name, 0))
        out.append((w, f, v, v.run(st))); v.acc = None
    _c[key] = out
    return out
import agg
_c = agg._c
def C32agg(rep):
    for kind in KINDS:
        rs = dtor_runs(kind)
        if not rs: rep.ob("the destructor is known", None, "", impl(kind)); continue
        k = 0
        for w, fn, v, res in rs:
            rep.use(v)
            for st in res:
                if st.status != "ret": continue
                k += 1
                calls = [e for e in st.events if e.kind == "icall" and (e.target is DELIVER or flush_type(kind, e))]
                rep.ob("a dying aggregator never calls out", not calls, wh(calls[0] if calls else None, fn), "~%s: the flush callback is called" % impl(kind).split("::")[-1], chain_of(calls[0]) if calls else (), path_of(st))
                uaf = [e for e in st.events if e.kind == "use-after-free"]
                rep.ob("a dying aggregator uses no freed entry", not uaf, wh(uaf[0] if uaf else None, fn), "~%s: a freed entry is used" % impl(kind).split("::")[-1])
                for x in [e.elem for e in st.events if e.kind == "evict"]:
                    rep.ob("entries are freed", sum(1 for e in st.events if e.kind == "free" and e.ptr is x) == 1 or any(e.kind == "cache" and e.op == "insert" and e.elem is x for e in st.events), loc(fn), "~%s: an entry is not freed exactly once" % impl(kind).split("::")[-1])
        rep.ob("the destructor returns", True if k else None, "", kind)
def flush_type(kind, e):
    return REQ[kind].split("::")[-1] + " const&)" in e.get("sig", "") and "void (" in e.get("sig", "")

OPT_INTERVAL = {"Check": "expiration_ms", "Quota": "refresh_interval_ms", "Report": "flush_interval_ms"}
def C33agg(rep):
    for kind in KINDS:
        for w, fn, v, st in each(rep, kind, "GetNextFlushInterval", 0):
            if w.cache is None: rep.ob("a disabled cache asks for no flush", st.ret == -1 or v.decide(st, lt(st.ret, 0)) is True, loc(fn), "%s: with the cache disabled the interval is %s" % (kind, show(st.ret)[:60]), path=path_of(st)); continue
            good = True
            for x in (1, 500, 2 ** 31 - 1):
                env = {T("ld", P(OPTIONS, field_off(AGG_OPTS[kind], f))): x + 7 * i + 7 for i, f in enumerate(fields_of(kind))}
                env[opt(kind, OPT_INTERVAL[kind])] = x
                if holds(st.path, env) is False: continue
                try: good = good and evalt(st.ret, env) == x
                except Unk: good = None; break
            rep.ob("the flush interval is the right option", good, loc(fn), "%s: the interval is %s" % (kind, show(st.ret)[:80]), path=path_of(st))
def fields_of(kind): return [n for o, n, t, ow in program().fields(AGG_OPTS[kind])]
def C33(rep):
    import rules_client
    rules_client.C33client(rep); C33agg(rep)
def C32(rep):
    import rules_client
    rules_client.C32client(rep); C32agg(rep)

TIMEOUT = {"Check": ("setmaxidleseconds", "expiration_ms"), "Quota": ("setagebasedeviction", "refresh_interval_ms"), "Report": ("setagebasedeviction", "flush_interval_ms")}
def C34(rep):
    for kind in KINDS:
        f, v, res = factory(kind); rep.use(v)
        num = opt(kind, "num_entries")
        seen = 0
        rows = [st for st in res if st.status == "ret"]
        for n in (-2147483648, -1, 0, 1, 2, 10000, 2147483647):
            for st in rows:
                if holds(st.path, {num: n}) is False: continue
                seen += 1
                new = [e for e in cev(st, "new")]
                rep.ob("a cache exists exactly when it may hold entries", len(new) == (1 if n > 0 else 0), wh(new[0] if new else None, f), "%s: with num_entries = %d, %d caches are made" % (kind, n, len(new)), path=path_of(st))
                for e in new:
                    if n <= 0: continue
                    try: u = evalt(e.units, {num: n})
                    except Unk: u = None
                    rep.ob("the cache holds as many entries as the options allow", None if u is None else u == n, wh(e, f), "%s: with num_entries = %d the cache holds %s" % (kind, n, u), path=path_of(st))
        if not seen: rep.ob("a cache exists exactly when it may hold entries", None, loc(f))
        op, field = TIMEOUT[kind]
        for st in rows:
            if not cev(st, "new"): continue
            sets = cev(st, "setmaxidleseconds", "setagebasedeviction", "setmaxsize")
            sets = [e for e in st.events if e.kind == "cache" and e.op.lower().startswith("set")]
            rep.ob("entries expire the documented way", len(sets) == 1 and sets[0].op.lower() == op, wh(sets[-1] if sets else None, f), "%s: the cache is configured by %s" % (kind, [e.op for e in sets]), path=path_of(st))
            for e in sets:
                if e.op.lower() != op: continue
                for ms in (1, 3, 7, 333, 999, 1000, 1500, 86400001, 2147483647):
                    env = {T("ld", P(OPTIONS, field_off(AGG_OPTS[kind], g))): 5 for g in fields_of(kind)}
                    env[opt(kind, field)] = ms
                    try: s = evalt(e.arg, env)
                    except Unk: rep.ob("the lifetime is the right option, without loss", None, wh(e, f), show(e.arg)[:80]); break
                    rep.ob("the lifetime is the right option, without loss", abs(s * 1000 - ms) <= 1e-9 * ms, wh(e, f), "%s: %d ms become %s s" % (kind, ms, s))
        for o, n in allops(kind):
            for w, fn, vv, st in each(rep, kind, o, 2, n):
                for e in cev(st, "insert"): rep.ob("every entry counts one", e.units == 1, wh(e, fn), "%s::%s: an entry is inserted with %s units" % (kind, o, show(e.units)[:40]), path=path_of(st))
                for e in st.events:
                    if e.kind == "cache" and e.op.lower().startswith("set"): rep.ob("the limits stay", False, wh(e, fn), "%s::%s: changes the limits of the cache" % (kind, o), path=path_of(st))
    options(rep)
    import rules_client
    rules_client.C34client(rep)
CTORS = {"check3": ("Check", ("num_entries", "flush_interval_ms", "expiration_ms")), "quota3": ("Quota", ("num_entries", "refresh_interval_ms", "expiration_interval_ms")),
         "quota2": ("Quota", ("num_entries", "refresh_interval_ms")), "report2": ("Report", ("num_entries", "flush_interval_ms")), "check0": ("Check", ())}
def options(rep):
    for name, (kind, params) in CTORS.items():
        fs = program().find("verif_types::" + name)
        if not fs: raise Missing("constructor of " + AGG_OPTS[kind])
        v = new_vm({})
        args = [T("arg", p) for p in params]
        res = [s for s in v.analyse(fs[0], args) if s.status == "ret"]
        rep.use(v)
        cfn = loc(fs[0])
        def val(st, f, env):
            x = st.mem.get((st.ret, field_off(AGG_OPTS[kind], f)))
            return evalt(x, env)
        samples = [(5, 500, 1000), (5, 1000, 500), (0, 500, 500), (-3, 500, 501), (7, 0, 0), (7, -1, -5), (9, 2147483646, 0), (9, 1, 2147483647), (10000, 600, 601)]
        for s in samples if params else [()]:
            env = dict(zip(args, s))
            for st in res:
                if holds(st.path, env) is False: continue
                try:
                    for p, a in zip(params, s):
                        if name == "check3" and p == "expiration_ms": continue
                        rep.ob("options are what they were given", val(st, p, env) == a, cfn, "%s options: %s becomes %s" % (kind, p, val(st, p, env)))
                    if kind == "Check":
                        fl, ex = val(st, "flush_interval_ms", env), val(st, "expiration_ms", env)
                        rep.ob("responses expire later than they are flushed", ex > fl, cfn, "check options%s: the response expiration is %s with a flush interval of %s" % (s, ex, fl))
                        if name == "check3" and s[2] > s[1]: rep.ob("options are what they were given", ex == s[2], cfn, "check options%s: the response expiration becomes %s" % (s, ex))
                except (Unk, TypeError): rep.ob("options are known", None, cfn)
