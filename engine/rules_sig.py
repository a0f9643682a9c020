"""C17, C18, C19: what the cache keys digest."""
from lib import *
RET = T("arg", "<ret>"); REQ = T("arg", "request")
V = T("ld", REQ)
def G(v, *fs):
    for f in fs: v = get(v, f)
    return v
# function -> (single fields, label maps, metric list, metric value labels matter, fields it may depend on)
OPF = ("operation_name", "consumer_id", "labels")
SPECS = {
    "GenerateCheckRequestSignature": dict(single=[("operation", "operation_name"), ("operation", "consumer_id")], labels=[("operation", "labels")],
                                          sets=("operation", "metric_value_sets"), vlabels=True),
    "GenerateReportOperationSignature": dict(single=[("consumer_id",), ("operation_name",)], labels=[("labels",)], sets=None, vlabels=False),
    "GenerateReportMetricValueSignature": dict(single=[], labels=[("labels",)], sets=None, vlabels=False),
    "GenerateAllocateQuotaRequestSignature": dict(single=[("allocate_operation", "method_name"), ("allocate_operation", "consumer_id")], labels=[],
                                                  sets=("allocate_operation", "quota_metrics"), vlabels=False),
}
def allowed(sp):
    r = set()
    for x in sp["single"] + sp["labels"] + ([sp["sets"]] if sp["sets"] else []): r |= set(x)
    if sp["sets"]: r.add("metric_name")
    if sp["vlabels"]: r |= {"metric_values", "labels"}
    return r

# ------------------------------------------------------------------ the digest as a structure
def const_of(x):
    """Bytes of a constant piece, None if it is not constant."""
    if is_t(x, "str"): return x.a[0]
    if is_t(x, "sub0") and is_t(x.a[0], "str") and is_c(x.a[1]): return (x.a[0].a[0] + "\0" * 8)[:x.a[1]] if x.a[1] <= len(x.a[0].a[0]) + 1 else None
    if is_t(x, "fillstr") and is_c(x.a[0]) and is_c(x.a[1]) and x.a[0] < 64: return chr(x.a[1] & 255) * x.a[0]
    if is_t(x, "ch") and is_c(x.a[0]): return chr(x.a[0] & 255)
    if is_t(x, "raw") and is_c(x.a[0]) and is_c(x.a[1]): return "".join(chr((x.a[0] >> (8 * i)) & 255) for i in range(x.a[1]))
    return None
def pieces(x):
    out = []
    for y in (x.a if is_t(x, "scat") else (x,)):
        c = const_of(y)
        out.append(("c", c) if c is not None else ("v", y))
    return out
def items_of(events, ctx=None):
    """[('c', text, ev) | ('v', term, ev) | ('rep', loop, [(iteration, items)], ev)]"""
    out = []
    for e in events:
        if e.kind == "md5" and e.op == "update" and (ctx is None or e.ctx is ctx):
            out += [(a, b, e) for a, b in pieces(e.data)]
        elif e.kind == "loop":
            its = [(it, items_of(it["events"], ctx)) for it in e.loop.iters]
            if any(x for _, x in its): out.append(("rep", e.loop, its, e))
    return out
def walk(items, reps=()):
    """(term, enclosing repetitions, event)"""
    for it in items:
        if it[0] == "v": yield it[1], reps, it[2]
        elif it[0] == "rep":
            for alt, xs in it[2]:
                yield from walk(xs, reps + ((it[1], alt),))

def delim_ok(items):
    """No two texts are ever adjacent without a zero byte between them."""
    bad = []
    def seqn(xs):
        """(first kinds, last kinds, can be empty): kinds are S (text) or D (delimiter)"""
        first, last, empty_ = set(), set(), True
        for x in xs:
            if x[0] == "c":
                if "\0" not in x[1]: continue
                f, l, e = {"D"}, {"D"}, False
            elif x[0] == "v": f, l, e = {"S"}, {"S"}, False
            else:
                f, l, e = set(), set(), True
                for alt, ys in x[2]:
                    f2, l2, e2 = seqn(ys); f |= f2; l |= l2
                if "S" in l and "S" in f: bad.append((x[3], "one iteration and the next"))
            if "S" in last and "S" in f: bad.append((x[-1], "this text and the one before it"))
            if empty_: first |= f
            last = (last | l) if e else set(l)
            empty_ = empty_ and e
        return first, last, empty_
    seqn(items)
    return bad

KNOWN = {"ld", "arg", "get", "at", "okeyat", "keyat", "valat", "mget", "mapfold", "emptymap", "size", "k", "loop", "root", "site", "fld", "elt", "ix", "has", "mapset", "setof", "p",
         "str", "sub0", "scat", "nil", "star"}
def clear(term):
    return all(not isinstance(t, Term) or t.h in KNOWN or t.h in ("alloca",) for t in subterms(term))
def traversed(path, M, k):
    """The loop ends only when all entries were seen."""
    n = size(M)
    for a, v in path:
        if v and is_t(a, "eq") and k in a.a and (a.a[0] is n or a.a[1] is n): return True
        if not v and is_t(a, "lt") and a.a[0] is k and a.a[1] is n: return True
    return False
def is_sets(t, sp): return sp["sets"] is not None and t is G(V, *sp["sets"])
def set_map(M, sp, val):
    """M holds, per metric name, something of every metric of the request."""
    if is_t(M, "setof"): return None
    if not is_t(M, "mapfold") or M.a[0] is not EMPTYMAP: return False
    S = G(V, *sp["sets"]); ix = T("ix")
    if M.a[1] is not size(S) or M.a[2] is not get(at(S, ix), "metric_name"): return False
    if not val: return True
    v = M.a[3]
    def the_set(v):          # by value or by address
        return v is at(S, ix) or is_t(v, "elt") and v.a[1] is ix and is_t(v.a[0], "fld") and v.a[0].a[1] == sp["sets"][-1]
    if val == "set": return the_set(v)
    if v is get(at(S, ix), "metric_values"): return True
    return is_t(v, "fld") and v.a[1] == "metric_values" and is_t(v.a[0], "elt") and v.a[0].a[1] is ix and is_t(v.a[0].a[0], "fld") and v.a[0].a[0].a[1] == sp["sets"][-1]
def value_list(t, reps, sp):
    """t is the list of values of the metric the outer loop is at; -> that loop."""
    x = t; val = True
    if is_t(x, "get") and x.a[1] == "metric_values": x = x.a[0]; val = "set"
    if is_t(x, "ld"): x = x.a[0]
    if is_t(x, "mget"):
        M, key = x.a
        for L, alt in reps:
            if is_t(key, "okeyat") and key.a[0] is M and key.a[1] is L.k and set_map(M, sp, val): return L, M, True
            if is_t(key, "keyat") and key.a[0] is M and key.a[1] is L.k and set_map(M, sp, val): return L, M, False
    for L, alt in reps:
        S = G(V, *sp["sets"])
        if t is get(at(S, L.k), "metric_values"): return L, S, False
    return None

def runs():
    if _runs: return _runs
    for name, sp in SPECS.items():
        fs = program().find(N + name) or [f for f in program().root_fns() if f.short.split("::")[-1].split("[")[0] == name]
        if not fs: raise Missing(name)
        v = new_vm(); f = fs[0]
        res = v.analyse(f, [RET, REQ])
        _runs[name] = (f, v, [s for s in res if s.status == "ret"])
    return _runs
_runs = cache()
def ctx_of(st):
    fin = [e for e in st.events if e.kind == "md5" and e.op == "final"]
    return fin
def digest(rep, name, f, st):
    """The digested structure of this path, or None if the key is something else."""
    fin = ctx_of(st)
    out = st.mem.get((RET, 0))
    ok = len(fin) == 1 and is_t(out, "bytes") and is_t(out.a[0], "md5sum")
    if not ok:
        rep.ob("the key is one digest", None, loc(f), "%s: the key is %s" % (name, show(out)[:80])); return None
    rep.ob("the whole digest is the key", out.a[1] == 16, loc(f), "%s: only %s bytes of the digest are used" % (name, show(out.a[1])))
    return items_of(st.events, fin[0].ctx)

def shape(it):
    if it[0] == "c": return ("c", it[1])
    if it[0] == "v": return ("t", it[1])
    return ("o", (it[1].loc, len(it[2])))
def injective(rep, name, sp, f, alls):
    """An identity field that is digested in another form is still told apart."""
    for p in sp["single"]:
        t = G(V, *p)
        if all(any(x is t and not r for x, r, e in walk(items)) for st, items in alls): continue
        c = collision([(st.path, items) for st, items in alls], t, shape)
        if c: rep.ob("every identity field is digested in full", False, loc(f), "%s: %s %s and %s give the same key" % (name, ".".join(p), cut(c[0]), cut(c[1])))
def cut(s): return repr(s if len(s) < 60 else s[:28] + "..." + s[-28:])
def C17(rep):
    for name, (f, v, res) in runs().items():
        rep.use(v); sp = SPECS[name]
        alls = [(st, its) for st, its in ((st, digest(rep, name, f, st)) for st in res) if its is not None]
        injective(rep, name, sp, f, alls)
        for st in res:
            items = digest(rep, name, f, st)
            if items is None: continue
            ws = list(walk(items))
            vague = [t for t, r, e in ws if not clear(t)]
            def need(rule, ok, what, e=None):
                rep.ob(rule, True if ok else (None if vague else False), at_ev(e) if e is not None else loc(f), "%s: %s" % (name, what), path=path_of(st))
            for p in sp["single"]:
                t = G(V, *p)
                need("every identity field is digested in full", any(x is t and not r for x, r, e in ws), "%s is not digested in full on this path" % ".".join(p))
            paths = lambda reps: st.path if not reps else reps[-1][1]["path"]
            def map_digested(M, outer, what):
                """All entries of M, key and value, in one loop directly inside `outer`."""
                best = None
                for t, r, e in ws:
                    if not r or r[:-1] != outer: continue
                    L, alt = r[-1]
                    for key in (T("okeyat", M, L.k), T("keyat", M, L.k)):
                        if t is key: best = (L, key, e)
                if best is None:
                    need("every label is digested", False, "the keys of %s are not digested" % what); return
                L, key, e = best
                for leaf, nm in ((key, "key"), (mget(M, key), "value")):
                    alts = [(it["path"], items_of(it["events"])) for it in L.iters]
                    if all(any(x[0] == "v" and x[1] is leaf for x in its) for _, its in alts): continue
                    c = collision(alts, leaf, shape)
                    if c: rep.ob("every label is digested", False, at_ev(e), "%s: the label %ss %s and %s give the same key" % (name, nm, cut(c[0]), cut(c[1])))
                for it in L.iters:
                    its = [x for x in items_of(it["events"]) if x[0] == "v"]
                    need("every label is digested", any(x[1] is key for x in its), "an iteration over %s skips a key" % what, e)
                    need("every label is digested", any(x[1] is mget(M, key) for x in its), "an iteration over %s skips a value" % what, e)
                op = st.path if not outer else None
                full = traversed(st.path, M, L.k) if not outer else all(traversed(a["path"], M, L.k) for a in outer[-1][0].iters)
                need("every label is digested", full, "the loop over %s may end early" % what, e)
            for p in sp["labels"]: map_digested(G(V, *p), (), ".".join(p))
            if sp["sets"]:
                S = G(V, *sp["sets"])
                found = None
                for t, r, e in ws:
                    if len(r) != 1: continue
                    L = r[0][0]
                    if is_t(t, "okeyat") or is_t(t, "keyat"):
                        if t.a[1] is L.k and set_map(t.a[0], sp, False): found = (L, t.a[0], t, e)
                    if t is get(at(S, L.k), "metric_name"): found = (L, S, t, e)
                if found is None: need("every metric name is digested", False, "the metric names are not digested in full")
                else:
                    L, M, t, e = found
                    for it in L.iters:
                        need("every metric name is digested", any(x[0] == "v" and x[1] is t for x in items_of(it["events"])), "an iteration over the metrics skips the name", e)
                    need("every metric name is digested", traversed(st.path, M, L.k), "the loop over the metrics may end early", e)
                    need("every metric name is digested", M is S or True, "", e)
            if sp["vlabels"]:
                hit = None
                for t, r, e in ws:
                    if len(r) != 3: continue
                    if not (is_t(t, "okeyat") or is_t(t, "keyat")): continue
                    M = t.a[0]
                    if not (is_t(M, "get") and M.a[1] == "labels" and is_t(M.a[0], "at") and M.a[0].a[1] is r[1][0].k): continue
                    vl = value_list(M.a[0].a[0], r[:1], sp)
                    if vl: hit = (M, r, M.a[0].a[0], e)
                if hit is None: need("every metric value's labels are digested", False, "the labels of the metric values are not digested")
                else:
                    M, r, VL, e = hit
                    map_digested(M, r[:2], "the metric value labels")
                    need("every metric value's labels are digested", all(traversed(a["path"], VL, r[1][0].k) for a in r[0][0].iters), "the loop over the metric values may end early", e)
            bad = delim_ok(items)
            rep.ob("texts are separated by a zero byte", not bad, at_ev(bad[0][0]) if bad else loc(f), "%s: nothing separates %s" % (name, bad[0][1] if bad else ""), path=path_of(st))

def atoms(items, path):
    """Everything that decides what is digested, and the texts digested."""
    for a, b in path: yield a, None
    for it in items:
        if it[0] == "v": yield it[1], it[2]
        elif it[0] == "rep":
            for alt, xs in it[2]: yield from atoms(xs, alt["path"])
def fields(t):
    fs = {x.a[1] for x in subterms(t) if is_t(x, "get") or is_t(x, "has")} | {x.a[1] for x in subterms(t) if is_t(x, "fld")}
    return {x[4:] if x.startswith("has:") else x for x in fs}
def refresh_key(rep):
    """C38: what a refresh changes in a quota request does not change its key."""
    name = "GenerateAllocateQuotaRequestSignature"
    f, v, res = runs()[name]; rep.use(v); ok = allowed(SPECS[name])
    for st in res:
        items = digest(rep, name, f, st)
        if items is None: continue
        for t, e in atoms(items, st.path):
            extra = fields(t) - ok
            rep.ob("the answer to a refresh finds the entry it was made from", not extra, at_ev(e) if e is not None else loc(f), "Quota: a refresh has another %s than the request its entry was made from, and the key depends on it" % ", ".join(sorted(extra)), path=path_of(st))
def conds(events, path):
    """All branch conditions of a path, those inside its loops included."""
    for a, b in path: yield a
    for e in events:
        if e.kind == "loop":
            for it in e.loop.iters: yield from conds(it["events"], it["path"])
def left_by_calls(t):
    """Variables (other than ones initialised once) that calls change and t depends on."""
    P_ = program(); out = []
    for x in subterms(t):
        if not is_t(x, "glob"): continue
        n = x.a[0]
        if P_.mutable(n) and "_ZGV" + n[2:] not in P_.globals and any(m == n and h[1] for (m, o), h in P_.hidden.items()): out.append(n)
    return out
def history(rep, name, f, st, items):
    ts = list(conds(st.events, st.path)) + [t for t, r, e in walk(items)]
    bad = [(n, t) for t in ts for n in left_by_calls(t)]
    rep.ob("equal identities give equal keys at all times", not bad, loc(f), "%s: the key depends on %s, which earlier calls change" % (name, program().globals[bad[0][0]]["dem"] if bad else ""), path=path_of(st))
def C18(rep):
    for name, (f, v, res) in runs().items():
        rep.use(v); sp = SPECS[name]; ok = allowed(sp)
        for st in res:
            items = digest(rep, name, f, st)
            if items is None: continue
            history(rep, name, f, st, items)
            for t, e in atoms(items, st.path):
                w = at_ev(e) if e is not None else loc(f)
                extra = fields(t) - ok
                rep.ob("only identity fields influence the key", not extra, w, "%s: the key depends on %s" % (name, ", ".join(sorted(extra))), path=path_of(st))
                whole = [x for x in subterms(t) if is_t(x) and x.h in ("wire", "dbg", "bytesize")]
                rep.ob("the key does not depend on a serialisation", not whole, w, "%s: the key depends on %s" % (name, show(whole[0])[:80] if whole else ""), path=path_of(st))
                addr = [x for x in subterms(t) if is_t(x, "mem") or (is_t(x, "raw") and not is_c(x.a[0]))]
            for t, r, e in walk(items):
                ks = [x for x in subterms(t) if is_t(x, "keyat") and not any(is_t(y, "ix") for y in x.a)]
                rep.ob("label maps and metrics are digested in key order", not ks, at_ev(e), "%s: digests entries of an unordered map in memory order" % name, path=path_of(st))
                if sp["sets"]:
                    S = G(V, *sp["sets"])
                    pos = [x for x in subterms(t) if is_t(x, "at") and x.a[0] is S and is_t(x.a[1], "k")]
                    rep.ob("metrics are digested in name order", not pos, at_ev(e), "%s: digests metrics in the order of the request" % name, path=path_of(st))

# ------------------------------------------------------------------ C19
def C19(rep):
    P_ = program(); M = N + "MD5"
    this = T("arg", "this")
    ctor = [f for f in P_.find(M + "::MD5") if len(f.pt) <= 1 or "const&" not in f.pt[-1]]
    if not ctor: raise Missing("MD5::MD5")
    ctx = None
    for f in ctor[:2]:
        v = new_vm(); res = v.analyse(f, [this]); rep.use(v)
        for st in res:
            ev = [e for e in st.events if e.kind == "md5"]
            rep.ob("a new digest starts from a clean state", [e.op for e in ev] == ["init"], loc(f), "MD5(): does not initialise the hash exactly once")
            if ev: ctx = ev[0].ctx
    if ctx is None: return
    ups = P_.find(M + "::Update")
    if not ups: raise Missing("MD5::Update")
    X = T("arg", "x"); NN = T("arg", "n")
    for f in ups:
        p = models.params(f.dem)
        if len(p) == 2: args = [this, X, NN]; want = lambda e: e.ptr is X and e.n is NN
        elif models.is_str(p[0]): args = [this, X]; want = lambda e: e.data is T("ld", X)
        elif models.is_cstr(p[0]): args = [this, X]; want = lambda e: e.ptr is X and e.n is slen(T("cstr", X))
        elif p[0] == "int": args = [this, X]; want = lambda e: is_t(e.data, "raw") and e.data.a[0] is X and e.data.a[1] == 4
        else: continue
        v = new_vm(); res = v.analyse(f, list(args)); rep.use(v)
        live = [s for s in res if s.status == "ret"]
        for st in live:
            ev = [e for e in st.events if e.kind == "md5"]
            good = len(ev) == 1 and ev[0].op == "update" and ev[0].ctx is ctx and want(ev[0])
            zero = not ev and any(v.decide(st, eq(x, 0)) is True for x in ([NN] if len(p) == 2 else [slen(T("ld", X)), slen(T("cstr", X))]))
            zero = zero or (not ev and v.decide(st, seq(T("ld", X), EMPTYSTR)) is True)
            rep.ob("an update feeds exactly the given bytes to the hash", good or zero, at_ev(ev[0]) if ev and ev[0].loc[0] != "?" else loc(f),
                   "Update(%s): feeds %s" % (", ".join(p), "; ".join("%s %s" % (e.op, show(e.get("data"))[:80]) for e in ev) or "nothing"), path=path_of(st))
    for f in P_.find(M + "::Digest"):
        v = new_vm(); res = v.analyse(f, [RET, this]); rep.use(v)
        live = [s for s in res if s.status == "ret"]
        kinds = set()
        for st in live:
            ev = [e for e in st.events if e.kind == "md5"]
            out = st.mem.get((RET, 0)); fin = [e for e in ev if e.op == "final"]
            rep.ob("reading the digest only finishes the hash", all(e.op == "final" and e.ctx is ctx for e in ev) and len(ev) <= 1, loc(f), "Digest(): %s" % [e.op for e in ev], path=path_of(st))
            if fin:
                store = fin[0].out
                kinds.add("first")
                rep.ob("the 16 bytes of the digest are returned", is_t(out, "bytes") and out.a[1] == 16 and is_t(out.a[0], "md5sum"), loc(f), "Digest(): returns %s" % show(out)[:80], path=path_of(st))
                # remembered: a second read does not finish again
                s2 = st.clone(); s2.events = []; s2.status = "run"; s2.frames = []
                v2 = new_vm(); v2.push(s2, f, [RET, this], None, T("root", "second"))
                for y in v2.run(s2):
                    if y.status != "ret": continue
                    ev2 = [e for e in y.events if e.kind == "md5"]
                    rep.ob("finishing happens once", not ev2, loc(f), "Digest(): a second read touches the hash again")
                    rep.ob("later reads return the same bytes", y.mem.get((RET, 0)) is out, loc(f), "Digest(): a second read returns %s" % show(y.mem.get((RET, 0)))[:80])
            else: kinds.add("later")
        rep.ob("the first read finishes the hash", "first" in kinds, loc(f), "Digest(): never finishes the hash")
        # a digest that was only just constructed must be finished
        for c in ctor[:1]:
            v = new_vm()
            for st in v.analyse(c, [this]):
                if st.status != "ret": continue
                s2 = st.clone(); s2.events = []; s2.status = "run"; s2.frames = []
                v.push(s2, f, [RET, this], None, T("root", "fresh"))
                for y in v.run(s2):
                    if y.status == "ret":
                        ev = [e.op for e in y.events if e.kind == "md5"]
                        rep.ob("a new digest is not finished yet", ev == ["final"], loc(f), "Digest() on a new object: %s" % ev)
    for f in P_.find(M + "::operator()"):
        v = new_vm(); res = v.analyse(f, [RET, this, X, NN]); rep.use(v)
        for st in res:
            if st.status != "ret": continue
            ev = [e for e in st.events if e.kind == "md5" and e.op == "update"]
            rep.ob("the short form digests the given bytes", len(ev) == 1 and ev[0].ptr is X and ev[0].n is NN, loc(f), "operator(): feeds %s" % [show(e.data)[:60] for e in ev], path=path_of(st))
