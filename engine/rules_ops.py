"""C20 to C23: merging operations. The aggregators are analysed on operations
whose shape (how many metric sets, values and log entries, which names and
labels coincide, which value types) is fixed and whose contents are symbolic:
names and labels are arbitrary distinct strings, amounts, times and everything
else are unknowns. Times and kinds are read off on every order and presence."""
import itertools
from lib import *
from pure import *

RET = T("arg", "<ret>"); OBJ = T("new", "aggregate"); KINDS = T("new", "kinds")
TS = "google::protobuf::Timestamp"; DELTA = 2
CASES = {"bool": (4, "bool_value"), "int64": (5, "int64_value"), "double": (6, "double_value"), "string": (7, "string_value"), "distribution": (8, "distribution_value")}
MV = SC + "MetricValue"; MS = SC + "MetricValueSet"
def lf(*a): return T("leaf", *a)
def name(i): return T("name", "metric", i)
def labels(i): return T("labelmap", i)

def cases():
    """The oneof numbers from the schema."""
    F = DESCR_[MV]["fields"]
    return {k: (F[f]["num"] if "num" in F[f] else F[f]["number"], f) for k, (_, f) in CASES.items() if f in F}
import models as _m
DESCR_ = _m.DESCR

class Shape:
    """Builds messages and remembers their leaves."""
    def __init__(self): self.leafs = []
    def leaf(self, *a):
        x = lf(*a)
        if x not in self.leafs: self.leafs.append(x)
        return x
    def times(self, m, tag, sym):
        for w in ("start_time", "end_time"):
            if sym:
                m = upd(m, "has:" + w, self.leaf(tag, w, "has"))
                m = upd(m, w, upd(upd(empty(TS), "seconds", self.leaf(tag, w, "s")), "nanos", self.leaf(tag, w, "n")))
            else:
                m = upd(upd(m, "has:" + w, 0), w, empty(TS))
        return m
    def value(self, tag, lab, case, sym=False):
        m = T("rest", "value", tag)
        no, f = case
        m = upd(upd(m, "labels", labels(lab)), "case:value", no)
        m = upd(m, f, self.leaf(tag, "v"))
        return self.times(m, tag, sym)
    def op(self, arg, sets, logs, field, sym=False, tag=None):
        """sets: [(name index, [value])]; logs: number of entries."""
        m = T("ld", arg)
        ss = []
        for n, vs in sets:
            s = upd(T("rest", "set", tag, len(ss)), "metric_name", name(n))
            ss.append(upd(s, "metric_values", T("list", tuple(vs)) if vs else NIL))
        m = upd(m, field, T("list", tuple(ss)) if ss else NIL)
        if logs is not None: m = upd(m, "log_entries", T("list", tuple(T("rest", "log", tag, i) for i in range(logs))) if logs else NIL)
        if field == "metric_value_sets": m = self.times(m, tag, sym)
        return m

def boundary():
    def sig(c):
        c.vm.store(c.st, c.args[0], T("name", "sig", get(c.vm.load(c.st, c.args[1]), "labels")))
        return None
    def merge(c):
        vm, st = c.vm, c.st
        vm.store(st, c.args[2], T("merged", vm.load(st, c.args[1]), vm.load(st, c.args[2])))
        vm.store(st, c.args[0], T("stv", T("opq", "merge")))
        return None
    return {N + "GenerateReportMetricValueSignature": sig, N + "DistributionHelper::Merge": merge}

class Run:
    """Construction, merges and read-out of one aggregate."""
    def __init__(self, rep, cls, ops, shape, kinds=None, kindmap=None, toproto=True):
        P_ = program(); self.cls = cls
        def one(n):
            fs = [f for f in P_.find(N + cls + "::" + n) if not f.decl]
            if not fs: raise Missing(N + cls + "::" + n)
            return fs
        ctor = [f for f in one(cls) if "C1E" in f.name or "C2E" in f.name][0]
        merge = one("MergeOperation")[0]; tp = one("ToOperationProto")[0]
        self.where = loc(merge); self.ctor = ctor
        v = new_vm(boundary()); v.unroll = 400
        st = State()
        for a, m in ops: st.mem[(a, 0)] = m
        if kindmap is not None: st.mem[(KINDS, 0)] = kindmap
        seq = [(ctor, [OBJ, ops[0][0]] + ([kinds] if len(ctor.at) > 2 else []))] + [(merge, [OBJ, a]) for a, _ in ops[1:]]
        if toproto: seq.append((tp, [RET, OBJ]))
        cur = [st]; self.sts = []
        for i, (f, args) in enumerate(seq):
            nxt = []
            for s in cur:
                s.status = "run"; s.pending = None; s.ret = None
                v.push(s, f, args, None, T("root", f.name, i))
                for r in v.run(s):
                    (nxt if r.status == "ret" else self.sts).append(r)
            cur = nxt
        self.sts += cur
        rep.use(v); v.acc = None; self.v = v
        if any(s.why == "bound" for s in self.sts): raise Limit("a loop in %s runs longer than its operations are" % cls)
        self.code = Code(shape.leafs); self.tree = Tree(self.sts, self.code); self.m = {}
    def val(self, st, key, term, L):
        k = (id(st), key)
        f = self.m.get(k)
        if f is None: f = self.m[k] = self.code.fn(term)
        try: return f(L)
        except (Unk, TypeError, ValueError, KeyError, OverflowError, Oob): return None

def flat(l):
    """The elements of a list term of known length, else None."""
    if l is NIL or is_t(l, "emptymap"): return []
    if is_t(l, "list"): return list(l.a[0])
    if is_t(l, "append"):
        r = flat(l.a[0]); return None if r is None else r + [l.a[1]]
    if is_t(l, "concat"):
        a, b = flat(l.a[0]), flat(l.a[1]); return None if a is None or b is None else a + b
    if is_t(l, "setat") and is_c(l.a[1]):
        r = flat(l.a[0])
        if r is None or not 0 <= l.a[1] < len(r): return None
        r[l.a[1]] = l.a[2]; return r
    if is_t(l, "resized") and is_c(l.a[1]):
        r = flat(l.a[0])
        return None if r is None or l.a[1] > 64 else (r + [l.a[2]] * 64)[:l.a[1]]
    n = size(l)
    if is_c(n) and 0 <= n <= 64:
        r = [at(l, i) for i in range(n)]
        return r
    return None
def metric_values(op, field):
    """[(metric name, value term)] of an operation term, else None."""
    ss = flat(get(op, field))
    if ss is None: return None
    r = []
    for s in ss:
        vs = flat(get(s, "metric_values"))
        if vs is None: return None
        r += [(get(s, "metric_name"), v) for v in vs]
    return r
FIELDS = lambda cls: [f for f in DESCR_[cls]["fields"]]

# ------------------------------------------------------------------ C22 and C23
SETS22 = [
    [], [(0, [(0, "int64")])], [(0, [(1, "int64")])], [(1, [(0, "int64")])],
    [(0, [(0, "int64"), (1, "int64")])], [(0, [(0, "int64"), (0, "int64")])],
    [(0, [(0, "int64")]), (1, [(0, "int64")])], [(0, [(0, "int64")]), (0, [(1, "int64"), (0, "int64")])],
    [(1, [(1, "int64")]), (0, [(0, "int64"), (1, "int64")])], [(0, [])],
    [(0, [(0, "double")])], [(1, [(1, "string")]), (1, [(2, "bool")])],
]
def op_scenarios():
    r = [(s,) for s in SETS22]
    r += [(a, b) for a in SETS22 for b in SETS22]
    k = (0, 1, 4, 6, 8)
    r += [(SETS22[a], SETS22[b], SETS22[c]) for a in k for b in k for c in k]
    return r
def C22(rep):
    cs = cases()
    OP = SC + "Operation"
    other = [f for f in FIELDS(OP) if f not in ("metric_value_sets", "log_entries", "start_time", "end_time")]
    n_sc = 0
    for sc in op_scenarios():
        for kinds in ((0,) if len(sc) > 1 else (0, KINDS)):
            few = ((1, 1), (0, 2), (3, 0)) + (((70, 70), (99, 2), (150, 3), (1, 100), (0, 250)) if sc == (SETS22[4], SETS22[1]) else ())
            for logs in (((1,) * len(sc),) if len(sc) > 2 else ((1,), (130,)) if len(sc) == 1 else few):
                if logs != (1,) * len(sc) and (sc[0] != SETS22[4] or kinds): continue
                n_sc += 1
                sh = Shape(); ops = []; want = {}; wlogs = []
                for i, sets in enumerate(sc):
                    a = T("arg", "operation%d" % i); ss = []
                    for j, (n, vs) in enumerate(sets):
                        ts = []
                        for k, (l, c) in enumerate(vs):
                            tag = (i, j, k); t = sh.value(tag, l, cs[c]); ts.append(t)
                            want.setdefault((n, l), []).append((c, t, lf(tag, "v")))
                        ss.append((n, ts))
                    ops.append((a, sh.op(a, ss, logs[i], "metric_value_sets", tag=i)))
                    wlogs += [T("rest", "log", i, j) for j in range(logs[i])]
                r = Run(rep, "OperationAggregator", ops, sh, kinds, EMPTYMAP if kinds else None)
                what = "operations with the metric sets %s" % (list(sc),)
                for st in r.sts:
                    if st.status != "ret": rep.ob("returns", False, r.where, "merging does not return for " + what, path=path_of(st)); continue
                    op = st.mem.get((RET, 0))
                    mv = metric_values(op, "metric_value_sets") if op is not None else None
                    if mv is None: rep.ob("every-value", None, r.where, "not decided: the sets of the result are not a list of known length"); continue
                    got = {}
                    for nm, v in mv: got.setdefault((nm, get(v, "labels")), []).append(v)
                    exp = {(name(n), labels(l)): x for (n, l), x in want.items()}
                    miss = [k for k in exp if k not in got]; extra = [k for k in got if k not in exp]; dup = [k for k, x in got.items() if len(x) != 1]
                    rep.ob("every-value", not miss, r.where, "the aggregate of %s has no value for %s" % (what, [show(x) for x in miss]), path=path_of(st))
                    rep.ob("no-other-value", not extra and not dup, r.where, "the aggregate of %s has values of its own: %s" % (what, [show(x) for x in extra + dup]), path=path_of(st))
                    for k, xs in exp.items():
                        if len(got.get(k, ())) != 1: continue
                        v = got[k][0]
                        c0 = xs[0][0]
                        if len(xs) == 1: ok = v is xs[0][1]
                        else:
                            ok = get(v, "case:value") == cs[c0][0] if is_c(get(v, "case:value")) else None
                            if ok and c0 == "int64":
                                s = 0
                                for c, t, x in xs:
                                    if c == "int64": s = add(s, x)
                                z = get(v, "int64_value"); ok = z is s
                            elif ok and all(c != c0 for c, _, _ in xs[1:]): ok = get(v, cs[c0][1]) is xs[0][2]
                        rep.ob("combined", ok, r.where, "the aggregate of %s holds %s for %s" % (what, show(v)[:200], [show(y) for y in k]), path=path_of(st))
                    lg = flat(get(op, "log_entries"))
                    rep.ob("every-log-entry", None if lg is None else sorted(x.id for x in lg) == sorted(x.id for x in wlogs), r.where, "the aggregate of %s has the log entries %s instead of %s" % (what, [show(x) for x in lg or ()], [show(x) for x in wlogs]), path=path_of(st))
                    src = T("ld", ops[0][0])
                    bad = [f for f in other if get(op, f) is not get(src, f)]
                    rep.ob("first-operation", not bad, r.where, "the aggregate of %s does not take %s from the first operation" % (what, ", ".join(bad)), path=path_of(st))
    rep.note("%d shapes of up to three operations" % n_sc)
    toobig(rep)
def toobig(rep):
    fs = [f for f in program().find(N + "OperationAggregator::TooBig") if not f.decl]
    if not fs: raise Missing("OperationAggregator::TooBig")
    f = fs[0]; where = loc(f)
    sh = Shape(); a = T("arg", "operation0")
    m = sh.op(a, [], None, "metric_value_sets", tag=0)
    n = T("size", get(T("ld", a), "log_entries"))
    for ops in (1,):
        r = Run(rep, "OperationAggregator", [(a, m)], sh, 0, toproto=False)
        for st in r.sts:
            st.status = "run"; st.pending = None; st.ret = None
            r.v.push(st, f, [OBJ], None, T("root", f.name, "big"))
            rs = r.v.run(st); code = Code([n]); tree = Tree(rs, code)
            for x in (0, 1, 2, 50, 98, 99, 100, 101, 102, 500, 1000, (1 << 31) - 1):
                s = tree.find([x])
                try: got = None if s is None else bool(code.fn(s.ret)([x]))
                except (Unk, TypeError): got = None
                rep.ob("too-big", None if got is None else got == (x >= 100), where, "an aggregate with %d log entries reports %s" % (x, "that it is too big" if got else "that it is not too big"))

def C23(rep):
    cs = cases()
    OP = SC + "QuotaOperation"
    other = [f for f in FIELDS(OP) if f != "quota_metrics"]
    one = lambda n, c="int64": (n, [(0, c)])
    ss = [[], [one(0)], [one(1)], [one(0), one(1)], [one(1), one(0), one(2)], [one(0, "double")], [one(0, "string"), one(1)], [one(0), one(0)]]
    sc = [(a,) for a in ss] + [(a, b) for a in ss for b in ss] + [(a, b, c) for a in ss[1:6] for b in ss[:5] for c in ss[1:6]]
    sc += [(ss[1],) * 4, (ss[3], ss[4], ss[3], ss[1], ss[2])]
    # the value of one operation may differ in its labels: they do not matter
    for s in sc:
        sh = Shape(); ops = []; want = {}
        for i, sets in enumerate(s):
            a = T("arg", "operation%d" % i); xs = []
            for j, (n, vs) in enumerate(sets):
                ts = []
                for k, (l, c) in enumerate(vs):
                    tag = (i, j, k); t = sh.value(tag, (i, j), cs[c]); ts.append(t); want.setdefault(n, []).append((c, t, lf(tag, "v")))
                xs.append((n, ts))
            ops.append((a, sh.op(a, xs, None, "quota_metrics", tag=i)))
        r = Run(rep, "QuotaOperationAggregator", ops, sh)
        what = "operations with the metrics %s" % ([[(n, v[0][1]) for n, v in x] for x in s],)
        for st in r.sts:
            if st.status != "ret": rep.ob("returns", False, r.where, "merging does not return for " + what, path=path_of(st)); continue
            op = st.mem.get((RET, 0))
            mv = metric_values(op, "quota_metrics") if op is not None else None
            if mv is None: rep.ob("every-metric", None, r.where, "not decided"); continue
            got = {}
            for nm, v in mv: got.setdefault(nm, []).append(v)
            miss = [n for n in want if name(n) not in got]; extra = [k for k in got if k not in [name(n) for n in want]] + [k for k, x in got.items() if len(x) != 1]
            rep.ob("every-metric", not miss, r.where, "the aggregate of %s lost metric %s" % (what, miss), path=path_of(st))
            rep.ob("one-value", not extra, r.where, "the aggregate of %s has extra values for %s" % (what, [show(x) for x in extra]), path=path_of(st))
            for n, xs in want.items():
                vs = got.get(name(n), [])
                if len(vs) != 1: continue
                v = vs[0]; c0 = xs[0][0]
                if len(xs) == 1: ok = v is xs[0][1]
                else:
                    cv = get(v, "case:value")
                    ok = cv == cs[c0][0] if is_c(cv) else None
                    if ok and c0 == "int64":
                        t = 0
                        for c, _, x in xs:
                            if c == "int64": t = add(t, x)
                        ok = get(v, "int64_value") is t
                    elif ok and all(c != c0 for c, _, _ in xs[1:]): ok = get(v, cs[c0][1]) is xs[0][2]
                rep.ob("tokens", ok, r.where, "the aggregate of %s holds %s for metric %d" % (what, show(v)[:300], n), path=path_of(st))
            src = T("ld", ops[0][0])
            bad = [f for f in other if get(op, f) is not get(src, f)]
            rep.ob("first-operation", not bad, r.where, "the aggregate of %s does not take %s from the first operation" % (what, ", ".join(bad)), path=path_of(st))
    rep.note("%d shapes" % len(sc))

# ------------------------------------------------------------------ C20
POINTS = (None, (0, 0), (5, 1), (5, 2), (5, 999999999), (6, 0), (6, 1), (-3, 7))
def window(sh, L, tag):
    r = {}
    for w in ("start_time", "end_time"):
        h, s, n = (L[sh.leafs.index(lf(tag, w, k))] for k in ("has", "s", "n"))
        r[w] = (s, n) if h else None
    return r
def set_window(sh, L, tag, start, end):
    for w, p in (("start_time", start), ("end_time", end)):
        for k, x in zip(("has", "s", "n"), (0, 0, 0) if p is None else (1,) + p): L[sh.leafs.index(lf(tag, w, k))] = x
def union(ws):
    """The union of windows [(start, end)]."""
    s = [w[0] for w in ws if w[0] is not None]; e = [w[1] for w in ws if w[1] is not None]
    return (min(s) if s else None), (max(e) if e else None)
def got_window(r, st, m, key, L):
    out = []
    for w in ("start_time", "end_time"):
        h = r.val(st, (key, w, "h"), get(m, "has:" + w), L); t = get(m, w)
        s = r.val(st, (key, w, "s"), get(t, "seconds"), L); n = r.val(st, (key, w, "n"), get(t, "nanos"), L)
        if h is None or s is None or n is None: return None
        out.append((s, n) if h else None)
    return tuple(out)
def windows(rep, cls, what, ops, sh, tags, pick, pts, kinds=0):
    r = Run(rep, cls, ops, sh, kinds)
    L = [1] * len(sh.leafs)
    for ws in pts:
        for tag, (s, e) in zip(tags, ws): set_window(sh, L, tag, s, e)
        st = r.tree.find(L); w = union(ws)
        txt = "%s with the windows %s" % (what, " and ".join(show_w(x) for x in ws))
        if st is None: rep.ob("union", None, r.where, "undecided for " + txt); continue
        if st.status != "ret": rep.ob("union", False, r.where, txt + " does not return", path=path_of(st)); continue
        m = pick(st.mem.get((RET, 0)))
        g = None if m is None else got_window(r, st, m, "w", L)
        rep.ob("union", None if g is None else g == w, r.where, "merging %s gives %s instead of %s" % (txt, show_w(g) if g else g, show_w(w)), path=path_of(st))
    return r
def show_w(w): return "[%s, %s]" % tuple("absent" if p is None else "%d.%09d" % p for p in w)
def pairs():
    for a in POINTS:
        for b in POINTS:
            for x, y in ((None, None), ((7, 0), (8, 0)), (None, (5, 1)), ((5, 1), None), ((1, 0), (1, 0))): yield ((a, x), (b, y))
            for x, y in ((None, None), ((2, 0), (1, 0)), (None, (5, 1)), ((5, 1), None), ((9, 0), (9, 0))): yield ((x, a), (y, b))
def first_value(field):
    def pick(op):
        mv = metric_values(op, field) if op is not None else None
        return mv[0][1] if mv is not None and len(mv) == 1 else None
    return pick
def C20(rep):
    cs = cases(); P2 = list(pairs())
    # the operation's own window
    sh = Shape(); ops = []
    for i in range(2):
        a = T("arg", "operation%d" % i); ops.append((a, sh.op(a, [], 0, "metric_value_sets", sym=True, tag=("op", i))))
    windows(rep, "OperationAggregator", "operations", ops, sh, [("op", 0), ("op", 1)], lambda op: op, P2)
    # metric values
    for cls, field, cc in (("OperationAggregator", "metric_value_sets", ("int64", "double", "distribution")), ("QuotaOperationAggregator", "quota_metrics", ("int64",))):
        for c in cc:
            sh = Shape(); ops = []
            for i in range(2):
                a = T("arg", "operation%d" % i)
                ops.append((a, sh.op(a, [(0, [sh.value(("v", i), 0, cs[c], True)])], 0 if cls[0] == "O" else None, field, tag=i)))
            windows(rep, cls, "%s values" % c, ops, sh, [("v", 0), ("v", 1)], first_value(field), P2)
    # three operations: the union does not depend on the order
    sh = Shape(); ops = []
    for i in range(3):
        a = T("arg", "operation%d" % i); ops.append((a, sh.op(a, [], 0, "metric_value_sets", sym=True, tag=("op", i))))
    P3 = [((a, None), (b, None), (c, None)) for a in POINTS for b in POINTS[:5] for c in POINTS[:6]] + [((None, a), (None, b), (None, c)) for a in POINTS for b in POINTS[:5] for c in POINTS[:6]]
    windows(rep, "OperationAggregator", "operations", ops, sh, [("op", i) for i in range(3)], lambda op: op, P3)

# ------------------------------------------------------------------ C21
def C21(rep):
    cs = cases()
    for c0 in cs:
        for c1 in cs:
            for km in ("null", "absent", "listed"):
                if km == "absent" and c0 != c1: continue
                sh = Shape(); ops = []; vals = []
                for i, c in enumerate((c0, c1)):
                    a = T("arg", "operation%d" % i); t = sh.value(("v", i), 0, cs[c], True); vals.append(t)
                    ops.append((a, sh.op(a, [(0, [t])], 0, "metric_value_sets", tag=i)))
                kind = sh.leaf("kind")
                m = mput(EMPTYMAP, name(1), 3)
                if km == "listed": m = mput(m, name(0), kind)
                r = Run(rep, "OperationAggregator", ops, sh, 0 if km == "null" else KINDS, m)
                pts = list(pairs())[::3 if c0 != c1 else 2]
                L = [0] * len(sh.leafs)
                for k in ((0, 1, 2, 3, 4) if km == "listed" else (0,)):
                    delta = km != "listed" or k == DELTA
                    for ws in pts:
                        if any(p is not None and p[0] < 0 for w in ws for p in w): continue
                        L[sh.leafs.index(kind)] = k
                        for i in (0, 1): set_window(sh, L, ("v", i), *ws[i])
                        x, y = ((1 << 40) + 5, (1 << 33) + 7) if c0 == c1 == "int64" else (16777217.1, 0.3) if c0 == c1 == "double" else (11, 22)
                        L[sh.leafs.index(lf(("v", 0), "v"))] = x; L[sh.leafs.index(lf(("v", 1), "v"))] = y
                        st = r.tree.find(L)
                        txt = "a %s value (window %s) into a %s value (window %s) of a metric %s" % (c1, show_w(ws[1]), c0, show_w(ws[0]), "of kind %d" % k if km == "listed" else "that is not listed")
                        if st is None: rep.ob("by-kind", None, r.where, "undecided for " + txt); continue
                        if st.status != "ret": rep.ob("by-kind", False, r.where, "merging %s does not return" % txt, path=path_of(st)); continue
                        v = first_value("metric_value_sets")(st.mem.get((RET, 0)))
                        if v is None: rep.ob("by-kind", None, r.where, "undecided for " + txt); continue
                        def is_(t):
                            """v is the whole value t."""
                            if v is t: return True
                            for f in FIELDS(MV):
                                if f in ("start_time", "end_time"): continue
                                if get(v, f) is not get(t, f): return False
                            if get(v, "case:value") is not get(t, "case:value") and get(v, "case:value") != get(t, "case:value"): return False
                            g = got_window(r, st, v, "w", L); i = vals.index(t)
                            return g == tuple(ws[i])
                        if not delta:
                            e0, e1 = ws[0][1] or (0, 0), ws[1][1] or (0, 0)
                            w = vals[0] if e1 < e0 else vals[1]
                            rep.ob("later-end-wins", is_(w), r.where, "merging %s keeps %s" % (txt, "another value than the %s one" % ("earlier arrived" if w is vals[0] else "newer")), path=path_of(st)); continue
                        if c0 != c1:
                            rep.ob("other-type", is_(vals[0]), r.where, "merging %s changes the accumulated value" % txt, path=path_of(st)); continue
                        z = get(v, cs[c0][1])
                        cv = get(v, "case:value"); ok = is_c(cv) and cv == cs[c0][0] and get(v, "labels") is labels(0)
                        if c0 in ("int64", "double"):
                            got = r.val(st, "sum", z, L)
                            rep.ob("added", None if got is None else ok and got == x + y, r.where, "merging %s: %s and %s give %s" % (txt, x, y, got), path=path_of(st))
                        elif c0 == "distribution":
                            rep.ob("merged", ok and z is T("merged", lf(("v", 1), "v"), lf(("v", 0), "v")), r.where, "merging %s gives %s" % (txt, show(z)[:200]), path=path_of(st))
                        else:
                            rep.ob("kept", ok and z is lf(("v", 0), "v"), r.where, "merging %s gives %s" % (txt, show(z)[:200]), path=path_of(st))
    multi(rep, cs)
    through(rep)
def multi(rep, cs):
    """Several metrics of different kinds in one operation."""
    S = [[(0, [(0, "int64")]), (1, [(0, "int64")])], [(1, [(0, "int64")]), (0, [(0, "int64")])], [(0, [(0, "int64"), (1, "int64")]), (1, [(1, "int64")])],
         [(0, [(0, "int64")]), (0, [(0, "int64")])], [(0, [(0, "int64"), (0, "int64")])], [(1, [(0, "int64")]), (2, [(0, "int64")]), (0, [(0, "int64")])]]
    for k0 in (None, 0, 1, DELTA, 3):
        for k1 in (None, 1, DELTA, 3):
            km = mput(EMPTYMAP, name(5), 1)
            for n, k in ((0, k0), (1, k1)):
                if k is not None: km = mput(km, name(n), k)
            for sc in [(a, b) for a in S for b in S] + [(a,) for a in S[3:5]]:
                sh = Shape(); ops = []; want = {}
                for i, sets in enumerate(sc):
                    a = T("arg", "operation%d" % i); ss = []
                    for j, (n, vs) in enumerate(sets):
                        ts = []
                        for x, (l, c) in enumerate(vs):
                            tag = (i, j, x); ts.append(sh.value(tag, l, cs[c]))
                            w = lf(tag, "v"); d = {0: k0, 1: k1}.get(n)
                            want[n, l] = add(want.get((n, l), 0), w) if d in (None, DELTA) else w
                        ss.append((n, ts))
                    ops.append((a, sh.op(a, ss, 0, "metric_value_sets", tag=i)))
                r = Run(rep, "OperationAggregator", ops, sh, KINDS, km)
                what = "operations with the metrics %s, metric 0 of kind %s and metric 1 of kind %s" % (list(sc), k0, k1)
                for st in r.sts:
                    if st.status != "ret": rep.ob("each-its-own-kind", False, r.where, "merging does not return for " + what, path=path_of(st)); continue
                    op = st.mem.get((RET, 0))
                    mv = metric_values(op, "metric_value_sets") if op is not None else None
                    if mv is None: rep.ob("each-its-own-kind", None, r.where, "undecided for " + what); continue
                    got = {(nm, get(v, "labels")): get(v, "int64_value") for nm, v in mv}
                    for (n, l), w in want.items():
                        g = got.get((name(n), labels(l)))
                        rep.ob("each-its-own-kind", g is w, r.where, "the aggregate of %s holds %s for metric %d, labels %d, instead of %s" % (what, show(g)[:120] if g is not None else "nothing", n, l, show(w)[:120]), path=path_of(st))
def through(rep):
    """The kinds given to the client reach every accumulator."""
    import rules_agg as R, rules_client as C, agg
    want = T("ld", agg.KINDMAP)
    for kind in ("Check", "Report"):
        for op, n in R.allops(kind):
            for w, fn, v, st in R.each(rep, kind, op, 1, n):
                for a in R.accs(st, "new"):
                    ok = len(a.args) > 1 and a.args[1] is want
                    rep.ob("kinds-reach-aggregates", ok, at_ev(a), "%s::%s makes an aggregate with %s as its metric kinds" % (kind, op, show(a.args[1])[:60] if len(a.args) > 1 else "nothing"), chain_of(a), path_of(st))
    f, v, res = C.constructor(); rep.use(v)
    off = field_off(N + "ServiceControlClientOptions", "metric_kinds")
    src = T("ld", P(T("arg", "options"), off))
    for st in res:
        for e in st.events:
            if e.kind != "create" or e.what not in ("Check", "Report"): continue
            rep.ob("kinds-reach-aggregators", len(e.argvals) > 3 and e.argvals[3] is src, at_ev(e), "the %s aggregator is created with %s as its metric kinds" % (e.what, show(e.argvals[3])[:60] if len(e.argvals) > 3 else "nothing"), chain_of(e))
