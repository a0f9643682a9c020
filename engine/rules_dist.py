"""C24, C25 and C26: distributions. The functions are analysed with the layout
kind and the list lengths fixed and everything else symbolic (loops followed
exactly for those lengths), and their decision tables are read off on
representatives of every region of the remaining values."""
import math
from lib import *
from pure import *

C = N + "DistributionHelper::"
D = "google::api::servicecontrol::v1::Distribution"
RET = T("arg", "<ret>")
OK, INVALID = 0, 3
LIN, EXP, XPL = 7, 8, 9
LNAME = {LIN: "linear", EXP: "exponential", XPL: "explicit", 0: "no"}
STATS = ("count", "mean", "minimum", "maximum", "sum_of_squared_deviation")
PAR = {LIN: ("num_finite_buckets", "width", "offset"), EXP: ("num_finite_buckets", "growth_factor", "scale")}
FLD = {LIN: "linear_buckets", EXP: "exponential_buckets", XPL: "explicit_buckets"}
INF = float("inf"); NAN = float("nan")

def fn_of(name):
    fs = [f for f in program().find(C + name) if not f.decl]
    if not fs: raise Missing(C + name)
    return fs[0]
def lf(*a): return T("leaf", *a)

class Dist:
    """A distribution argument with concrete structure and symbolic values."""
    def __init__(self, name, kind, nb, nx=0):
        self.name = name; self.kind = kind; self.nb = nb; self.nx = nx
        self.arg = T("arg", name)
        self.leafs = [lf(name, f) for f in STATS] + [lf(name, "bucket", i) for i in range(nb)]
        t = T("ld", self.arg)
        for f in STATS: t = upd(t, f, lf(name, f))
        t = upd(t, "bucket_counts", T("list", tuple(lf(name, "bucket", i) for i in range(nb))))
        t = upd(t, "case:bucket_option", kind)
        for k, ps in PAR.items():
            m = empty(D + {LIN: "_LinearBuckets", EXP: "_ExponentialBuckets"}[k])
            if k == kind:
                for p in ps: m = upd(m, p, lf(name, p)); self.leafs.append(lf(name, p))
            t = upd(t, FLD[k], m); t = upd(t, "has:" + FLD[k], int(k == kind))
        m = empty(D + "_ExplicitBuckets")
        if kind == XPL:
            m = upd(m, "bounds", T("list", tuple(lf(name, "bound", i) for i in range(nx))))
            self.leafs += [lf(name, "bound", i) for i in range(nx)]
        t = upd(t, FLD[XPL], m); t = upd(t, "has:" + FLD[XPL], int(kind == XPL))
        self.term = t
    def values(self, stats, buckets, params):
        """Leaf values in the order of self.leafs."""
        return list(stats) + list(buckets) + list(params)
def parts_of(t):
    """What is compared of a distribution: (name, term)."""
    r = [(f, get(t, f)) for f in STATS] + [("bucket_counts", get(t, "bucket_counts")), ("layout kind", get(t, "case:bucket_option"))]
    for k, ps in PAR.items(): r += [("%s %s" % (LNAME[k], p), get(get(t, FLD[k]), p)) for p in ps]
    r.append(("bounds", get(get(t, FLD[XPL]), "bounds")))
    return r
def same(x, y, tol=0.0):
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)): return len(x) == len(y) and all(same(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, Huge) or isinstance(y, Huge): return isinstance(x, Huge) and isinstance(y, Huge) and x.n == y.n and x.set == y.set and x.x == y.x
    if x != x or y != y: return x != x and y != y
    if x == y: return True
    if tol and isinstance(x, float) or isinstance(y, float):
        if math.isinf(x) or math.isinf(y): return False
        return abs(x - y) <= tol * max(abs(x), abs(y), 1.0 if tol else 1e-300)
    return False

class Table:
    """The analysed function for one structure of its arguments."""
    def __init__(self, rep, f, dists, scal=(), mem=(), order=None):
        self.f = f; self.dists = dists
        v = new_vm(opts={"arith": True}); v.unroll = 40
        st = State()
        leafs = [x for d in dists for x in d.leafs]
        for d in dists: st.mem[(d.arg, 0)] = d.term
        for p, t, ls in mem: st.mem[(p, 0)] = t; leafs += ls
        args = ([RET] if f.sret else []) + order
        leafs += [x for x in scal]
        self.sts = v.run(v.entry(f, args, st))
        rep.use(v); v.acc = None; self.v = v
        if any(s.why == "bound" for s in self.sts): raise Limit("a loop of %s runs longer than the lists are" % f.short)
        self.code = Code(leafs); self.tree = Tree(self.sts, self.code); self.m = {}
    def val(self, st, key, term, L):
        k = (id(st), key)
        f = self.m.get(k)
        if f is None: f = self.m[k] = self.code.fn(term)
        return f(L)
    def at(self, L):
        """(state, status code) for the leaf values."""
        st = self.tree.find(L)
        if st is None: return None, None
        if st.status != "ret": return st, None
        r = st.mem.get((RET, 0)) if self.f.sret else st.ret
        try: c = self.val(st, "code", r.a[0], L) if is_t(r, "stv") else None
        except (Unk, TypeError, ValueError): c = None
        return st, c
    def out(self, st, d, L):
        """The distribution afterwards: name -> value; Oob propagates."""
        m = st.mem.get((d.arg, 0), T("ld", d.arg)); r = {}
        for n, t in parts_of(m):
            try: r[n] = self.val(st, (d.name, n), t, L)
            except (Unk, TypeError, ValueError, KeyError, OverflowError): r[n] = None
        return r
    def before(self, d, L):
        r = {}
        for n, t in parts_of(d.term): r[n] = self.val(None, ("before", d.name, n), t, L)
        return r
def diff(a, b, names=None, tol=0.0):
    """(names that differ, undecided?)"""
    bad = []; und = False
    for n in a:
        if names is not None and n not in names: continue
        if a[n] is None or b[n] is None: und = True; continue
        if not same(a[n], b[n], tol): bad.append(n)
    return bad, und
def show_params(kind, params):
    if kind == 0: return "no layout"
    if kind == XPL: return "explicit bounds %s" % (list(params),)
    return "%s buckets, %s" % (LNAME[kind], ", ".join("%s %r" % x for x in zip(PAR[kind], params)))

# ------------------------------------------------------------------ C26
def C26(rep):
    for name, kind in (("InitExponential", EXP), ("InitLinear", LIN)):
        f = fn_of(name); where = loc(f)
        for old, nb, nx in ((0, 0, 0), (EXP, 3, 0), (LIN, 5, 0), (XPL, 3, 2)):
            d = Dist("d", old, nb, nx)
            scal = [T("arg", x) for x in ("a", "b", "c")]
            t = Table(rep, f, [d], scal, order=scal + [d.arg])
            cs = {c for s in t.sts for a, _ in s.path for c in consts([a])}
            ns = sorted({-(1 << 31), -(1 << 31) + 1, -2, -1, 0, 1, 2, 3, 100, (1 << 31) - 3} | {x for c in cs if isinstance(c, int) for x in (c - 1, c, c + 1) if -(1 << 31) <= x <= (1 << 31) - 3})
            fs = [-INF, -1e308, -2.0, -1.0, -0.5, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 0.5, 0.9999999999999999, 1.0, 1.0000000000000002, 1.5, 2.0, 1e308, INF, NAN]
            fs += [x for c in sorted((c for c in cs if isinstance(c, float)), key=repr)[:6] for x in (math.nextafter(c, -INF), c, math.nextafter(c, INF)) if c == c and x not in fs]
            for n in ns:
                for x in fs:
                    for y in fs:
                        L = d.values([4, 1.5, 1.0, 2.0, 0.5], [7] * nb, (() if old == 0 else (0.5, 2.5) if old == XPL else (nb - 2, 2.0, 1.0))) + [n, x, y]
                        good = n > 0 and (x > 1 and y > 0 if kind == EXP else x > 0)
                        what = "%s(%d, %r, %r)" % (name, n, x, y)
                        st, c = t.at(L)
                        if st is None: rep.ob("decided", None, where, "undecided for " + what); continue
                        if st.status != "ret": rep.ob("returns", False, where, what + " does not return", path=path_of(st)); continue
                        rep.ob("status", None if c is None else c == (OK if good else INVALID), where, "%s answers code %s instead of %d" % (what, c, OK if good else INVALID), path=path_of(st))
                        try: o = t.out(st, d, L)
                        except Oob as e: rep.ob("in-range", False, where, "%s touches %s" % (what, e), path=path_of(st)); continue
                        b = t.before(d, L)
                        if not good:
                            bad, und = diff(o, b)
                            rep.ob("untouched", None if und and not bad else not bad, where, "%s is rejected but changes %s" % (what, ", ".join(bad)), path=path_of(st))
                            continue
                        want = {"layout kind": kind}
                        for p, z in zip(PAR[kind], (n, x, y)): want["%s %s" % (LNAME[kind], p)] = z
                        bad, und = diff(want, o)
                        rep.ob("recorded", None if und and not bad else not bad, where, "%s does not record %s as given" % (what, ", ".join(bad)), path=path_of(st))
                        bc = o["bucket_counts"]
                        rep.ob("bucket-list", None if bc is None else len(bc) == n + 2, where, "%s leaves %s buckets instead of %d" % (what, None if bc is None else len(bc), n + 2), path=path_of(st))
    f = fn_of("InitExplicit"); where = loc(f)
    for old, nb, nx in ((0, 0, 0), (XPL, 3, 2), (LIN, 6, 0)):
        for n in range(0, 5):
            d = Dist("d", old, nb, nx)
            a = T("arg", "bounds"); ls = [lf("new bound", i) for i in range(n)]
            t = Table(rep, f, [d], (), [(a, T("list", tuple(ls)) if n else NIL, ls)], order=[a, d.arg])
            vals = (-INF, -1.0, -0.0, 0.0, 1.0, 2.0, INF) if n <= 3 else (-1.0, 0.0, 1.0, 2.0, INF)
            import itertools
            for bs in itertools.product(vals, repeat=n):
                if n > 3 and len(set(bs)) < n - 1 : continue
                good = all(x < y for x, y in zip(bs, bs[1:]))
                L = d.values([4, 1.5, 1.0, 2.0, 0.5], [7] * nb, (() if old == 0 else (0.5, 2.5) if old == XPL else (nb - 2, 2.0, 1.0))) + list(bs)
                what = "InitExplicit(%s)" % (list(bs),)
                st, c = t.at(L)
                if st is None: rep.ob("decided", None, where, "undecided for " + what); continue
                if st.status != "ret": rep.ob("returns", False, where, what + " does not return", path=path_of(st)); continue
                rep.ob("status", None if c is None else c == (OK if good else INVALID), where, "%s answers code %s instead of %d" % (what, c, OK if good else INVALID), path=path_of(st))
                try: o = t.out(st, d, L)
                except Oob as e: rep.ob("in-range", False, where, "%s touches %s" % (what, e), path=path_of(st)); continue
                b = t.before(d, L)
                if not good:
                    bad, und = diff(o, b)
                    rep.ob("untouched", None if und and not bad else not bad, where, "%s is rejected but changes %s" % (what, ", ".join(bad)), path=path_of(st)); continue
                bad, und = diff({"layout kind": XPL, "bounds": list(bs)}, o)
                rep.ob("recorded", None if und and not bad else not bad, where, "%s does not record %s as given (%s)" % (what, ", ".join(bad), o["bounds"]), path=path_of(st))
                bc = o["bucket_counts"]
                rep.ob("bucket-list", None if bc is None else len(bc) == n + 1, where, "%s leaves %s buckets instead of %d" % (what, None if bc is None else len(bc), n + 1), path=path_of(st))

# ------------------------------------------------------------------ C25
def expected(kind, params, x):
    """The bucket of x: exact for the representatives used, None when rounding may decide."""
    if kind == XPL: return sum(1 for b in params if not x < b) if x == x else None
    n = params[0]
    if x != x: return None
    if kind == LIN:
        w, o = params[1:]
        if w != w or o != o or math.isinf(w) or math.isinf(o) or (x - o) + w == x - o or o + w == o: return None
        if x < o: return 0
        if math.isinf(x): return n + 1
        q = (x - o) / w
        if q != q: return None
        if math.isinf(q): return n + 1
        if abs(q - round(q)) < 1e-9 * max(1, abs(q)) and (q != int(q) or math.frexp(w)[0] != 0.5): return None   # another rounding is as good
        return min(int(q), n) + 1
    g, s = params[1:]
    if g != g or s != s or math.isinf(g) or math.isinf(s): return None
    if x < s: return 0
    if math.isinf(x) or math.isinf(x / s): return n + 1
    q = math.log2(x / s) / math.log2(g)
    if abs(q - round(q)) < 1e-9 * max(1, abs(q)) and not (g in (2.0, 4.0) and s in (1.0, 0.5, 2.0) and q == int(q)): return None
    return n + 1 if q >= n else min(int(q), n) + 1
LAYOUTS = {
 LIN: [(1, 1.0, 0.0), (3, 0.5, -1.0), (4, 1e-300, 0.0), (2, 1e300, -1e300), (2, INF, 0.0), (2, 1.0, INF), (2, 1.0, -INF), (2, 1.0, NAN), (3, 5e-324, 1e308), (3, 0.1, 0.7)],
 EXP: [(1, 2.0, 1.0), (3, 2.0, 0.5), (3, 4.0, 2.0), (4, 1.0000000000000002, 1.0), (2, INF, 1.0), (2, 2.0, INF), (3, 2.0, 5e-324), (2, 1e308, 1e-308), (3, 1.1, 1e300), (3, 1.7, 0.3)],
 XPL: [(), (0.0,), (-1.0, 2.0), (1.0, 2.0, 4.0), (-INF, 0.0, INF), (-5.0, -1.0, 0.5, 7.0)],
}
def C25(rep):
    f = fn_of("AddSample"); where = loc(f)
    base = [-INF, -1.7976931348623157e308, -1e300, -1e10, -3.0, -1.0, -0.5, -5e-324, -0.0, 0.0, 5e-324, 1e-300, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 8.0, 1e10, 4e18, 1e19, 1e300, 1.7976931348623157e308, INF, NAN]
    x = T("arg", "value")
    for kind in (LIN, EXP, XPL, 0):
        groups = {}
        for p in LAYOUTS.get(kind, [()]):
            nb = (len(p) + 1 if kind == XPL else p[0] + 2) if kind else 0
            groups.setdefault((nb, len(p) if kind == XPL else 0), []).append(p)
        if not kind: groups[(3, 0)] = [()]
        for (nb, nx), ps in groups.items():
            d = Dist("d", kind, nb, nx)
            t = Table(rep, f, [d], [x], order=[x, d.arg])
            cs = {float(c) for s in t.sts for a, _ in s.path for c in consts([a]) if c == c and abs(c) < 1e300}
            vals = base + [y for c in sorted(cs)[:12] for y in (math.nextafter(c, -INF), c, math.nextafter(c, INF)) if y not in base]
            for p in ps:
                vs = list(vals)
                for b in (p if kind == XPL else ()): vs += [math.nextafter(b, -INF), b, math.nextafter(b, INF)] if not math.isinf(b) else [b]
                if kind == LIN and not any(math.isinf(z) or z != z for z in p[1:]):
                    for i in range(p[0] + 1):
                        e = p[2] + i * p[1]; vs += [math.nextafter(e, -INF), e, math.nextafter(e, INF), e + p[1] * 0.5]
                if kind == EXP and not any(math.isinf(z) for z in p[1:]):
                    for i in range(p[0] + 1):
                        try: e = p[2] * p[1] ** i
                        except OverflowError: continue
                        if not math.isinf(e): vs += [math.nextafter(e, -INF), e, math.nextafter(e, INF), e * (1 + (p[1] - 1) * 0.3)]
                for cnt, stats in ((0, [0, 0.0, 0.0, 0.0, 0.0]), (3, [3, 1.5, 1.0, 2.0, 0.5]), (4, [4, 1.1, 0.3, 2.7, 3.3]), (1, [1, -INF, -INF, -INF, 0.0]), (1 << 32, [1 << 32, 1.5, 1.0, 2.0, 0.5]), ((1 << 53) + 2, [(1 << 53) + 2, -2.0, -7.5, -1.0, 1e6])):
                    for y in vs:
                        L = d.values(stats, [(10 if cnt < 9 else cnt - 50) + i for i in range(nb)], p) + [y]
                        what = "a sample %r with %s and a count of %d" % (y, show_params(kind, p), cnt)
                        st, c = t.at(L)
                        if st is None: rep.ob("decided", None, where, "undecided for " + what); continue
                        if st.status != "ret": rep.ob("returns", False, where, "adding %s does not return" % what, path=path_of(st)); continue
                        rep.ob("status", None if c is None else c == (OK if kind else INVALID), where, "adding %s answers code %s instead of %d" % (what, c, OK if kind else INVALID), path=path_of(st))
                        b = t.before(d, L)
                        try: o = t.out(st, d, L)
                        except Oob as e: rep.ob("existing-bucket", False, where, "adding %s touches %s" % (what, e), path=path_of(st)); continue
                        if not kind:
                            bad, und = diff(o, b)
                            rep.ob("untouched", None if und and not bad else not bad, where, "adding %s changes %s although it is rejected" % (what, ", ".join(bad)), path=path_of(st)); continue
                        for e in st.events:
                            if e.kind != "fptosi": continue
                            try: z = t.val(st, ("conv", id(e)), e.src, L)
                            except (Unk, TypeError, ValueError, OverflowError): continue
                            n = int(e.to[1:])
                            rep.ob("conversion", z == z and -(1 << (n - 1)) - 1 < z < (1 << (n - 1)), at_ev(e), "adding %s converts %r to a %d-bit integer, which is undefined" % (what, z, n), chain_of(e))
                        bc, old = o["bucket_counts"], b["bucket_counts"]
                        if bc is None: rep.ob("one-bucket", None, where, "undecided for " + what); continue
                        inc = [(i, q - r) for i, (q, r) in enumerate(zip(bc, old)) if q != r]
                        rep.ob("one-bucket", len(bc) == len(old) and len(inc) == 1 and inc[0][1] == 1, where, "adding %s changes the bucket counts by %s instead of adding one to exactly one of them" % (what, inc if len(bc) == len(old) else "number"), path=path_of(st))
                        w = expected(kind, p, y)
                        if w is not None and len(inc) == 1:
                            rep.ob("right-bucket", inc[0][0] == w, where, "adding %s counts it in bucket %d instead of %d" % (what, inc[0][0], w), path=path_of(st))
                        rep.ob("count", None if o["count"] is None else o["count"] == cnt + 1, where, "adding %s makes the count %s" % (what, o["count"]), path=path_of(st))
                        if y == y:
                            wmin = y if cnt == 0 else min(y, stats[2]); wmax = y if cnt == 0 else max(y, stats[3])
                            rep.ob("extremes", None if o["minimum"] is None or o["maximum"] is None else same(o["minimum"], wmin) and same(o["maximum"], wmax), where, "adding %s makes the extremes %s and %s instead of %s and %s" % (what, o["minimum"], o["maximum"], wmin, wmax), path=path_of(st))
                        if y == y and abs(y) < 1e100 and not math.isinf(stats[1]):
                            m = (stats[0] * stats[1] + y) / (cnt + 1); q = stats[4] + (0 if cnt == 0 else (y - stats[1]) * (y - m))
                            ok = None if o["mean"] is None or o["sum_of_squared_deviation"] is None else close(o["mean"], m, cnt) and close(o["sum_of_squared_deviation"], q, cnt)
                            rep.ob("moments", ok, where, "adding %s makes mean and squared deviation %s and %s instead of %s and %s" % (what, o["mean"], o["sum_of_squared_deviation"], m, q), path=path_of(st))
                        bad, und = diff(o, b, [n for n in o if n not in STATS and n != "bucket_counts"])
                        rep.ob("layout-kept", None if und and not bad else not bad, where, "adding %s changes %s" % (what, ", ".join(bad)), path=path_of(st))
def close(x, y, n=1 << 32):
    """Equal up to rounding: another order of the same additions is as good, single precision is not."""
    return same(x, y, 1e-6 if n > 100 else 1e-10) or abs(x - y) < (1e-9 if n > 100 else 1e-12)

# ------------------------------------------------------------------ C24
MERGE = {LIN: [(2, 1.0, 0.5), (2, 1.0, 0.0), (2, 3.0, -4.0)], EXP: [(2, 2.0, 1.0), (2, 1.5, 8.0)], XPL: [(), (1.0,), (-1.0, 2.0), (1.0, 2.0, 5.0)]}
def C24(rep):
    f = fn_of("Merge"); where = loc(f)
    def run(t, a, b, pa, pb, sa, sb, ba, bb, match):
        L = a.values(sa, ba, pa) + b.values(sb, bb, pb)
        what = "merging (%s, count %d) into (%s, count %d)" % (show_params(a.kind, pa) + ", %d bucket counts" % a.nb, sa[0], show_params(b.kind, pb) + ", %d bucket counts" % b.nb, sb[0])
        st, c = t.at(L)
        if st is None: rep.ob("decided", None, where, "undecided for " + what); return
        if st.status != "ret": rep.ob("returns", False, where, what + " does not return", path=path_of(st)); return
        rep.ob("status", None if c is None else c == (OK if match else INVALID), where, "%s answers code %s instead of %d" % (what, c, OK if match else INVALID), path=path_of(st))
        x, y = t.before(a, L), t.before(b, L)
        try: o, o2 = t.out(st, b, L), t.out(st, a, L)
        except Oob as e: rep.ob("in-range", False, where, "%s touches %s" % (what, e), path=path_of(st)); return
        bad, und = diff(o2, x)
        rep.ob("source-kept", None if und and not bad else not bad, where, "%s changes the source's %s" % (what, ", ".join(bad)), path=path_of(st))
        if not match or sa[0] <= 0: want = dict(y); rule = "no-effect"
        elif sb[0] <= 0: want = dict(x); rule = "becomes-source"
        else:
            rule = "complete"; want = dict(y)
            n = sa[0] + sb[0]; m = (sa[0] * sa[1] + sb[0] * sb[1]) / n
            want.update(count=n, mean=m, minimum=min(sa[2], sb[2]), maximum=max(sa[3], sb[3]), bucket_counts=[p + q for p, q in zip(ba, bb)],
                        sum_of_squared_deviation=sa[4] + sb[4] + sa[0] * (m - sa[1]) ** 2 + sb[0] * (m - sb[1]) ** 2)
        bad, und = diff(o, want, tol=1e-6 if max(sa[0], sb[0]) > 100 else 1e-10)
        rep.ob(rule, None if und and not bad else not bad, where, "%s leaves %s" % (what, "; ".join("%s %s instead of %s" % (n, o[n], want[n]) for n in bad)), path=path_of(st))
    S = [(0, 0.0, 0.0, 0.0, 0.0), (2, 1.5, 1.0, 2.0, 0.5), (4, 1.1, 0.3, 2.7, 3.3), (3, -4.0, -9.0, 1.5, 54.0), (7, 10.0, 3.0, 30.0, 600.0), (-1, 2.0, 2.0, 2.0, 0.0), (1, 2.5, 2.5, 2.5, 0.0), (1 << 32, 1.25, -3.0, 1.5, 7e9), ((1 << 31) + 5, -0.5, -1e9, -0.25, 3e9)]
    tabs = {}
    def tab(ka, na, xa, kb, nb, xb):
        k = (ka, na, xa, kb, nb, xb)
        if k not in tabs:
            a, b = Dist("from", ka, na, xa), Dist("to", kb, nb, xb)
            tabs[k] = (Table(rep, f, [a, b], order=[a.arg, b.arg]), a, b)
        return tabs[k]
    nbk = lambda k, p: (len(p) + 1 if k == XPL else p[0] + 2) if k else 2
    def bks(n, z, more=0): return [(z * (i + 3) * 7 + i) % 13 + max(more, 0) for i in range(n)]
    # the same layout, every combination of contents
    for k in (LIN, EXP, XPL):
        for p in MERGE[k]:
            n = nbk(k, p)
            for na, nb in ((n, n), (0, 0), (n, n - 1), (n - 1, n), (n, 0), (0, n), (n + 1, n)):
                t, a, b = tab(k, na, len(p) if k == XPL else 0, k, nb, len(p) if k == XPL else 0)
                for sa in S:
                    for sb in S: run(t, a, b, p, p, sa, sb, bks(na, sa[0] + 2, sa[0] >> 3), bks(nb, sb[0] + 5, sb[0] >> 3), na == nb)
    # one thing about the layout differs
    few = (S[0], S[1], S[2])
    for k in (LIN, EXP, XPL):
        for p in MERGE[k]:
            alts = []
            if k != XPL:
                alts.append((p[0] + 1,) + p[1:]); alts.append((p[0] - 1,) + p[1:])
                for j in (1, 2):
                    for z in (p[j] * 1.5, p[j] * 0.5, -p[j], p[j] + 1, p[j] - 0.25, p[j] * 1000, p[j] + 0.01): alts.append(p[:j] + (z,) + p[j + 1:])
            else:
                for j in range(len(p)):
                    for z in (p[j] * 1.5, p[j] * 0.5, -p[j], p[j] + 0.01, p[j] - 0.01): alts.append(p[:j] + (z,) + p[j + 1:])
                alts.append(p + (100.0,))
                if p: alts.append(p[:-1])
            for q in alts:
                if q == p: continue
                for n in {nbk(k, p), nbk(k, q)}:
                    for u, w in ((p, q), (q, p)):
                        t, a, b = tab(k, n, len(u) if k == XPL else 0, k, n, len(w) if k == XPL else 0)
                        for sa in few:
                            for sb in few: run(t, a, b, u, w, sa, sb, bks(n, 3), bks(n, 4), False)
    # layouts of different kinds, and none
    for k1 in (0, LIN, EXP, XPL):
        for k2 in (0, LIN, EXP, XPL):
            if k1 == k2 and k1: continue
            p1 = {0: (), LIN: (2, 2.0, 1.0), EXP: (2, 2.0, 1.0), XPL: (1.0, 2.0, 3.0)}[k1]; p2 = {0: (), LIN: (2, 2.0, 1.0), EXP: (2, 2.0, 1.0), XPL: (1.0, 2.0, 3.0)}[k2]
            for n in (0, 4):
                t, a, b = tab(k1, n, len(p1) if k1 == XPL else 0, k2, n, len(p2) if k2 == XPL else 0)
                for sa in few:
                    for sb in few: run(t, a, b, p1, p2, sa, sb, bks(n, 3), bks(n, 4), False)
