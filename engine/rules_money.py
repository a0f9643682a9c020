"""C27 and C28: money. Functions of comparisons and linear arithmetic, so their
decision tables are read off completely on representatives of every region the
constants of the code and of the property cut out."""
from lib import *
from pure import *

MAX = (1 << 63) - 1; MIN = -(1 << 63); G = 10**9; OK, INVALID, RANGE = 0, 3, 11
RET = T("arg", "<ret>")
FIELDS = ("currency_code", "units", "nanos")
def leafs(*names): return [get(T("ld", T("arg", n)), f) for n in names for f in FIELDS]

def fn_of(name):
    fs = [f for f in program().find(N + name) if not f.decl]
    if not fs: raise Missing(N + name)
    return fs[0]
def table(rep, f, names, out_ret):
    v = new_vm(opts={"arith": True})
    args = ([RET] if f.sret else []) + [T("arg", n) for n in names]
    sts = v.analyse(f, args)
    rep.use(v); v.acc = None
    code = Code(leafs("a", "b", "c"))
    return v, sts, code, Tree(sts, code)
def points(sts, bits, base, lim):
    """Values around every constant the conditions and results mention."""
    hi = (1 << (bits - 1)) - 1
    cs = set()
    for s in sts:
        for a, _ in s.path: cs |= {c for c in consts([a]) if isinstance(c, int)}
    out = set(base)
    for c in sorted(cs, key=abs):
        for d in (c - 1, c, c + 1, -c, -c - 1, -c + 1):
            if -hi - 1 <= d <= hi and len(out) < lim: out.add(d)
    return sorted(out)
UNITS = (MIN, MIN + 1, MIN + 2, -2, -1, 0, 1, 2, MAX - 2, MAX - 1, MAX)
WIDE = tuple(s * x for x in (1 << 31, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, 1 << 62, 3 << 61, (5 << 60) + 12345678901) for s in (1, -1))
NANOS = (0, 1, -1, 2, -2, 499999999, 500000000, 500000001, -499999999, -500000000, -500000001, 999999998, 999999999, -999999998, -999999999)
def valid(u, n): return not (u > 0 and n < 0 or u < 0 and n > 0) and -999999999 <= n <= 999999999

class Value:
    """Terms of an outcome as functions, compiled once per state."""
    def __init__(self, code): self.code = code; self.m = {}
    def __call__(self, st, key, term, L):
        k = (id(st), key)
        f = self.m.get(k)
        if f is None: f = self.m[k] = self.code.fn(term)
        return f(L)

def arith(rep, rule, f, st, val, L, what):
    """Every signed operation on the path stays within its type."""
    for n, e in enumerate(st.events):
        if e.kind != "arith": continue
        try: x = val(st, ("arith", n), e.val, L)
        except (Unk, TypeError, ValueError): continue
        if not isinstance(x, int): continue
        h = 1 << (e.bits - 1)
        if not -h <= x < h:
            rep.ob(rule, False, at_ev(e), "%s overflows its type internally (a signed %s) for %s" % (f.short.split("::")[-1], e.op, what), chain_of(e)); return

def status_code(t): return t.a[0] if is_t(t, "stv") else None

def C27(rep):
    f = fn_of("ValidateMoney")
    v, sts, code, tree = table(rep, f, ["a"], True)
    val = Value(code)
    where = loc(f)
    us = points(sts, 64, UNITS + WIDE, 80); ns = points(sts, 32, NANOS + (1000000000, -1000000000, (1 << 31) - 1, -(1 << 31)), 80)
    codes = ["", "U", "US", "USD", "USDX", "U" * 40, "U" * 259]
    L = [""] * 9
    for c in codes:
        for u in us:
            for n in ns:
                L[0], L[1], L[2] = c, u, n
                want = OK if len(c) == 3 and valid(u, n) else INVALID
                st = tree.find(L)
                what = "a currency code of %d letters, units %d, nanos %d" % (len(c), u, n)
                if st is None: rep.ob("accepts-exactly", None, where, "undecided for " + what); continue
                if st.status != "ret": rep.ob("accepts-exactly", False, where, "ValidateMoney does not return for " + what, path=path_of(st)); continue
                r = st.mem.get((RET, 0)) if f.sret else st.ret
                try: got = val(st, "code", status_code(r), L) if is_t(r, "stv") else None
                except (Unk, TypeError, ValueError): got = None
                rep.ob("accepts-exactly", None if got is None else got == want, where, "ValidateMoney answers code %s instead of %d for %s" % (got, want, what), path=path_of(st))
                arith(rep, "no-overflow", f, st, val, L, what)
    g = fn_of("GetAmountSign")
    v, sts, code, tree = table(rep, g, ["a"], False)
    val = Value(code)
    us = points(sts, 64, UNITS + WIDE, 80); ns = points(sts, 32, NANOS, 80)
    L = ["USD", 0, 0] + [""] * 6
    for u in us:
        for n in ns:
            if not valid(u, n): continue
            L[1], L[2] = u, n
            x = u if u else n
            want = (x > 0) - (x < 0)
            st = tree.find(L); what = "units %d, nanos %d" % (u, n)
            if st is None: rep.ob("sign", None, loc(g), "undecided for " + what); continue
            try: got = val(st, "ret", st.ret, L)
            except (Unk, TypeError, ValueError, AttributeError): got = None
            rep.ob("sign", None if got is None else got == want, loc(g), "GetAmountSign answers %s instead of %d for %s" % (got, want, what), path=path_of(st))
            arith(rep, "no-overflow", g, st, val, L, what)

def C28(rep):
    for name in ("TryAddMoney", "SaturatedAddMoney"):
        f = fn_of(name)
        sat = name != "TryAddMoney"
        names = ["a", "b"] if sat else ["a", "b", "c"]
        v, sts, code, tree = table(rep, f, names, True)
        val = Value(code)
        us = points(sts, 64, UNITS + WIDE[2:4] + WIDE[8:10], 26); ns = points(sts, 32, NANOS, 24)
        ns = [n for n in ns if -G < n < G]
        ms = [(u, n) for u in us for n in ns if valid(u, n)]
        outp = RET if sat else T("arg", "c")
        where = loc(f)
        def run(ca, a, cb, b):
            L = [ca, a[0], a[1], cb, b[0], b[1], "ZZZ", 777, 5]
            st = tree.find(L)
            what = "%s %d units %d nanos plus %s %d units %d nanos" % (ca, a[0], a[1], cb, b[0], b[1])
            if st is None: rep.ob("decided", None, where, "undecided for " + what); return
            if st.status != "ret":
                rep.ob("returns", sat and ca != cb, where, "%s does not return for %s" % (name, what), path=path_of(st)); return
            m = st.mem.get((outp, 0))
            if m is None: m = T("ld", outp)
            try: got = tuple(val(st, k, get(m, k), L) for k in FIELDS)
            except (Unk, TypeError, ValueError): got = None
            rc = None
            if not sat:
                r = st.mem.get((RET, 0)) if f.sret else st.ret
                try: rc = val(st, "code", status_code(r), L) if is_t(r, "stv") else None
                except (Unk, TypeError, ValueError): rc = None
            if ca != cb:
                if sat: return
                rep.ob("currency", None if rc is None or got is None else rc == INVALID and got == ("", 0, 0), where, "%s answers code %s with the result %s for different currencies (%s)" % (name, rc, got, what), path=path_of(st))
                return
            t = (a[0] + b[0]) * G + a[1] + b[1]
            if t > MAX * G + G - 1: want, wc = (ca, MAX, G - 1), RANGE
            elif t < MIN * G - G + 1: want, wc = (ca, MIN, -G + 1), RANGE
            else: want, wc = (ca, abs(t) // G * (1 if t > 0 else -1), abs(t) % G * (1 if t > 0 else -1)), OK
            rep.ob("sum", None if got is None else got == want, where, "%s gives %s instead of %s for %s" % (name, got, want, what), path=path_of(st))
            if not sat: rep.ob("code", None if rc is None else rc == wc, where, "%s answers code %s instead of %d for %s" % (name, rc, wc, what), path=path_of(st))
            arith(rep, "no-overflow", f, st, val, L, what)
        few = ms[:: max(1, len(ms) // 12)]
        for a in few:
            for b in few:
                for ca, cb in (("USD", "EUR"), ("", "USD"), ("USD", ""), ("USD", "USDX"), ("usd", "USD"), ("USE", "USD")): run(ca, a, cb, b)
        for a in ms:
            for b in ms: run("USD", a, "USD", b)
        rep.note("%s: %d paths, %d values, %d pairs" % (name, len(sts), len(ms), len(ms) ** 2))
