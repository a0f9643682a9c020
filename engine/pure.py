"""Tables of functions without loops: the branch conditions of a function are
collected into a decision tree over the leaves of the terms (fields of the
arguments). The tree is then read off on one representative per region of the
leaves' values; nothing of /repo is executed."""
import math, struct
from lib import *

def _sdiv(x, y):
    if y == 0: raise Unk()
    q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
def _srem(x, y):
    if y == 0: raise Unk()
    q = abs(x) % abs(y); return q if x >= 0 else -q
def _trunc(n, x):
    if not isinstance(x, int): raise Unk()
    x &= (1 << n) - 1
    return x if n == 1 or x < (1 << (n - 1)) else x - (1 << n)
def _fdiv(x, y):
    if y == 0: return float("nan") if x == 0 or x != x else math.copysign(float("inf"), x) * math.copysign(1, y)
    return x / y
def _f2i(x):
    if x != x or math.isinf(x): raise Unk()
    return int(x)
def _ovf(f):
    def g(*a):
        try: return f(*a)
        except OverflowError: return float("inf")
    return g
def _fn(name):
    def g(x):
        if x != x: return x
        if name == "fabs": return abs(x)
        if math.isinf(x): return x
        return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.floor(abs(v) + 0.5) * (1 if v > 0 else -1)}[name](x))
    return g
def _log(name):
    f = {"log2": math.log2, "log": math.log, "log10": math.log10, "log1p": math.log1p}[name]
    def g(x):
        if x != x: return x
        y = x + (1 if name == "log1p" else 0)
        if y < 0: return float("nan")
        if y == 0: return float("-inf")
        if math.isinf(x): return x
        return f(x)
    return g
def _pow(x, y):
    try: return math.pow(x, y)
    except OverflowError: return float("inf") if x > 0 or y % 2 == 0 else float("-inf")
    except ValueError: return float("inf") if x == 0 else float("nan")
def _exp(x):
    try: return math.exp(x)
    except OverflowError: return float("inf")
def _fmm(name):
    def g(x, y):
        if x != x: return y
        if y != y: return x
        return min(x, y) if name == "fmin" else max(x, y)
    return g
def _shl(x, n): return x << n if 0 <= n < 64 else _unk()
def _lshr(x, n): return (x % (1 << 64)) >> n if 0 <= n < 64 else _unk()
def _ashr(x, n): return x >> n if 0 <= n < 64 else _unk()
def _unk(): raise Unk()
def _bits(op):
    def g(x, y):
        if not isinstance(x, int) or not isinstance(y, int): raise Unk()
        return x & y if op == "and" else x | y if op == "or" else x ^ y
    return g
def _f32(x):
    try: return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError: return math.copysign(float("inf"), x)
def _dbits(x): return struct.unpack("<q", struct.pack("<d", x))[0]

class Oob(Exception):
    """A list position that does not exist."""
BIG = 1 << 16
class Huge:
    """A list of n equal elements too long to be written out."""
    def __init__(self, n, x): self.n = n; self.x = x; self.set = {}
    def __len__(self): return self.n
def _at(l, i):
    if not isinstance(i, int): raise Unk()
    if not 0 <= i < len(l): raise Oob("position %d of a list of %d" % (i, len(l)))
    if isinstance(l, Huge): return l.set.get(i, l.x)
    return l[i]
def _setat(l, i, x):
    _at(l, i)
    if isinstance(l, Huge):
        r = Huge(l.n, l.x); r.set = dict(l.set); r.set[i] = x; return r
    l = list(l); l[i] = x; return l
def _resized(l, n, x):
    if n < 0: raise Oob("a list of %d elements" % n)
    if n > BIG:
        r = Huge(n, x); r.set = dict(enumerate(l)); return r
    return list(l[:n]) + [x] * (n - len(l))
def _issorted(l): return int(not any(y < x for x, y in zip(l, l[1:])))
def _adjdup(l): return int(any(y == x for x, y in zip(l, l[1:])))
def _ub(kind, l, v):
    first = 0; n = len(l)
    while n > 0:
        h = n // 2
        if (kind.startswith("upper") and not v < l[first + h]) or (kind.startswith("lower") and l[first + h] < v): first += h + 1; n -= h + 1
        else: n = h
    return first

class Code:
    """Terms as Python functions of the leaves."""
    def __init__(self, leafs, more=None):
        self.leaf = {t: "L[%d]" % i for i, t in enumerate(leafs)}
        self.memo = {}; self.ns = {"Unk": Unk, "inf": float("inf"), "nan": float("nan")}; self.more = more or {}; self.n = 0
        for n, f in (("_sdiv", _sdiv), ("_srem", _srem), ("_trunc", _trunc), ("_fdiv", _fdiv), ("_f2i", _f2i), ("_unk", _unk),
                     ("_pow", _pow), ("_exp", _exp), ("_shl", _shl), ("_lshr", _lshr), ("_ashr", _ashr), ("math", math), ("_at", _at), ("_setat", _setat), ("_resized", _resized), ("_issorted", _issorted), ("_adjdup", _adjdup), ("_ub", _ub)): self.ns[n] = f
    def name(self, obj):
        self.n += 1; k = "_o%d" % self.n
        self.ns[k] = obj; return k
    def src(self, t):
        if isinstance(t, int): return "(%d)" % t
        if isinstance(t, float): return self.name(t)
        if isinstance(t, str): return repr(t)
        r = self.memo.get(t)
        if r is None:
            r = self._src(t)
            if len(r) > 200:      # shared terms become functions of their own
                k = "_s%d" % len(self.memo)
                exec("def %s(L): return %s" % (k, r), self.ns); r = "%s(L)" % k
            self.memo[t] = r
        return r
    def _src(self, t):
        if t in self.leaf: return self.leaf[t]
        h = t.h; a = t.a; E = self.src
        if h in self.more:
            return "%s(%s)" % (self.name(self.more[h]), ", ".join(E(x) for x in a))
        if h == "sum": return "(" + " + ".join([str(a[0])] + ["%d*%s" % (k, E(x)) for x, k in a[1]]) + ")"
        if h == "mul": return "(%s*%s)" % (E(a[0]), E(a[1]))
        if h in ("sdiv", "srem"): return "_%s(%s, %s)" % (h, E(a[0]), E(a[1]))
        if h in ("shl", "lshr", "ashr"): return "_%s(%s, %s)" % (h, E(a[0]), E(a[1]))
        if h == "urem" and a[1] == 1 << 64: return "(%s %% (1 << 64))" % E(a[0])
        if h == "f32": return "%s(%s)" % (self.name(_f32), E(a[0]))
        if h in ("udiv", "urem"): return "((%s %% (1 << 64)) %s ((%s %% (1 << 64)) or _unk()))" % (E(a[0]), "//" if h == "udiv" else "%", E(a[1]))
        if h == "eq": return "int(%s == %s)" % (E(a[0]), E(a[1]))
        if h == "seq": return "int(%s == %s)" % (E(a[0]), E(a[1]))
        if h == "str": return repr(a[0])
        if h == "slen": return "len(%s)" % E(a[0])
        if h == "lt": return "int(%s < %s)" % (E(a[0]), E(a[1]))
        if h == "ult": return "int(%s %% (1 << 64) < %s %% (1 << 64))" % (E(a[0]), E(a[1]))
        if h == "not": return "int(not %s)" % E(a[0])
        if h in ("and", "or"):
            return "int(bool(%s) %s bool(%s))" % (E(a[0]), h, E(a[1]))
        if h in ("band", "bor"): return "%s(%s, %s)" % (self.name(_bits(h[1:])), E(a[0]), E(a[1]))
        if h == "bool" and a[0] == "xor": return "int(bool(%s) != bool(%s))" % (E(a[1]), E(a[2]))
        if h == "xor": return "%s(%s, %s)" % (self.name(_bits(h)), E(a[0]), E(a[1]))
        if h == "f": return self.name(a[0])
        if h in ("fadd", "fsub", "fmul"): return "(%s %s %s)" % (E(a[0]), {"fadd": "+", "fsub": "-", "fmul": "*"}[h], E(a[1]))
        if h == "fdiv": return "_fdiv(%s, %s)" % (E(a[0]), E(a[1]))
        if h == "fneg": return "(-%s)" % E(a[0])
        if h == "fcmp":
            p = a[0]; x, y = E(a[1]), E(a[2])
            if p == "ord": return "int(%s == %s and %s == %s)" % (x, x, y, y)
            if p == "inf": return "int(math.isinf(%s))" % x
            if p == "one": return "int(%s < %s or %s > %s)" % (x, y, x, y)
            return "int(%s %s %s)" % (x, {"oeq": "==", "olt": "<", "ole": "<="}[p], y)
        if h == "i2f": return "float(%s)" % E(a[0])
        if h == "f2i": return "_f2i(%s)" % E(a[0])
        if h in ("floor", "ceil", "fabs", "trunc", "round") and len(a) == 1: return "%s(%s)" % (self.name(_fn(h)), E(a[0]))
        if h == "trunc": return "_trunc(%s, %s)" % (E(a[0]), E(a[1]))
        if h in ("log2", "log", "log10", "log1p"): return "%s(%s)" % (self.name(_log(h)), E(a[0]))
        if h in ("fmin", "fmax"): return "%s(%s, %s)" % (self.name(_fmm(h)), E(a[0]), E(a[1]))
        if h in ("pow", "exp"): return "_%s(%s)" % (h, ", ".join(E(x) for x in a))
        if h == "ite": return "(%s if %s else %s)" % (E(a[1]), E(a[0]), E(a[2]))
        if h == "abs": return "abs(%s)" % E(a[0])
        if h == "list": return "[" + ", ".join(E(x) for x in a[0]) + "]"
        if h in ("nil", "emptymap"): return "[]"
        if h == "size": return "len(%s)" % E(a[0])
        if h == "at": return "_at(%s, %s)" % (E(a[0]), E(a[1]))
        if h == "setat": return "_setat(%s, %s, %s)" % (E(a[0]), E(a[1]), E(a[2]))
        if h == "append": return "(%s + [%s])" % (E(a[0]), E(a[1]))
        if h == "concat": return "(%s + %s)" % (E(a[0]), E(a[1]))
        if h == "replicate": return "([%s] * %s)" % (E(a[1]), E(a[0]))
        if h == "resized": return "_resized(%s, %s, %s)" % (E(a[0]), E(a[1]), E(a[2]))
        if h == "issorted": return "_issorted(%s)" % E(a[0])
        if h == "adjdup" and a[1] == 2: return "_adjdup(%s)" % E(a[0])
        if h == "adjpos": return "(0 if _adjdup(%s) else len(%s))" % (E(a[0]), E(a[0]))
        if h == "ub": return "_ub(%r, %s, %s)" % (a[0], E(a[1]), E(a[2]))
        if h == "iter" and len(a) > 2 and isinstance(a[2], int): return "(%s*%d)" % (E(a[1]), a[2])
        if h == "undef": return "_unk()"
        if h == "unset": return "987654321"      # whatever was in memory
        return "_unk()"
    def fn(self, t):
        """A function from the leaf values to t's value (raises Unk)."""
        return eval("lambda L: " + self.src(t), self.ns)

class Tree:
    """The paths of a function as a decision tree."""
    def __init__(self, states, code):
        self.code = code; self.f = {}; self.unk = 0
        self.root = self.build(states, 0)
    def build(self, sts, d):
        if not sts: return None
        done = [s for s in sts if len(s.path) <= d]
        if done: return ("leaf", done[0]) if len(sts) == 1 else ("any", sts)
        a = sts[0].path[d][0]
        if any(s.path[d][0] is not a for s in sts): return ("any", sts)
        return ("if", self.atom(a), self.build([s for s in sts if s.path[d][1]], d + 1), self.build([s for s in sts if not s.path[d][1]], d + 1))
    def atom(self, a):
        f = self.f.get(a)
        if f is None: f = self.f[a] = self.code.fn(a)
        return f
    def find(self, L):
        """The state reached for these leaf values; None when unknown."""
        n = self.root
        try:
            while n is not None:
                if n[0] == "leaf": return n[1]
                if n[0] == "any":
                    for s in n[1]:
                        if all(bool(self.atom(a)(L)) == b for a, b in s.path): return s
                    return None
                n = n[2] if n[1](L) else n[3]
        except (Unk, TypeError, ValueError, OverflowError, IndexError): pass
        self.unk += 1
        return None

def consts(ts):
    """Integer and floating constants in terms: where behaviour may change."""
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.h == "f": out.add(x.a[0])
            for y in x.a:
                if isinstance(y, int) and not isinstance(y, bool): out.add(y)
                if isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, int): out.add(w)
                        elif isinstance(z, int): out.add(z)
    return out
