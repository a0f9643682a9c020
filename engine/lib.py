"""Shared by the rules: program loading and running the analysis."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, prog
from terms import *
import terms, models, vm as vmmod
from vm import *
N = "google::service_control_client::"
SC = "google::api::servicecontrol::v1::"
_prog = None; _cfg = (); _scale = 1
_caches = []       # cleared when the configuration changes
def configure(cfg, scale):
    """Compiler flags and how much larger than usual the limits are."""
    global _prog, _cfg, _scale
    if cfg != _cfg:
        _prog = None
        for c in _caches: c.clear()
    _cfg = cfg; _scale = scale
def cache():
    d = {}; _caches.append(d); return d
def program():
    global _prog
    if _prog is None:
        path, src = build.compile_all(_cfg)
        _prog = prog.Program(path); _prog.sources = src
    return _prog
def new_vm(boundary=None, **kw):
    opts = kw.pop("opts", {})
    for k, d in (("max_steps", 400000), ("max_states", 4000)): kw[k] = kw.get(k, d) * _scale
    v = VM(program(), models.models, boundary, **kw)
    v.opts = dict(opts, params=models.params)
    return v

def forget():
    for c in _caches: c.clear()

# ------------------------------------------------------------------ what earlier calls leave behind
def left_behind(limit=6):
    """Values that variables outliving their calls can have when a call begins:
    [(variable, offset, value)], one per way the conditions on them come out.
    Only for variables that hold constants, or are only counted up or down."""
    import pure
    P_ = program(); out = []
    for (n, o), (conds, stores) in sorted(P_.hidden.items()):
        x = T("ld", P(T("glob", n), o)); first = P_.initially(n, o)
        if first is None or not isinstance(first, int): continue
        vals = {first}; step = set()
        for s in stores:
            s = strip_trunc(s)
            if is_c(s): vals.add(s)
            elif is_t(s, "sum") and len(s.a[1]) == 1 and s.a[1][0] == (x, 1): step.add(s.a[0])
            else: step = None; break
        if step is None: continue
        if step: vals = [first + i * k for i in range(1100) for k in sorted(step)]
        code = pure.Code([x]); fs = []
        for c in dict.fromkeys(conds):
            try: fs.append(code.fn(c))
            except Exception: pass
        seen = {}
        for y in sorted(set(vals), key=lambda y: (y != first, abs(y))):
            k = []
            for f in fs:
                try: k.append(bool(f([y])))
                except Exception: k.append(None)
            k = tuple(k) if fs else y
            if k not in seen and len(seen) < limit: seen[k] = y
        out += [(n, o, y) for y in seen.values()]
    return sorted(set(out) | P_.left, key=lambda x: (x[0], x[1], abs(x[2])))
def strip_trunc(s):
    while is_t(s, "trunc"): s = s.a[1]
    return s

# ------------------------------------------------------------------ reports
class Missing(Exception):
    """A construct the rule is about no longer exists: no verdict."""

class Report:
    def __init__(self, pid):
        self.pid = pid; self.obligations = 0; self.violations = []; self.notes = []; self.analysed = set(); self.rules = {}
        self.paths = 0; self.steps = 0; self.loops = 0; self.calls = 0; self.undecided = []; self.sites = 0
    def ob(self, rule, ok, where="", msg="", chain=(), path=()):
        """One obligation. ok None means it could not be decided (no alarm)."""
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0, 0])
        r[0] += 1
        if ok is not None and not ok and getattr(path, "vague", False): ok = None
        if ok is None: r[1] += 1; self.undecided.append((rule, where, msg)); return None
        if not ok:
            r[2] += 1
            k = (rule, where, msg)
            if all((v["rule"], v["where"], v["msg"]) != k for v in self.violations):
                self.violations.append(dict(rule=rule, where=where, msg=msg, chain=list(chain), path=list(path)))
        return bool(ok)
    def note(self, s): self.notes.append(s)
    def use(self, v):
        """Accounts for an analysis run."""
        self.analysed |= v.visited; self.paths += v.npaths; self.steps += v.steps; self.loops += v.nloops; self.calls += v.ncalls

def loc(fn): return "%s:%s" % (fn.file.replace(build.REPO + "/", ""), fn.line)
def at_ev(e): return "%s:%s" % (e.loc[0].replace(build.REPO + "/", ""), e.loc[1])
def chain_of(e): return ["%s (%s:%s)" % (a, b.replace(build.REPO + "/", ""), c) for a, b, c in e.chain]
class Path(list): vague = False
def path_of(st, n=40):
    p = Path(path_list(st, n)); p.vague = bool(st.meta.get("vague")); return p
def path_list(st, n=40): return ["%s is %s" % (show(a)[:160], "true" if b else "false") for a, b in st.path[:n]]

# ------------------------------------------------------------------ evaluation over representative values
class Unk(Exception): pass
import math, struct
def evalt(t, env):
    """The value of a term when its leaves take the values in env."""
    if not isinstance(t, Term): return t
    if t in env: return env[t]
    h = t.h; a = t.a
    E = lambda x: evalt(x, env)
    if h == "sum": return a[0] + sum(k * E(x) for x, k in a[1])
    if h == "mul": return E(a[0]) * E(a[1])
    if h == "sdiv":
        x, y = E(a[0]), E(a[1])
        if y == 0: raise Unk()
        q = abs(x) // abs(y); return q if (x < 0) == (y < 0) else -q
    if h == "srem":
        x, y = E(a[0]), E(a[1])
        if y == 0: raise Unk()
        q = abs(x) % abs(y); return q if x >= 0 else -q
    if h == "eq":
        return int(E(a[0]) == E(a[1]))
    if h == "lt": return int(E(a[0]) < E(a[1]))
    if h == "ult": return int(E(a[0]) % (1 << 64) < E(a[1]) % (1 << 64))
    if h == "not": return int(not E(a[0]))
    if h == "and": return int(bool(E(a[0])) and bool(E(a[1])))
    if h in ("band", "bor", "xor"):
        x, y = E(a[0]), E(a[1])
        if not isinstance(x, int) or not isinstance(y, int): raise Unk()
        return x & y if h == "band" else x | y if h == "bor" else x ^ y
    if h == "or": return int(bool(E(a[0])) or bool(E(a[1])))
    if h == "f": return a[0]
    if h == "fadd": return E(a[0]) + E(a[1])
    if h == "fsub": return E(a[0]) - E(a[1])
    if h == "fmul": return E(a[0]) * E(a[1])
    if h == "fdiv":
        x, y = E(a[0]), E(a[1])
        if y == 0: return float("nan") if x == 0 or x != x else math.copysign(float("inf"), x) * (math.copysign(1, y))
        return x / y
    if h == "fneg": return -E(a[0])
    if h == "fcmp":
        p, x, y = a[0], E(a[1]), E(a[2])
        if p == "ord": return int(x == x and y == y)
        if p == "inf": return int(math.isinf(x))
        if x != x or y != y: return 0
        return int({"oeq": x == y, "olt": x < y, "ole": x <= y, "one": x != y}[p])
    if h == "i2f": return float(E(a[0]))
    if h == "f32":
        x = E(a[0])
        try: return struct.unpack("<f", struct.pack("<f", x))[0]
        except OverflowError: return math.copysign(float("inf"), x)
    if h == "f2i":
        x = E(a[0])
        if x != x or math.isinf(x): raise Unk()
        return int(x)
    if h in ("floor", "ceil", "fabs", "trunc", "round") and len(a) == 1:
        x = E(a[0])
        if x != x or math.isinf(x): return abs(x) if h == "fabs" else x
        return float({"floor": math.floor, "ceil": math.ceil, "fabs": abs, "trunc": math.trunc, "round": round}[h](x))
    if h in ("log2", "log", "log10"):
        x = E(a[0])
        if x != x: return x
        if x < 0: return float("nan")
        if x == 0: return float("-inf")
        if math.isinf(x): return x
        return {"log2": math.log2, "log": math.log, "log10": math.log10}[h](x)
    if h in ("fmin", "fmax") and len(a) == 2:
        x, y = E(a[0]), E(a[1])
        if x != x: return y
        if y != y: return x
        return min(x, y) if h == "fmin" else max(x, y)
    if h == "ite": return E(a[1]) if E(a[0]) else E(a[2])
    if h == "trunc_i": return E(a[0])
    if h == "abs": return abs(E(a[0]))
    if h in STRINGS: return evals(h, a, E, env)
    raise Unk()
STRINGS = {"str", "scat", "substr", "sub0", "cut0", "slen", "seq", "scmp", "sfind", "ch", "char", "fillstr", "sset", "sflat", "sresize", "ctype", "trunc", "bytes1"}
def evals(h, a, E, env):
    """Strings: bytes as latin-1 text."""
    def S(x):
        r = E(x)
        if not isinstance(r, str): raise Unk()
        return r
    def N(x):
        r = E(x)
        if not isinstance(r, int): raise Unk()
        return r
    if h == "str": return a[0]
    if h == "scat": return "".join(S(x) for x in a)
    if h == "substr":
        s, p = S(a[0]), N(a[1])
        if not 0 <= p <= len(s): raise Unk()        # throws
        n = N(a[2]) if len(a) > 2 else -1
        return s[p:] if n < 0 else s[p:p + n]
    if h == "sub0":
        s, n = S(a[0]), N(a[1])
        if n > len(s): raise Unk()
        return s[:n]
    if h == "cut0": return S(a[0]).split("\0")[0]
    if h == "slen": return len(S(a[0]))
    if h == "seq": return int(S(a[0]) == S(a[1]))
    if h == "scmp":
        x, y = S(a[0]), S(a[1]); return (x > y) - (x < y)
    if h == "sfind":
        m, s, t = a[0], S(a[1]), S(a[2]); p = N(a[3]) if len(a) > 3 else (0 if m in ("find", "find_first_of", "find_first_not_of") else -1)
        if m == "find": return s.find(t, p) if 0 <= p <= len(s) else -1
        if m == "rfind": return s.rfind(t) if p < 0 else s.rfind(t, 0, p + len(t))
        idx = range(max(p, 0), len(s)) if "first" in m else range(len(s) - 1 if p < 0 else min(p, len(s) - 1), -1, -1)
        for i in idx:
            if (s[i] in t) != ("not_of" in m): return i
        return -1
    if h == "ch": return chr(N(a[0]) & 255)
    if h == "char":
        s, i = S(a[0]), N(a[1])
        if not 0 <= i <= len(s): raise Unk()
        c = ord(s[i]) if i < len(s) else 0
        return c - 256 if c > 127 else c
    if h == "fillstr":
        n = N(a[0])
        if n > 4096: raise Unk()
        return chr(N(a[1]) & 255) * n
    if h == "sset":
        s, i = S(a[0]), N(a[1])
        if not 0 <= i < len(s): raise Unk()
        return s[:i] + chr(N(a[2]) & 255) + s[i + 1:]
    if h == "sresize":
        s, n = S(a[0]), N(a[1])
        if not 0 <= n <= 4096: raise Unk()
        return s[:n] + chr(N(a[2]) & 255) * (n - len(s))
    if h == "sflat":
        out = ""
        for c in S(a[0]):
            e2 = dict(env); e2[T("ixc")] = ord(c) - 256 if ord(c) > 127 else ord(c)
            for cond, x in a[1]:
                if all(bool(evalt(q, e2)) == b for q, b in cond): out += evalt(x, e2); break
            else: raise Unk()
        return out
    if h == "trunc" and len(a) == 2:
        n, v = a[0], N(a[1]); v &= (1 << n) - 1
        return v - (1 << n) if v >= 1 << (n - 1) else v
    if h == "ctype":
        c = N(a[1])
        if not 0 <= c < 128: raise Unk()
        c = chr(c); f = a[0]
        return ord(c.lower()) if f == "tolower" else ord(c.upper()) if f == "toupper" else int(getattr(c, f)()) if hasattr(c, f) else int(c.isprintable() and not c.isalnum() and c != " ") if f == "ispunct" else int(c in "0123456789abcdefABCDEF") if f == "isxdigit" else int(c.isprintable()) if f == "isprint" else int(c < " " or c == "\x7f")
    raise Unk()
def admits(path, env):
    """Whether the conditions about the terms in env have their values on this path;
    None if one of them has none."""
    unk = False
    for a, b in path:
        if not any(mentions(a, t) for t in env): continue
        if a.h in ("eq", "lt") and any(is_t(x, "k") and x.a[0] not in vmmod.MULTI for x in a.a): continue    # the end of a loop with one exit
        try: v = evalt(a, env)
        except (Unk, TypeError, OverflowError, ValueError): unk = True; continue
        if bool(v) != b: return False
    return None if unk else True
def holds(path, env):
    """True/False when the path condition has a value, None otherwise."""
    unk = False
    for a, b in path:
        try: v = evalt(a, env)
        except (Unk, TypeError, OverflowError, ValueError): unk = True; continue
        if bool(v) != b: return False
    return None if unk else True
def leaves(ts):
    """Maximal non-arithmetic subterms."""
    out = set(); st = list(ts)
    while st:
        t = st.pop()
        if isinstance(t, tuple): st.extend(t); continue
        if not isinstance(t, Term): continue
        if t.h in ("sum", "mul", "sdiv", "srem", "eq", "lt", "ult", "not", "and", "or", "band", "bor", "xor", "fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "i2f", "f32", "f2i", "floor", "ceil", "log2", "log", "abs"):
            st.extend(t.a)
        elif t.h == "f": pass
        else: out.add(t)
    return out

def words_for(ts):
    """Strings worth trying where the terms decide about one: the constants they
    compare with, neighbours of those, and strings around the lengths they use."""
    out = {"", "a", "b", "A", "ab", "ba", "a\0", "a\0b", " a", "a ", "a b", "abc", "abC", "a" * 40, "a" * 300, "a" * 299 + "b", "b" + "a" * 299}
    cs = set(); ns = set()
    for t in subterms(tuple(ts)):
        if t.h == "str" and len(t.a[0]) <= 200: cs.add(t.a[0])
        for x in t.a:
            if isinstance(x, int) and 0 < x <= 4096: ns.add(x)
    for n in sorted(ns)[:12]:
        out |= {"a" * n, "a" * n + "b", "a" * n + "c", "a" * (n - 1), "b" + "a" * n, "c" + "a" * n}
        if n < 128: out |= {chr(n), chr(n) + "a", "a" + chr(n), "a" + chr(n) + "b", chr(n) * 2}
    for c in sorted(cs)[:12]:
        if not c: continue
        out |= {c, c + "1", c + "a", c[:-1], c[1:], "a" + c, "1" + c + "a", c.upper(), c.lower(), c + c}
    return out
def evals_to(t, leaf, w):
    try: r = evalt(t, {leaf: w})
    except (Unk, TypeError, OverflowError, ValueError): return None
    return r if isinstance(r, str) else None
def collision(alts, leaf, shape):
    """Two values of leaf for which the same texts are produced, or None.
    alts: [(path, items)]; shape(item) -> ('c', text), ('t', term), or ('o', anything)."""
    ts = [x for p, its in alts for x in [a for a, b in p if mentions(a, leaf)] + [y[1] for y in map(shape, its) if y[0] == "t" and mentions(y[1], leaf)]]
    ws = words_for(ts)
    for rnd in range(2):
        more = set()
        seen = {}
        for w in sorted(ws):
            for p, its in alts:
                if admits(p, {leaf: w}) is not True: continue
                key = []
                for k, x in map(shape, its):
                    if k == "t" and mentions(x, leaf):
                        x = evals_to(x, leaf, w); k = "c"
                        if x is None: key = None; break
                        more.add(x)
                    if k == "c" and key and key[-1][0] == "c": key[-1] = ("c", key[-1][1] + x)
                    else: key.append((k, x))
                if key is None: continue
                o = seen.setdefault(tuple(key), w)
                if o != w: return o, w
        ws = ws | {x for x in more if len(x) < 500}
    return None

# ------------------------------------------------------------------ closures
def reach(st, vals):
    """Cells of the heap objects reachable from vals."""
    out = {}; seen = set(); w = [v for v in vals if isinstance(v, Term)]
    by = {}
    for c in st.mem: by.setdefault(c[0], []).append(c)
    while w:
        v = w.pop()
        for t in subterms(v):
            if t.h in ("new", "alloca") and t not in seen:
                seen.add(t)
                for c in by.get(t, []):
                    out[c] = st.mem[c]
                    if isinstance(st.mem[c], Term): w.append(st.mem[c])
    return out
def call_closure(v, st, snap, args):
    """Pushes the call of a std::function value (its four words) onto st."""
    inv = snap[3]
    if not is_t(inv, "fn"): return None
    f = v.prog.fn(inv.a[0])
    if f is None or f.decl: return None
    fo = T("alloca", "closure", *[x if isinstance(x, (Term, int)) else 0 for x in snap])
    for o, x in zip((0, 8, 16, 24), snap): st.mem[(fo, o)] = x
    st.alive.add(fo)
    st.status = "run"; st.pending = None
    xs = []
    for k, x in enumerate(args):
        # the invoker takes every argument by reference
        xs.append(x)
    av = ([args[0]] + [fo] + list(args[1:])) if f.sret else [fo] + list(args)
    v.push(st, f, av, None, T("root", f.name))
    return f
def cls_of(name):
    return program().types.get(name)
def field_off(cls, name):
    for o, n, t, ow in program().fields(cls):
        if n == name: return o
    raise Missing("%s::%s" % (cls, name))
def derived(base):
    P = program()
    return [c for c in P.types if any(b == base for _, b in P.bases(c))]
def final(v, st, p): return v.load(st, p)
