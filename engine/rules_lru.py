"""C35 to C37: the LRU cache. The public operations are analysed from every
abstract cache state reachable through them. A state is the heap of the cache
(entries, links, tables, counters) with keys, values, units, limits and times
left symbolic, up to renaming, together with the state of a reference
model; the exploration closes over both within bounds on the number of live
entries, keys and pins. The paths of an operation form a decision table that is
read off on order patterns of units, limit and times."""
import itertools, multiprocessing, os, time as _time
from lib import *
from pure import *
from models import Abort

IDLE = 5000000                                   # cycles of the 5 s used below
KEYS = [T("name", "key", i) for i in range(4)]
KA = [T("arg", "k%d" % i) for i in range(4)]
NOW = T("leaf", "now"); DEAD = T("leaf", "dead"); M = T("leaf", "M"); MNEW = T("leaf", "Mnew"); UNEW = T("leaf", "unew"); VNEW = T("arg", "vnew")
V = [T("arg", "v%d" % i) for i in range(8)]; U = [T("leaf", "u", i) for i in range(8)]; S = [T("leaf", "s", i) for i in range(8)]
LEAFS = [M, MNEW, UNEW, NOW, DEAD] + U[:5] + S[:5] + [VNEW] + V     # values are addresses, not null
HOOK = T("arg", "hook"); OPT = T("arg", "opt")
ROOT = T("new", "c", 0)

# ------------------------------------------------------------------ reference model
class El:
    __slots__ = ("key", "val", "unit", "pin", "keep", "stamp", "tab", "drop")
    def __init__(s, key, val, unit, pin, keep, stamp): s.key = key; s.val = val; s.unit = unit; s.pin = pin; s.keep = keep; s.stamp = stamp; s.tab = True; s.drop = ""
    def copy(s):
        r = El(s.key, s.val, s.unit, s.pin, s.keep, s.stamp); r.tab = s.tab; return r
class Spec:
    """What the cache holds. els: all live entries, deferred ones included;
    order: the entries that may expire or be evicted, oldest first. keep: the
    pins of an entry were taken without updating the eviction order."""
    def __init__(s): s.els = []; s.order = []; s.M = M; s.lru = True; s.idle = None; s.hooks = []
    def copy(s):
        r = Spec(); m = {e: e.copy() for e in s.els}
        r.els = [m[e] for e in s.els]; r.order = [m[e] for e in s.order]; r.M = s.M; r.lru = s.lru; r.idle = s.idle
        return r
    def at(s, k): return next((e for e in s.els if e.tab and e.key == k), None)
    def total(s, L): return sum(L[e.unit] for e in s.els)
    def over(s, L): return s.total(L) > L[s.M]
    def discard(s, e, why): s.els.remove(e); s.hooks.append((e.val, why))
    def remove(s, e, why):
        if e in s.order: s.order.remove(e)
        e.tab = False
        if not e.pin: s.discard(e, why)
        else: e.drop = why
    def collect(s, L):
        for e in list(s.order):
            if not s.over(L): break
            if not e.pin: s.remove(e, "evict")
    def expire(s, L):
        if s.idle is None: return
        for e in list(s.order):
            if L[e.stamp] < L[NOW] - s.idle: s.remove(e, "expire")
    def lookup(s, k, upd, L):
        s.expire(L)
        e = s.at(k)
        if e is None: return 0
        if not e.pin:
            e.keep = not upd
            if s.lru and upd: s.order.remove(e)
        e.pin += 1
        return e.val
    def release(s, val, upd, L):
        e = next(e for e in s.els if e.val is val)
        e.pin -= 1
        if not e.tab:
            if not e.pin: s.discard(e, "unpin")
            return
        if s.lru and upd: e.stamp = NOW
        if not e.pin:
            if s.lru and upd: s.order.append(e)
            if s.over(L): s.remove(e, "evict")
    def insert(s, k, val, unit, L):
        e = s.at(k)
        if e is not None: s.remove(e, "remove")
        e = El(k, val, unit, 1, False, NOW)
        s.els.append(e)
        if not s.lru: s.order.append(e)
        s.collect(L)
    def run(s, op, L):
        """Performs op for the leaf values L; what a lookup hands out."""
        n, a = op
        if n == "Lookup": return s.lookup(a[0], True, L)
        if n == "LookupKeep": return s.lookup(a[0], False, L)
        if n == "ScopedLookup":
            r = s.lookup(a[0], True, L)
            if is_t(r): s.release(r, True, L)
        elif n == "Release": s.release(a[1], True, L)
        elif n == "ReleaseKeep": s.release(a[1], False, L)
        elif n == "InsertPinned": s.insert(a[0], VNEW, UNEW, L)
        elif n == "Insert": s.insert(a[0], VNEW, UNEW, L); s.release(VNEW, True, L)
        elif n == "UpdateSize":
            e = s.at(a[0])
            if e is not None and (a[1] == 0 or e.val is a[1]): e.unit = UNEW
            else:
                for e in s.els:
                    if not e.tab and e.key == a[0] and (a[1] == 0 or e.val is a[1]): e.unit = UNEW
            s.collect(L)
        elif n == "Remove":
            e = s.at(a[0])
            if e is not None: s.remove(e, "remove")
        elif n in ("RemoveAll", "Clear"):
            for e in list(s.els):
                if e.tab: s.remove(e, "remove")
        elif n == "RemoveUnpinned":
            for e in list(s.els):
                if e.tab and not e.pin: s.remove(e, "remove")
        elif n == "RemoveExpiredEntries": s.expire(L)
        elif n == "SetMaxSize": s.M = MNEW; s.collect(L)
        elif n in ("SetMaxIdleSeconds", "SetAgeBasedEviction"):
            s.lru = n == "SetMaxIdleSeconds"; s.idle = cycles(a[0].a[0]); s.expire(L)
        return None
    def key(s):
        """The state up to names, given its canonical order."""
        return (tuple((e.key, e.val, e.unit, e.stamp, e.pin, e.keep, e.tab) for e in s.els), tuple(e.val for e in s.order))

def cycles(x):
    if x < 0 or math.isinf(x): return None
    return min(int(x * 1e6) if x < 1e18 else 1 << 63, (1 << 63) - 1)

LIVE, KEYN, PINS, PINE = 3, 3, 3, 2              # bounds of the exploration
def ops_of(s, mode):
    ks = sorted({e.key for e in s.els}); fresh = len(ks) < KEYN
    ks2 = ks + ([len(ks)] if fresh else [])
    pins = sum(e.pin for e in s.els)
    for k in ks2:
        e = s.at(k)
        if e is None or (e.pin < PINE and pins < PINS):
            if e is None or not e.pin or not e.keep: yield "Lookup", (k,)
            if mode[:4] == "keep" and e is not None and (not e.pin or e.keep): yield "LookupKeep", (k,)
        if pins < PINS and (e is None or not e.pin or not e.keep): yield "ScopedLookup", (k,)
        if len(s.els) < LIVE:
            if pins < PINS: yield "InsertPinned", (k,)
            yield "Insert", (k,)
        yield "Remove", (k,)
        yield "UpdateSize", (k, 0)
    for e in s.els:
        if e.pin: yield ("ReleaseKeep" if e.keep else "Release"), (e.key, e.val)
        yield "UpdateSize", (e.key, e.val)
    yield "RemoveAll", ()
    yield "RemoveUnpinned", ()
    yield "RemoveExpiredEntries", ()
    yield "SetMaxSize", ()
    if not pins: yield "Clear", ()

# ------------------------------------------------------------------ analysis of one operation
class Lru:
    def __init__(self, mode):
        self.mode = mode; P = program()
        self.fs = {f.short.split("::vt_")[-1]: f for f in P.fns.values() if f.short.startswith("verif_lru::vt_")}
        if "New" not in self.fs: raise Missing("the cache template")
        self.code = Code(LEAFS); self.vals = {}; self.atoms = {}
        self.v = new_vm({N + "SimpleCycleTimer::Now": lambda c: NOW})
        self.v.unroll = 40; self.steps = 0
        self.found = {}; self.counts = {}; self.und = []; self.nodes = 0; self.trans = 0
        self.v.acc = self.acc
    def acc(self, v, st, rw, b, o):
        if b in st.freed: v.event(st, "uaf", base=b)
    def call(self, st, name, *args):
        f = self.fs.get(name)
        if f is None: raise Missing("cache operation " + name)
        s = st.clone(); s.status = "run"; s.pending = None; s.ret = None
        self.steps += self.v.steps; self.v.steps = 0
        self.v.push(s, f, list(args), None, T("root", f.name))
        return self.v.run(s)
    def fn(self, t):
        f = self.vals.get(t)
        if f is None: f = self.vals[t] = self.code.fn(t)
        return f
    def start(self):
        st = State()
        for i in range(len(KA)): st.mem[(KA[i], 0)] = KEYS[i]
        st.mem[(OPT, 0)] = 0
        r = self.call(st, "New", M, HOOK)
        if len(r) != 1 or r[0].status != "ret": raise Missing("construction of the cache")
        c = r[0].ret
        s = Spec(); st = r[0]
        how = self.mode
        if how in ("lru-idle", "keep-idle"): st = self.one(self.call(st, "SetMaxIdleSeconds", c, T("f", 5.0))); s.idle = IDLE
        if how == "age": st = self.one(self.call(st, "SetAgeBasedEviction", c, T("f", -1.0))); s.lru = False
        if how == "age-idle": st = self.one(self.call(st, "SetAgeBasedEviction", c, T("f", 5.0))); s.lru = False; s.idle = IDLE
        return self.canon(st, c, s)
    def one(self, sts):
        if len(sts) != 1 or sts[0].status != "ret": raise Missing("the choice of an eviction policy")
        return sts[0]

    # ---------------------------------------------------------------- states up to renaming
    def canon(self, st, root, s):
        m = {}
        els = list(s.order)
        els += sorted((e for e in s.els if e.tab and e not in s.order), key=lambda e: (e.pin, e.keep, e.val.id))
        els += sorted((e for e in s.els if not e.tab), key=lambda e: (e.key, e.val.id))
        keys = {}
        for e in els: keys.setdefault(e.key, len(keys))
        for k in range(len(KEYS)): keys.setdefault(k, len(keys))
        m.update((KEYS[k], KEYS[n]) for k, n in keys.items())
        for t in S + [NOW]: m[t] = DEAD
        for t in V + [VNEW]: m[t] = T("arg", "gone")
        for t in U + [UNEW]: m[t] = T("leaf", "ugone")
        m[s.M] = M
        for i, e in enumerate(els):
            m[e.val] = V[i]
            m[e.unit] = U[i]
            m[e.stamp] = S[i] if e in s.order else DEAD
        # two entries may share a unit after an update of several at once
        n = Spec(); n.lru = s.lru; n.idle = s.idle
        for i, e in enumerate(els):
            x = El(keys[e.key], m[e.val], m[e.unit], e.pin, e.keep, m[e.stamp] if e in s.order else DEAD); x.tab = e.tab; n.els.append(x)
            if e in s.order: n.order.append(x)
        by = {}
        for c in st.mem: by.setdefault(c[0], []).append(c)
        names = {}; order = []
        w = [root]
        def okey(o): return (0, o) if isinstance(o, int) else (1, str(o))
        while w:
            b = w.pop(0)
            if b in names: continue
            names[b] = T("new", "c", len(order)); order.append(b)
            for c in sorted(by.get(b, []), key=lambda c: okey(c[1])):
                w += self.objs(st.mem[c], keys)
        m.update(names)
        memo = {}
        r = State()
        for b in order:
            for c in by.get(b, []):
                r.mem[(names[b], c[1])] = self.sorted(subst(st.mem[c], m, memo))
            if b in st.freed: r.freed[names[b]] = 1
            else: r.alive.add(names[b])
        for i in range(len(KA)): r.mem[(KA[i], 0)] = KEYS[i]
        r.mem[(OPT, 0)] = 0
        r.kinds = st.kinds
        return r, n
    def objs(self, x, keys):
        """Heap objects a value refers to, in an order that names do not influence."""
        if not isinstance(x, Term): return []
        if x.h == "mput":
            e = entries(x)
            if e is not None:
                e = sorted(e, key=lambda p: keys[p[0].a[1]] if is_t(p[0], "name") else p[0].id)
                return [o for _, y in e for o in self.objs(y, keys)]
        return sorted((t for t in subterms(x) if t.h == "new"), key=lambda t: t.id)
    def sorted(self, x):
        if is_t(x, "mput"):
            e = entries(x)
            if e is not None:
                x = EMPTYMAP
                for k, y in sorted(e, key=lambda p: p[0].a[1] if is_t(p[0], "name") else p[0].id): x = T("mput", x, k, y)
        return x

    # ---------------------------------------------------------------- read-off
    def points(self, s, op):
        """Leaf values: order patterns of units, limit and times."""
        n = op[0]; k = len(s.els); us = sorted({e.unit for e in s.els}, key=lambda t: t.a)
        new = n in ("Insert", "InsertPinned", "UpdateSize")
        if n in ("SetMaxIdleSeconds", "SetAgeBasedEviction"):
            L = dict.fromkeys(LEAFS, 1)
            for i, t in enumerate([VNEW] + V): L[t] = 4096 + 64 * i
            L[M] = 100; c = cycles(a0(op)); c = min(1 << 62, IDLE if c is None else c)
            for x in (100, 101, 200, 201, 300):
                L[S[0]] = 100; L[S[1]] = 200; L[NOW] = c + x
                if L[NOW] >= 200: yield L
            return
        old = k and self.mode.endswith("idle") and n in ("Lookup", "ScopedLookup", "RemoveExpiredEntries", "LookupKeep")
        vecs = [[1 << i for i in range(k + 1)], [1 << (k - i) for i in range(k + 1)]]
        if new or n == "SetMaxSize": vecs += [[1] * (k + 1), [0] * (k + 1), [3, 0, 5, 1, 1][:k + 1]]
        for vec in vecs:
            L = dict.fromkeys(LEAFS, 0)
            for i, t in enumerate([VNEW] + V): L[t] = 4096 + 64 * i
            for t, x in zip(us, vec): L[t] = x
            L[UNEW] = vec[k]
            tot = s.total(L); unp = any(not e.pin and e.tab for e in s.els)
            hi = tot + L[UNEW] + 1
            ms = [x for x in range(-1, hi + 1) if x >= tot or not unp]
            if n == "SetMaxSize": ms = ms[:1] + ms[-1:]
            elif not new and len(ms) > 4 : ms = [ms[0], ms[len(ms) // 2], tot, ms[-1]]
            times = [([10 * (i + 1) for i in range(5)], 60)]
            if s.idle is not None:
                ts = times[0][0]
                times = [(ts, s.idle + t) for x in ts[:len(s.order)] for t in (x, x + 1)] if old else [(ts, s.idle + 60)]
                times += [(ts, 60)] + ([([10] * 5, s.idle + 10), ([10] * 5, s.idle + 11)] if old else [])
            for mx in ms:
                L[M] = mx
                for mn in (range(-1, tot + 2) if n == "SetMaxSize" else (0,)):
                    L[MNEW] = mn
                    for ts, now in times:
                        for t, x in zip(S, ts): L[t] = x
                        L[NOW] = now
                        yield L
    def step(self, st, s, op):
        """All paths of op from (st, s): the successors that agree with the model."""
        n, a = op
        args = [ROOT] + [KA[x] if isinstance(x, int) and i == 0 else x for i, x in enumerate(a)]
        name = n
        if n == "LookupKeep": name = "LookupWithOptions"; args.append(OPT)
        if n == "ReleaseKeep": name = "ReleaseWithOptions"; args.append(OPT)
        if n in ("Insert", "InsertPinned"): args += [VNEW, UNEW]
        if n == "UpdateSize": args.append(UNEW)
        if n == "SetMaxSize": args.append(MNEW)
        for c in [c for c in st.mem if is_t(c[0], "glob")]: del st.mem[c]      # variables: what earlier calls left (prog.statics)
        try: sts = self.call(st, name, *args)
        except Limit: self.und.append((n, "too many paths")); return []
        self.trans += 1
        if n in ("SetMaxIdleSeconds", "SetAgeBasedEviction"): args = [ROOT, a[0]]; sts = self.call(st, name, *args)
        tree = Tree(sts, self.code); tree.f = self.vals
        succ = {}; res = {}
        for L in self.points(s, op):
            vec = [L[t] for t in LEAFS]
            x = tree.find(vec)
            if x is None: self.und.append((n, self.show(s))); continue
            w = s.copy(); out = w.run(op, L)
            k = (id(x), w.key(), out, tuple(w.hooks))
            if k not in res: res[k] = self.judge(st, s, op, x, w, out, L)
            if res[k] == 1: succ[k] = (x, w)
        return [self.canon(x, ROOT, w) for x, w in succ.values()]
    def hooks(self, x):
        r = []
        for e in x.events:
            if e.kind != "icall" or not is_t(e.target, "ld"): continue
            t = [y for y in e.args if is_t(y)] + [y for y in (e.get("argvals") or ()) if is_t(y)]
            y = next((y for y in t if is_t(y, "arg") and y in VALS), None)
            r.append((y, e))
        return r
    def judge(self, pre, s, op, x, w, out, L):
        """1 when the path's outcome is the model's, 0 when not, None when unknown."""
        n = op[0]; f = self.fs["New"]
        where = self.where(x)
        ctx = "%s on %s" % (self.name(op), self.show(s))
        self.count("outcome of an operation")
        if x.status != "ret":
            if x.status != "abort": self.und.append((n, x.status)); return None
            self.bad("all", "completes", x, "%s does not complete (%s)" % (ctx, x.why)); return 0
        u = next((e for e in x.events if e.kind == "uaf"), None)
        if u is not None: self.bad("C35", "no use of a freed entry", u, "%s: an entry is used after it was freed" % ctx); return 0
        if any(e.kind == "free" and e.get("again") for e in x.events):
            self.bad("C35", "freed once", next(e for e in x.events if e.kind == "free" and e.get("again")), "%s: an entry is freed twice" % ctx); return 0
        hk = self.hooks(x)
        if any(y is None for y, _ in hk): self.und.append((n, "hook argument")); return None
        got = [y for y, _ in hk]; want = [y for y, _ in w.hooks]
        old = {e.val: e for e in s.els}; live = {e.val: e for e in w.els}
        ok = 1
        for y, e in hk:
            if got.count(y) > 1: self.bad("C35", "hook once", e, "%s: a value is passed to the removal hook twice" % ctx); ok = 0
            elif y not in old and y is not VNEW: self.bad("C35", "hook once", e, "%s: a value no longer in the cache is passed to the removal hook" % ctx); ok = 0
            elif y in live and live[y].pin: self.bad("C35", "pinned values stay", e, "%s: a pinned value is passed to the removal hook" % ctx); ok = 0
            elif y not in want: self.bad("C37", "evicts and expires only what it must", e, "%s: an unpinned value is removed that should stay%s" % (ctx, self.why(L, s, op))); ok = 0
        for y, why in w.hooks:
            if y in got: continue
            ok = 0
            inuse = None
            k = old[y].key if y in old else op[1][0]
            try:
                r = self.call(x, "StillInUse", ROOT, KA[k], y)
                inuse = r[0].ret if len(r) == 1 and r[0].status == "ret" and is_c(r[0].ret) else None
            except Missing: pass
            if why in ("unpin", "remove") or inuse == 0: self.bad("C35", "hook once", x, "%s: a value leaves the cache and is not passed to the removal hook%s" % (ctx, self.why(L, s, op)))
            else: self.bad("C37", "expires before it searches" if why == "expire" else "evicts oldest first until within capacity", x, "%s: %s%s" % (ctx, "an expired entry stays in the cache" if why == "expire" else "an entry that should be evicted stays", self.why(L, s, op)))
        # sizes: against what was really destroyed
        self.count("sizes")
        units = {e.val: e.unit for e in s.els}
        if n in ("Insert", "InsertPinned"): units[VNEW] = UNEW
        if n == "UpdateSize":
            for e in w.els: units[e.val] = e.unit
        if all(got.count(y) <= 1 for y in got):
            want_size = 0
            for y, t in units.items():
                if y not in got: want_size = add(want_size, t)
            ok &= self.same(x, "Size", want_size, L, "C36", "size", ctx)
        if ok:
            want_pin = 0
            for e in w.els:
                if e.tab and e.pin: want_pin = add(want_pin, e.unit)
            ok &= self.same(x, "PinnedSize", want_pin, L, "C36", "pinned size", ctx)
            d = [e for e in w.els if not e.tab]; want_d = 0
            for e in d: want_d = add(want_d, e.unit)
            ok &= self.same(x, "DeferredSize", want_d, L, "C36", "deferred size", ctx)
            ok &= self.same(x, "DeferredEntries", len(d), L, "C36", "deferred entries", ctx)
        if ok and out is not None:
            self.count("lookup")
            if x.ret is not out and not (is_c(x.ret) and is_c(out) and x.ret == out):
                if is_t(x.ret, "arg") and x.ret in VALS and x.ret not in live: self.bad("C35", "lookups hand out live values", x, "%s: hands out a value that was destroyed" % ctx)
                elif is_t(x.ret, "arg") or is_c(x.ret):
                    self.bad("C37", "lookups", x, "%s: hands out %s%s" % (ctx, "nothing although the entry is there" if x.ret == 0 else "an entry it must not" if out == 0 else "another entry's value", self.why(L, s, op)))
                else: self.und.append((n, "result of the lookup")); return None
                ok = 0
        if ok:
            ok &= self.same(x, "Entries", sum(1 for e in w.els if e.tab), L, "C37", "number of entries", ctx)
        return 1 if ok else 0
    def known(self, st, s):
        """Every live value is still in use for the cache."""
        for e in s.els:
            self.count("in use")
            r = self.call(st, "StillInUse", ROOT, KA[e.key], e.val)
            if len(r) == 1 and r[0].status == "ret" and is_c(r[0].ret):
                if not r[0].ret: self.bad("C35", "values stay known", r[0], "%s: the cache no longer knows %s, which is %s" % (self.show(s), self.vn(e.val), "pinned" if e.pin else "in it")); return False
            elif any(z.status == "abort" for z in r): self.bad("C35", "completes", r[0], "%s: StillInUse does not complete" % self.show(s)); return False
        return True
    def same(self, x, getter, want, L, pid, what, ctx):
        self.count(what)
        r = self.call(x, getter, ROOT)
        if len(r) != 1 or r[0].status != "ret": self.und.append((getter, "")); return 1
        got = r[0].ret
        if got is want or is_c(got) and is_c(want) and got == want: return 1
        vec = [L[t] for t in LEAFS]
        big = [y * (3 << 32) if is_t(t) and (t in U or t in (M, MNEW, UNEW)) else y for t, y in zip(LEAFS, vec)]      # totals beyond 32 bits
        try:
            f = self.fn(sub(got, want))
            diff = any(f(v) != 0 for v in (vec, [(i + 2) ** 5 % 1009 for i in range(len(LEAFS))]))
            if not diff and f(big) != 0: diff = all(bool(self.fn(a)(big)) == b for a, b in x.path)
        except (Unk, TypeError, ValueError, OverflowError): self.und.append((getter, show(got)[:80])); return 1
        if diff:
            self.bad(pid, what, x, "%s: %s afterwards is %s, not %s" % (ctx, getter, self.units(got), self.units(want))); return 0
        return 1
    def units(self, t):
        return show(t).replace("leaf('u', ", "units(").replace("leaf('unew')", "new units").replace("leaf('M')", "limit")[:160]
    def why(self, L, s, op):
        us = ", ".join("%s:%d" % (self.vn(e.val), L[e.unit]) for e in s.els)
        r = " (units %s%s, limit %d" % (us or "none", ", new %d" % L[UNEW] if op[0] in ("Insert", "InsertPinned", "UpdateSize") else "", L[MNEW] if op[0] == "SetMaxSize" else L[M])
        if s.idle is not None: r += "; idle or age %s, limit %d" % (", ".join("%s:%d" % (self.vn(e.val), L[NOW] - L[e.stamp]) for e in s.order), s.idle)
        return r + ")"
    def vn(self, v): return v.a[0]
    def name(self, op):
        n, a = op
        return "%s(%s)" % (n.replace("Keep", "WithOptions(no update)"), ", ".join("k%d" % x if isinstance(x, int) and i == 0 else "null" if x == 0 else str(x.a[0]) for i, x in enumerate(a)))
    def show(self, s):
        t = ["%s=%s%s" % ("k%d" % e.key, self.vn(e.val), "(%d pins)" % e.pin if e.pin else "") for e in s.els if e.tab]
        d = ["%s(%d pins, key k%d)" % (self.vn(e.val), e.pin, e.key) for e in s.els if not e.tab]
        return "a %s cache holding {%s}%s" % ({"lru": "LRU", "keep": "LRU", "limits": "fresh", "lru-idle": "LRU, idle limit,", "keep-idle": "LRU, idle limit,", "age": "age-based", "age-idle": "age-based, age limit,"}[self.mode], ", ".join(t), " and removed but pinned " + ", ".join(d) if d else "")
    def where(self, x): return ""
    def count(self, r): self.counts[r] = self.counts.get(r, 0) + 1
    def bad(self, pid, rule, at, msg):
        k = (pid, rule)
        l = self.found.setdefault(k, [])
        if len(l) < 3:
            if hasattr(at, "events"):
                e = next((e for e in reversed(at.events) if e.get("loc")), None)
                w = at_ev(e) if e is not None else loc(self.fs["New"])
                l.append((w if e is not None else "utils/simple_lru_cache_inl.h", msg, chain_of(e) if e is not None else [], path_of(at)))
            else: l.append((at_ev(at), msg, chain_of(at), []))

    def limits(self):
        """What a limit in seconds means: negative and infinite ones none, zero
        and fractions count, huge ones saturate."""
        st, s = self.start()
        for _ in range(2):
            r = self.step(st, s, ("Insert", (len(s.els),)))
            r = [x for x in r if len(x[1].els) == len(s.els) + 1]
            if not r: return
            st, s = r[0]
        for n in ("SetMaxIdleSeconds", "SetAgeBasedEviction"):
            for x in self.seconds(st, n):
                for st2, s2 in self.step(st, s, (n, (T("f", x),))):
                    for op in (("RemoveExpiredEntries", ()), ("Lookup", (0,))): self.step(st2, s2, op)
    def seconds(self, st, n):
        """Limits worth trying: each side of the constants the operation has."""
        r = {-1.0, -0.5, float("inf"), 0.0, 0.25, 0.999999, 1.0, 1.5, 5.0, 59.75, 3600.5, 86400.0 * 365 * 1000, 1e30, 1.7e308}
        x = T("leaf", "sec")
        try: sts = self.call(st, n, ROOT, x)
        except Limit: sts = []
        for c in consts([t for y in sts for t, _ in y.path if any(z is x for z in subterms(t))]):
            if isinstance(c, float) and 0 < c < 1e13 or isinstance(c, int) and 1 < c < 1 << 53: r |= {float(c), c + 0.25, c - 0.25, c / 1e6}
        return sorted(r)[:40]
    def explore(self, budget, limit):
        t0 = _time.time()
        st, s = self.start()
        seen = set(); todo = [(st, s)]; self.full = True
        while todo:
            nxt = []
            for st, s in todo:
                k = (frozenset(st.mem.items()), s.key())
                if k in seen: continue
                seen.add(k)
                self.nodes += 1
                if not self.known(st, s): continue
                if self.nodes > limit or _time.time() - t0 > budget: self.full = False; return
                for op in ops_of(s, self.mode):
                    nxt += self.step(st, s, op)
                if sum(len(l) for l in self.found.values()) >= 40: self.full = False; return
            todo = nxt
VALS = set(V) | {VNEW}
def a0(op): return op[1][0].a[0]
MODES = ("lru", "keep", "lru-idle", "keep-idle", "age", "age-idle", "limits")

# ------------------------------------------------------------------ rules
def work(a):
    mode, live, pins, budget = a
    global LIVE, PINS
    LIVE, PINS = live, pins
    try:
        l = Lru(mode)
        if mode == "limits": l.limits(); l.full = True
        else: l.explore(budget, 20000)
    except Missing as e: return mode, str(e)
    except Limit as e: return mode, str(e)
    P_ = program()
    return mode, dict(hidden=list(P_.hidden), left=left_behind(), found=l.found, counts=l.counts, und=l.und[:50], nund=len(l.und), nodes=l.nodes, trans=l.trans, full=l.full, visited=l.v.visited, steps=l.steps + l.v.steps, paths=l.v.npaths, calls=l.v.ncalls)
_done = cache()
def results():
    if "r" not in _done:
        program()
        deep = lib_scale() > 1
        jobs = [(m, 2 if m[:4] == "keep" and not deep else 3 if m[:4] == "keep" or not deep else 4, 4 if deep and m[:4] != "keep" else 3, 700 if deep else 200) for m in MODES]
        with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as p:
            _done["r"] = dict(p.map(work, jobs, 1))
        for x in _done["r"].values():
            if isinstance(x, str): continue
            for k in x["hidden"]: program().hidden.setdefault(k, [[], set()])
            program().left |= set(x["left"])
    return _done["r"]
def lib_scale():
    import lib
    return lib._scale
TITLES = {"C35": ("outcome of an operation", "in use"), "C36": ("size", "pinned size", "deferred size", "deferred entries"), "C37": ("outcome of an operation", "lookup", "number of entries")}
def judge(rep, pid):
    r = results()
    ok = [x for x in r.values() if not isinstance(x, str)]
    if not ok: raise Missing("; ".join(sorted(set(r.values()))))
    for mode, x in sorted(r.items()):
        if isinstance(x, str): rep.ob(mode, None, "", x); continue
        rep.analysed |= x["visited"]; rep.steps += x["steps"]; rep.paths += x["paths"]; rep.calls += x["calls"]
        for t in TITLES[pid]:
            n = x["counts"].get(t, 0)
            if n: rep.obligations += n - 1; rep.ob(t, True); rep.rules[t][0] += n - 1
        for n, w in x["und"]: rep.ob("undecided", None, n, "%s: %s" % (mode, w))
        rep.note("%s: %d cache states up to renaming, %d operations analysed%s" % (mode, x["nodes"], x["trans"], "" if x["full"] else " (stopped early)"))
        for (p, rule), l in sorted(x["found"].items()):
            if p not in (pid, "all"): continue
            for w, m, c, path in l: rep.ob(rule, False, w, m, c, path)
def C35(rep): judge(rep, "C35")
def C36(rep): judge(rep, "C36")
def C37(rep): judge(rep, "C37")
TICKS = [(s, u) for s in (0, 1, 1000, 2147, 2148, 4294, 4295, 1700000000, 2147483647, 2147483648, 4102444800) for u in (0, 1, 999, 1000, 500000, 999999)]
def clock(rep):
    """Ages are differences of two readings of the clock: each must be the
    time since the epoch in the cycles Frequency counts, to within one cycle."""
    P_ = program(); fs = P_.find(N + "SimpleCycleTimer::Now"); fq = P_.find(N + "SimpleCycleTimer::Frequency")
    rule = "the clock counts the units the limits are converted to"
    if not fs: return rep.ob(rule, None)
    v = new_vm({}); res = [s for s in v.analyse(fs[0], []) if s.status == "ret"]
    fr = [s.ret for s in v.analyse(fq[0], []) if s.status == "ret"] if fq else [1000000]
    rep.use(v)
    if len(fr) != 1 or not isinstance(fr[0], int) or fr[0] <= 0: return rep.ob(rule, None, loc(fs[0]), "the cycles in a second")
    fr = fr[0]
    for sec, us in TICKS:
        env = {T("time", 0): sec, T("timeus", 0): us}
        for st in res:
            if holds(st.path, env) is False: continue
            try: got = evalt(st.ret, env)
            except (Unk, TypeError): rep.ob(rule, None, loc(fs[0]), show(st.ret)[:80]); return
            want = sec * fr + us * fr // 1000000
            rep.ob(rule, abs(got - want) <= 1, loc(fs[0]), "%d s and %d us since the epoch are %s cycles of %d in a second, not %d" % (sec, us, got, fr, want), path=path_of(st))
