"""Runs of the aggregators' public operations, from the state the constructor
leaves with everything the operations change left open. The cache, the
per-entry accumulators and the key digests are boundaries; entries the cache
gives up are passed to the deleter the constructor registered."""
from lib import *
LRU = N + "SimpleLRUCacheBase::"; LRUD = N + "SimpleLRUCacheWithDeleter::"
KINDS = ("Check", "Quota", "Report")
IFACE = {"Check": N + "CheckAggregator", "Quota": N + "QuotaAggregator", "Report": N + "ReportAggregator"}
REQ = {"Check": SC + "CheckRequest", "Quota": SC + "AllocateQuotaRequest", "Report": SC + "ReportRequest"}
RSP = {"Check": SC + "CheckResponse", "Quota": SC + "AllocateQuotaResponse", "Report": SC + "ReportResponse"}
FACT = {"Check": N + "CreateCheckAggregator", "Quota": N + "CreateAllocateQuotaAggregator", "Report": N + "CreateReportAggregator"}
OPS = {"Check": ("Check", "CacheResponse", "Flush", "FlushAll", "SetFlushCallback", "GetNextFlushInterval"),
       "Quota": ("Quota", "CacheResponse", "Flush", "FlushAll", "SetFlushCallback", "GetNextFlushInterval"),
       "Report": ("Report", "Flush", "FlushAll", "SetFlushCallback", "GetNextFlushInterval")}
AGG_OPTS = {"Check": N + "CheckAggregationOptions", "Quota": N + "QuotaAggregationOptions", "Report": N + "ReportAggregationOptions"}
MAIN = {"Check": "Check", "Quota": "Quota", "Report": "Report"}
OPFIELD = {"Check": "operation", "Quota": "allocate_operation"}
SNAME = T("arg", "service_name"); CONFIG = T("arg", "service_config_id"); OPTIONS = T("arg", "options"); KINDMAP = T("arg", "metric_kinds")
REQUEST = T("arg", "request"); RESPONSE = T("arg", "response"); CALLBACK = T("arg", "callback"); RET = T("arg", "<ret>")
_c = cache()

# ------------------------------------------------------------------ boundaries
ACCUM = ("OperationAggregator", "QuotaOperationAggregator")
def boundaries(evict, known=False, key=None):
    """known: a flush also gives up the entries put in earlier; key: every
    request has this cache key."""
    b = {}
    def lru(*names):
        def d(f):
            for n in names: b[LRU + n] = f
            return f
        return d
    def evictions(c, op, alts):
        """alts: [(state, value, evicted entry or None)] -> model result."""
        out = []
        for st, v, e in alts:
            if e is None: out.append((st, v)); continue
            r = run_deleter(c.vm, st, c.this, e, v)
            out.append((st, v if r is None else r))
        return out[0][1] if len(out) == 1 and out[0][0] is c.st else Forks(out)
    def maybe(c, op, v, why):
        """No entry is given up, or one (or two) arbitrary ones."""
        st = c.st
        if not evict or st.meta.get("evicting"): return v
        alts = [(st, v, None)]
        for m in (1, evict) if op in ("expire", "clear") and evict > 1 else (1,):
            s2 = st.clone()
            n = s2.meta.get("nev", 0); s2.meta["nev"] = n + m
            alts.append((s2, v, [T("evicted", c.this, why, n + j) for j in range(m)]))
        return evictions(c, op, alts)
    @lru("LookupWithOptions")
    def _(c):
        vm, st = c.vm, c.st; k = vm.load(st, c.args[1]); cache = c.args[0]
        known = st.meta.get(("in", cache, k))
        e = T("elem", cache, k)
        def found(s, val):
            ev = vm.event(s, "cache", op="lookup", cache=cache, key=k, elem=val)
            if val: s.meta[("in", cache, k)] = val; s.meta["pins"] = s.meta.get("pins", ()) + ((cache, k, val),)
            else: s.meta[("in", cache, k)] = 0
            return val
        alts = []
        if known is not None: alts.append((st, found(st, known), None)); base = [st]
        else:
            s2 = st.clone()
            alts.append((st, found(st, e), None)); alts.append((s2, found(s2, 0), None))
        if evict and not st.meta.get("evicting"):
            more = []
            for s, v, _ in alts:
                s3 = s.clone(); n = s3.meta.get("nev", 0); s3.meta["nev"] = n + 1
                more.append((s3, v, T("evicted", cache, "expired", n)))
            alts += more
        return evictions(c, "lookup", alts)
    @lru("ReleaseWithOptions")
    def _(c):
        vm, st = c.vm, c.st; k = vm.load(st, c.args[1]); v = c.args[2]
        vm.event(st, "cache", op="release", cache=c.args[0], key=k, elem=v)
        pins = list(st.meta.get("pins", ())); it = (c.args[0], k, v)
        if it in pins: pins.remove(it)
        st.meta["pins"] = tuple(pins)
        d = st.meta.get("deferred", ())
        if v in d and not any(p[2] is v for p in pins):
            st.meta["deferred"] = tuple(x for x in d if x is not v)
            return evictions(c, "release", [(st, None, v)])
        return None
    def put(c, pinned):
        vm, st = c.vm, c.st; k = vm.load(st, c.args[1]); v = c.args[2]
        vm.event(st, "cache", op="insert", cache=c.args[0], key=k, elem=v, units=c.args[3], known=st.meta.get(("in", c.args[0], k)), pins=st.meta.get("pins", ()), evicting=bool(st.meta.get("evicting")))
        old = st.meta.get(("in", c.args[0], k))
        st.meta[("in", c.args[0], k)] = v
        if v not in st.meta.get("stored", ()): st.meta["stored"] = st.meta.get("stored", ()) + (v,)
        if isinstance(old, Term) and old is not v and not any(p[2] is old for p in st.meta.get("pins", ())) and old not in st.meta.get("evicting", ()):
            return evictions(c, "insert", [(st, None, old)])
        if pinned: st.meta["pins"] = st.meta.get("pins", ()) + ((c.args[0], k, v),)
        return maybe(c, "insert", None, "capacity")
    @lru("Insert")
    def _(c): return put(c, False)
    @lru("InsertPinned")
    def _(c): return put(c, True)
    @lru("Remove")
    def _(c):
        vm, st = c.vm, c.st
        if len(c.ptypes) > 1 and "basic_string" not in c.ptypes[1]: return NotImplemented
        k = vm.load(st, c.args[1]); cache = c.args[0]
        vm.event(st, "cache", op="remove", cache=cache, key=k)
        known = st.meta.get(("in", cache, k))
        st.meta[("in", cache, k)] = 0
        if known is not None and not isinstance(known, Term): return None
        e = known if known is not None else T("elem", cache, k)
        if any(p[2] is e for p in st.meta.get("pins", ())):
            st.meta["deferred"] = st.meta.get("deferred", ()) + (e,); return None
        if st.meta.get("evicting"): return None
        if known is not None: return evictions(c, "remove", [(st, None, e)])
        s2 = st.clone()
        return evictions(c, "remove", [(st, None, None), (s2, None, e)])
    def drop(op):
        def f(c):
            c.vm.event(c.st, "cache", op=op, cache=c.args[0], key=None)
            ks = [k for k in c.st.meta if isinstance(k, tuple) and k[0] == "in"]
            es = [c.st.meta[k] for k in ks if isinstance(c.st.meta[k], Term)]
            if known:
                if c.st.meta.get("evicting"): return None
                for k in ks: c.st.meta[k] = 0
                return evictions(c, op, [(c.st, None, es)]) if es else None
            for k in ks: del c.st.meta[k]
            return maybe(c, op, None, op)
        return f
    for n, op in (("RemoveExpiredEntries", "expire"), ("RemoveAll", "clear"), ("Clear", "clear"), ("RemoveUnpinned", "clear"), ("DiscardIdle", "expire")): b[LRU + n] = drop(op)
    def reader(op):
        def f(c):
            v = T("cache-" + op, c.args[0], c.st.meta.get("nq", 0), *[c.vm.load(c.st, a) if isinstance(a, Term) else a for a in c.args[1:]])
            c.vm.event(c.st, "cache", op=op, cache=c.args[0], key=None, ret=v)
            return v
        return f
    for n in ("Size", "Entries", "MaxSize", "PinnedSize", "DeferredSize", "DeferredEntries", "StillInUse", "AgeOfLRUItemInMicroseconds", "GetLastUseTime", "GetInsertionTime"): b[LRU + n] = reader(n.lower())
    def setter(op):
        def f(c):
            c.vm.event(c.st, "cache", op=op, cache=c.args[0], key=None, arg=c.args[1])
            return None
        return f
    for n in ("SetMaxIdleSeconds", "SetAgeBasedEviction", "SetMaxSize"): b[LRU + n] = setter(n)
    def ctor(c):
        vm, st = c.vm, c.st
        words = tuple(vm.load(st, P(c.args[2], o)) for o in (0, 8, 16, 24)) if len(c.args) > 2 else None
        vm.event(st, "cache", op="new", cache=c.args[0], key=None, units=c.args[1], deleter=words)
        st.meta["deleter"] = words
        return None
    b[LRUD + "SimpleLRUCacheWithDeleter"] = ctor
    def dtor(c):
        c.vm.event(c.st, "cache", op="destroy", cache=c.args[0], key=None); return None
    b[LRUD + "~SimpleLRUCacheWithDeleter"] = dtor
    # accumulators
    def acc(cls):
        def mk(op):
            def f(c):
                vm, st = c.vm, c.st
                this = c.this; xs = c.args[2:] if c.sret else c.args[1:]
                vals = tuple(vm.load(st, x) if isinstance(x, Term) else x for x in xs)
                if op == "new": v = None
                elif op == "toobig": v = T("toobig", this, vm.fresh(st, "s"))
                else: v = None
                ver = st.meta.get(("ver", this), 0)
                if op in ("new", "merge"): st.meta[("ver", this)] = ver + 1
                vm.event(st, "acc", op=op, this=this, args=tuple(xs), vals=vals, ret=v)
                if op == "proto": vm.store(st, c.args[0], T("accumulated", this, ver))
                return v
            return f
        s = cls.split("::")[-1]
        b[cls + "::" + s] = mk("new"); b[cls + "::MergeOperation"] = mk("merge"); b[cls + "::ToOperationProto"] = mk("proto"); b[cls + "::TooBig"] = mk("toobig"); b[cls + "::~" + s] = mk("destroy")
    for a in ACCUM: acc(N + a)
    def sig(name):
        def f(c):
            v = key if key is not None else T("sigof", name, c.vm.load(c.st, c.args[1])); c.vm.store(c.st, c.args[0], v)
            c.vm.event(c.st, "sig", name=name, val=v)
            return None
        return f
    for f in program().root_fns():
        n = f.short.split("::")[-1]
        if n.startswith("Generate") and n.endswith("Signature") and f.sret: b[f.short] = sig(n)
    return b

def run_deleter(vm, st, cache, e, v):
    rest = []
    if isinstance(e, list): e, rest = e[0], e[1:]
    words = st.meta.get("deleter")
    vm.event(st, "evict", elem=e, cache=cache, snap={o: x for (b, o), x in st.mem.items() if b is e})
    inv = words[3] if words else None
    f = vm.prog.fn(inv.a[0]) if is_t(inv, "fn") else None
    if f is None or f.decl: raise Missing("the function the cache passes removed entries to")
    n = st.meta.get("ndel", 0); st.meta["ndel"] = n + 1
    fo = T("alloca", "deleter", n); cell = T("alloca", "deleted", n)
    for o, x in zip((0, 8, 16, 24), words): st.mem[(fo, o)] = x
    st.mem[(cell, 0)] = e; st.alive.add(fo); st.alive.add(cell)
    st.meta["evicting"] = st.meta.get("evicting", ()) + (e,)
    def tag(vm2, s, rv, fr):
        s.meta["evicting"] = s.meta["evicting"][:-1]
        vm2.event(s, "evicted", elem=e)
        return run_deleter(vm2, s, cache, rest, v) if rest else v
    return Inline(f, [fo, cell], tag)

# ------------------------------------------------------------------ classes, constructors
def impl(kind):
    """The class CreateXAggregator makes."""
    if ("impl", kind) in _c: return _c["impl", kind]
    cands = [c for c in derived(IFACE[kind])]
    P_ = program()
    cands = [c for c in cands if P_.find(c + "::" + MAIN[kind])]
    if len(cands) != 1: raise Missing("the implementation of " + IFACE[kind])
    _c["impl", kind] = cands[0]
    return cands[0]

class World:
    """One aggregator as constructed: the state its operations start from."""
    def __init__(self, kind, st, obj, cache): self.kind = kind; self.st = st; self.obj = obj; self.cache = cache

def factory(kind):
    """(function, vm, terminal states) of CreateXAggregator."""
    if ("factory", kind) in _c: return _c["factory", kind]
    fs = program().find(FACT[kind])
    if not fs: raise Missing(FACT[kind])
    f = fs[0]
    args = [RET, SNAME, CONFIG, OPTIONS] + ([KINDMAP] if len(f.pt) > 3 else [])
    v = new_vm(boundaries(False))
    res = v.analyse(f, args)
    _c["factory", kind] = (f, v, res)
    return _c["factory", kind]

def raw_worlds(kind):
    out = []
    f, v, res = factory(kind)
    for st in res:
        if st.status != "ret": continue
        obj = st.mem.get((RET, 0))
        if not is_t(obj, "new"): raise Missing("what %s returns" % FACT[kind])
        ev = [e for e in st.events if e.kind == "cache" and e.op == "new"]
        s = st.clone(); s.frames = []; s.events = []; s.status = "run"; s.held = ()
        out.append(World(kind, s, obj, ev[0].cache if ev else None))
    if not any(w.cache is not None for w in out) or not any(w.cache is None for w in out): pass
    return out

def op_fn(kind, op):
    fs = program().find(impl(kind) + "::" + op)
    if not fs: raise Missing("%s::%s" % (impl(kind), op))
    return fs[0]
def op_args(kind, fn, obj, extra=None):
    args = [RET] if fn.sret else []
    args.append(obj)
    for i, t in enumerate(fn.pt[2:]):
        if REQ[kind].split("::")[-1] in t and "function" not in t: args.append(REQUEST)
        elif RSP[kind].split("::")[-1] in t and "function" not in t: args.append(RESPONSE)
        elif "function" in t: args.append(CALLBACK)
        else: args.append(T("arg", "extra%d" % i))
    return args

def start(v, w, op, st=None, args=None):
    """A state about to run an operation."""
    st = (st or w.st).clone()
    st.events = []; st.path = []; st.frames = []; st.status = "run"; st.pending = None
    fn = op_fn(w.kind, op)
    v.push(st, fn, args or op_args(w.kind, fn, w.obj), None, T("root", fn.name, st.meta.get("depth", 0)))
    st.meta["depth"] = st.meta.get("depth", 0) + 1
    return fn, st

def worlds(kind):
    """Base states with the cells operations change left open."""
    if ("worlds", kind) in _c: return _c["worlds", kind]
    ws = raw_worlds(kind)
    for w in ws:
        changed = set()
        for op in OPS[kind]:
            v = new_vm(boundaries(1)); v.unroll = 3
            wr = set()
            def acc(vm, s, rw, base, off, wr=wr):
                if rw == "w" and base is w.obj: wr.add(off)
            v.acc = acc
            fn, st = start(v, w, op)
            if kind == "Report": st.mem[(REQUEST, 0)] = sized(1)
            for s in v.run(st):
                if s.status != "ret": continue
                for c, x in s.mem.items():
                    if c[0] is w.obj and w.st.mem.get(c) is not x and not (is_c(x) and is_c(w.st.mem.get(c)) and x == w.st.mem.get(c)): changed.add(c)
        for c in changed: w.st.mem.pop(c, None)
        w.changed = changed
    _c["worlds", kind] = ws
    return ws

def connected(kind, asmade=False):
    """The base states with a flush callback registered; asmade: nothing else
    happened since construction."""
    if ("connected", kind, asmade) in _c: return _c["connected", kind, asmade]
    out = []
    for w in raw_worlds(kind) if asmade else worlds(kind):
        v = new_vm(boundaries(0))
        fn, st = start(v, w, "SetFlushCallback")
        v.assume(st, eq(T("ld", P(CALLBACK, 16)), 0), False)
        for s in v.run(st):
            if s.status != "ret": continue
            s = s.clone(); s.events = []; s.path = []; s.frames = []; s.held = ()
            x = World(kind, s, w.obj, w.cache); x.changed = set() if asmade else w.changed; x.when = w.st.path
            out.append(x)
    _c["connected", kind, asmade] = out
    return out
DELIVER = T("ld", P(CALLBACK, 24))
def deliveries(st):
    """The items handed to the flush callback: [event]."""
    return [e for e in st.events if e.kind == "icall" and e.target is DELIVER]

UNROLL = 12
def runs(kind, op, evict=2, n=None, conn=True, full=False, setup=None):
    """[(world, fn, vm, [state])] for one operation from every base state. With n,
    a report has n operations. Loops are followed iteration by iteration. With
    full, every entry given up has data to send."""
    if n is not None and n > 2: evict = 0
    key = ("runs", kind, op, evict, n, conn, full, setup)
    if key in _c: return _c[key]
    out = []
    for w in connected(kind) if conn else worlds(kind):
        v = new_vm(boundaries(evict))
        v.acc = watcher(w); v.unroll = max(UNROLL, evict + 4, (n or 0) + 4); v.countmax = max(64, v.unroll)
        fn, st = start(v, w, op)
        if full is not False:
            for why in ("clear", "expire", "expired", "capacity"):
                for i in range(evict): v.assume(st, ne(T("ld", P(T("evicted", w.cache, why, i), full)), 0), True)
        if n is not None: st.mem[(REQUEST, 0)] = sized(n)
        if setup is not None: setup(w, v, st)
        try: out.append((w, fn, v, v.run(st)))
        except Limit as e:
            s = State(); s.status = "abort"; s.why = "bound: %s" % e
            out.append((w, fn, v, [s]))
        v.acc = None
    _c[key] = out
    return out

def sized(n):
    """A report request with n arbitrary operations."""
    return upd(T("ld", REQUEST), "operations", T("list", tuple(T("op", i) for i in range(n))))
def watcher(w):
    def acc(vm, st, rw, base, off):
        if not is_t(base): return
        if base is w.obj: vm.event(st, "acc-self", off=off, rw=rw)
        elif base.h == "glob":
            if rw == "w": vm.event(st, "acc-glob", name=base.a[0], off=off, rw=rw)
        elif base.h == "new" and base in st.meta.get("stored", ()): vm.event(st, "acc-new", elem=base, off=off, rw=rw)
        elif base.h in ("elem", "evicted"): vm.event(st, "acc-elem", elem=base, off=off, rw=rw)
        if base in st.freed and base.h in ("new", "elem", "evicted"): vm.event(st, "use-after-free", ptr=base, rw=rw)
    return acc

def flat(events):
    out = []
    for e in events:
        if e.kind == "loop":
            out.append(e)
            for it in e.loop.iters: out += flat(it["events"])
        else: out.append(e)
    return out
