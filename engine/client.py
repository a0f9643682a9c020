"""Runs of the client's entry points: the constructor, the calls in both ways a
transport may complete (inside the transport call, or later from elsewhere), the
flush callbacks, the timer handler and the destructor."""
from lib import *

C = N + "ServiceControlClientImpl"
KINDS = ("Check", "Quota", "Report")
REQ = {"Check": SC + "CheckRequest", "Quota": SC + "AllocateQuotaRequest", "Report": SC + "ReportRequest"}
RSP = {"Check": SC + "CheckResponse", "Quota": SC + "AllocateQuotaResponse", "Report": SC + "ReportResponse"}
AGG = {"Check": N + "CheckAggregator", "Quota": N + "QuotaAggregator", "Report": N + "ReportAggregator"}
FACT = {"Check": N + "CreateCheckAggregator", "Quota": N + "CreateAllocateQuotaAggregator", "Report": N + "CreateReportAggregator"}
THIS = T("arg", "this"); REQUEST = T("arg", "request"); RESPONSE = T("arg", "response"); DONE = T("arg", "done"); TRANSPORT = T("arg", "transport")
CSTATUS = T("arg", "cstatus")
SENT = T("response-from-server")

def kind_of_agg(cls):
    for k, c in AGG.items():
        if cls == c or cls in derived(c): return k
    return None
def fobj_words(v, st, fobj):
    return tuple(v.load(st, P(fobj, o)) for o in (0, 8, 16, 24))
def derives_from(words, base):
    """A std::function value that is (a copy of) the one stored at base."""
    return words is not None and all(is_t(w, "ld") and base_off(w.a[0])[0] is base for w in words[2:4])
def base_of(words):
    """Storage a symbolic std::function value came from: (base, offset)."""
    if words is None or not is_t(words[3], "ld"): return None
    b, o = base_off(words[3].a[0])
    return (b, o - 24) if is_c(o) else None

class Entry:
    def __init__(self, fn, kind, args, roles): self.fn = fn; self.kind = kind; self.args = args; self.roles = roles
    @property
    def sync(self): return "done" not in self.roles
    def __str__(self): return "%s(%s) at %s" % (self.kind, ", ".join(self.roles[1:]), loc(self.fn))

def entries():
    """Every overload of Check, Quota and Report that the client implements."""
    P_ = program(); r = []
    for kind in KINDS:
        fs = P_.find(C + "::" + kind)
        if not fs: raise Missing("no implementation of %s::%s" % (C, kind))
        for f in fs:
            pt = f.pt[1:]; args = []; roles = []
            if f.sret: args.append(T("arg", "<ret>"))
            nf = 0
            for i, t in enumerate(pt):
                if i == 0: a = "this"
                elif REQ[kind] in t and "function" not in t: a = "request"
                elif RSP[kind] in t and "function" not in t: a = "response"
                elif "function" in t:
                    a = "done" if nf == 0 else "transport"; nf += 1
                else: a = "extra%d" % i
                roles.append(a); args.append(T("arg", a))
            r.append(Entry(f, kind, args, roles))
    return r

def vptr(st, v):
    """`this` is a client object."""
    z = "_ZTV" + "N6google22service_control_client24ServiceControlClientImplE"
    st.mem[(THIS, 0)] = T("p", T("glob", z), 16)

def begin(vm, s, words):
    own = reach(s, words)
    vm.event_nf(s, "begin-completion", words=words, ctl=frozenset(x for x in own.values() if is_t(x, "ctl")), alive=frozenset(s.alive))

def tries(go):
    """go(how many times loops are followed round), with fewer where there are too many paths."""
    for u in (8, 3, 1):
        try: return go(u)
        except Limit:
            if u == 1: raise
def mk_vm(mode, acc=None, unroll=8):
    """mode 'inline': a transport completes before it returns;
    'late': it completes after the entry point returned (or while it waits)."""
    def on_function(c, inv, args):
        vm, st = c.vm, c.st
        e = st.events[-1]
        if e.get("target") is T("ld", P(DONE, 24)): st.meta["over"] = True
        if len(args) != 4 or "Response" not in e.sig: return NotImplemented
        # the transport writes the response it was given
        if is_t(args[2]): vm.store(st, args[2], SENT)
        fo = args[3]
        words = fobj_words(vm, st, fo)
        e.d["transport"] = True; e.d["completion"] = words
        if mode == "inline":
            st.meta["phase"] = "completion"
            if is_t(words[3], "fn"):
                f = vm.prog.fn(words[3].a[0])
                if f is not None and not f.decl:
                    begin(vm, st, words)
                    def tag(vm2, s, v, fr):
                        vm2.event(s, "end-completion"); return v
                    return Inline(f, [fo, CSTATUS], tag)
            vm.event(st, "done-delegated", words=words)
            if derives_from(words, DONE): st.meta["over"] = True
            return None
        st.meta["todo"] = st.meta.get("todo", ()) + (words,)
        return None
    def on_wait(c, state):
        """The waiting thread sleeps until the completion ran elsewhere."""
        vm, st = c.vm, c.st
        todo = st.meta.get("todo", ())
        if not todo: return NotImplemented
        words = todo[0]; st.meta["todo"] = todo[1:]
        inv = words[3]
        f = vm.prog.fn(inv.a[0]) if is_t(inv, "fn") else None
        if f is None or f.decl: return NotImplemented
        fo = closure_obj(vm, st, words)
        begin(vm, st, words)
        st.meta["late"] = True
        def tag(vm2, s, v, fr):
            vm2.event(s, "end-completion"); s.meta["late"] = False; return v
        return Inline(f, [fo, CSTATUS], tag)
    def factory(kind):
        def h(c):
            vm, st = c.vm, c.st
            a = T("aggregator", kind)
            xs = c.args[1:]
            vm.event(st, "create", what=kind, args=tuple(xs), argvals=tuple(vm.load(st, x) if isinstance(x, Term) else x for x in xs), ptypes=tuple(c.ptypes),
                     opts={o: vm.load(st, P(xs[2], o)) for o in (0, 4, 8)} if len(xs) > 2 and isinstance(xs[2], Term) else None)
            vm.store(st, c.args[0], a)
            return None
        return h
    b = {FACT[k]: factory(k) for k in KINDS}
    b["*function"] = on_function; b["*wait"] = on_wait
    v = new_vm(b)
    v.acc = acc; v.unroll = unroll
    return v
def closure_obj(vm, st, words):
    fo = T("alloca", "closure", *[x if isinstance(x, (Term, int)) else 0 for x in words])
    for o, x in zip((0, 8, 16, 24), words): st.mem[(fo, o)] = x
    st.alive.add(fo)
    return fo

def late(v, st, words, args):
    """Terminal states of running a completion after the entry point returned."""
    s = st.clone()
    begin(v, s, words)
    s.meta["late"] = True
    f = call_closure(v, s, words, args)
    if f is None: return None
    out = v.run(s)
    return out

# ------------------------------------------------------------------ the runs, once per process
_cache = cache()
def runs(mode):
    """[(entry, vm, [state])]: all paths of all entry points, completions included."""
    if ("runs", mode) in _cache: return _cache["runs", mode]
    out = []
    for en in entries():
        def go(u, en=en):
            v = mk_vm(mode, watcher(), u)
            st = State(); vptr(st, v)
            v.entry(en.fn, list(en.args), st)
            return en, v, complete(v, v.run(st))
        out.append(tries(go))
    _cache["runs", mode] = out
    return out
def complete(v, states):
    """Runs the completions left over when the entry point has returned."""
    done = []
    for s in states:
        if s.status != "ret": done.append(s); continue
        work = [s]
        while work:
            x = work.pop()
            todo = x.meta.get("todo", ())
            if x.status != "ret" or not todo: done.append(x); continue
            x = x.clone(); x.meta["todo"] = todo[1:]
            r0 = x.ret
            v.event_nf(x, "returned")
            r = late(v, x, todo[0], [CSTATUS])
            if r is None:
                v.event_nf(x, "done-delegated", words=todo[0]); work.append(x)
            else:
                for y in r:
                    if y.status == "ret": y.ret = r0
                    v.event_nf(y, "end-completion")
                    work.append(y)
    return done

def watcher():
    """Records what completions touch that may be gone: the client, dead stack
    objects, freed memory, the by-value arguments of the call."""
    def acc(vm, st, rw, base, off):
        if not is_t(base): return
        if base in st.freed and is_t(base, "new"):
            vm.event(st, "use-after-free", ptr=base, rw=rw)
        if st.meta.get("over") and (base is REQUEST or base is RESPONSE): vm.event(st, "over-touch", ptr=base, rw=rw)
        if not st.meta.get("late"): return
        if base is THIS: vm.event(st, "late-this", off=off, rw=rw)
        elif base.h == "alloca" and base not in st.alive: vm.event(st, "late-stack", ptr=base, off=off, rw=rw)
        elif base is DONE or base is TRANSPORT: vm.event(st, "late-arg", ptr=base, off=off, rw=rw)
        elif base is REQUEST: vm.event(st, "late-request", ptr=base, off=off, rw=rw)
    return acc

def constructor():
    """Constructor paths: [(vm, state)]."""
    if "ctor" in _cache: return _cache["ctor"]
    fs = program().find(C + "::ServiceControlClientImpl")
    fs = [f for f in fs if len(f.pt) >= 4]
    if not fs: raise Missing("constructor of " + C)
    v = mk_vm("late")
    f = fs[0]
    args = [T("arg", "this"), T("arg", "service_name"), T("arg", "service_config_id"), T("arg", "options")]
    r = v.analyse(f, args)
    _cache["ctor"] = (f, v, r)
    return _cache["ctor"]
def destructor():
    fs = program().find(C + "::~ServiceControlClientImpl")
    fs = [f for f in fs if "D2" in f.name] or fs
    if not fs: raise Missing("destructor of " + C)
    return fs[0]
def flush_callbacks():
    """kind -> the closure registered with that aggregator (from the constructor)."""
    f, v, res = constructor(); out = {}
    for st in res:
        for e in st.events:
            if e.kind == "vcall" and e.method == "SetFlushCallback":
                k = kind_of_agg(e.cls)
                out.setdefault(k, []).append((st, e))
    return f, v, out
def flush_runs(mode):
    """[(kind, registration event, vm, states)]"""
    if ("flush", mode) in _cache: return _cache["flush", mode]
    f, v0, cbs = flush_callbacks(); out = []
    for k in KINDS:
        if k not in cbs: raise Missing("no flush callback is registered with the %s aggregator" % k)
        seen = set()
        for st0, e in cbs[k]:
            words = e.vals[0]
            if words is None or not is_t(words[3], "fn"): continue
            key = words[3]
            if key in seen: continue
            seen.add(key)
            def go(u, k=k, e=e, st0=st0, words=words):
                v = mk_vm(mode, None, u)
                s = State(); vptr(s, v)
                for c, x in reach(st0, words).items(): s.mem[c] = x; s.alive.add(c[0])
                v.acc = watcher()
                g = call_closure(v, s, words, [REQUEST])
                return k, e, v, complete(v, v.run(s))
            out.append(tries(go))
    _cache["flush", mode] = out
    return out

# ------------------------------------------------------------------ reading the runs
def transports(st): return [e for e in st.events if e.kind == "icall" and e.get("transport")]
def aggcalls(st, method=None, kind=None):
    return [e for e in flat(st.events) if e.kind == "vcall" and kind_of_agg(e.cls) and (method is None or e.method == method) and (kind is None or kind_of_agg(e.cls) == kind)]
def flat(events):
    """Events in order, loop bodies included once."""
    out = []
    for e in events:
        if e.kind == "loop":
            out.append(e)
            for it in e.loop.iters: out += flat(it["events"])
        else: out.append(e)
    return out
