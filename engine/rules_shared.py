"""C47: memory that outlives a call and is written by calls is protected."""
from rules_client import *

def outer(t):
    """What an address is reached from: the client, a variable, an object made
    by the constructor; None for memory of the call itself."""
    while is_t(t):
        if t is THIS or t.h in ("glob", "new"): return t
        if t.h in ("p", "ld", "fld", "elt", "mv", "ent", "sdata", "sptr"): t = t.a[0]
        else: return None
    return None
def lock_root(h): return outer(h) if is_t(h) else None

class Shared:
    """Accesses to shared cells: cell -> [(write, atomic, locks, where, chain, name)]"""
    def __init__(self): self.cells = {}; self.n = 0
    def add(self, cell, e, name, where):
        self.n += 1
        k = (e.rw, e.atomic, e.held, at_ev(e) if e.loc[0] != "?" else where)
        d = self.cells.setdefault(cell, {})
        if k not in d: d[k] = (chain_of(e), name)

def recorder(made):
    """made: objects of the constructor that live on in the client or its
    callbacks, and the members that hold them."""
    def acc(vm, st, rw, base, off):
        if not is_t(base): return
        b = made.get(base, base)
        if b is THIS or (b.h in ("glob", "new") and (b.h == "glob" or b in made.values())) or (b.h == "ld" and outer(b) is not None and outer(b).h != "new"):
            vm.event(st, "shared", base=b, off=off, rw=rw, atomic=bool(vm.atomic))
    return acc
def constructed():
    """Objects of the constructor that outlive it."""
    f, v, res = constructor(); made = {}
    for st in res:
        if not live(st): continue
        vals = [x for (b, o), x in st.mem.items() if b is THIS]
        for e in st.events:
            if e.kind == "icall" and "PeriodicTimer" in e.sig: vals += [w for w in e.vals[1] or () if isinstance(w, Term)]
            if e.kind == "vcall" and e.method == "SetFlushCallback": vals += [w for w in e.vals[0] or () if isinstance(w, Term)]
        for (b, o) in reach(st, [x for x in vals if isinstance(x, Term)]):
            if b.h == "new": made[b] = b
        for (b, o), x in st.mem.items():
            if b is THIS and is_t(x, "new"): made[T("ld", P(THIS, o))] = x
    return made

def guard_open(prog, st, name):
    """The path runs the initialiser of a function's static variable."""
    g = T("ld", T("glob", "_ZGV" + name[2:] if name.startswith("_Z") else "_ZGV" + name))
    for t, b in st.path:
        if g in set(subterms(t)) or t is g:
            return (t.h == "eq") == b
    return False

def C47(rep):
    sh = Shared(); P_ = program(); made = constructed()
    def take(name, where, states):
        for s in states:
            if s.status not in ("ret", "abort"): continue
            for e in flat(s.events):
                if e.kind != "shared" or not is_c(e.off): continue
                sh.add((e.base, e.off), e, name, where)
    for mode in MODES:
        for en in entries():
            def go(u, en=en):
                v = mk_vm(mode, recorder(made), u)
                st = State(); vptr(st, v); v.entry(en.fn, list(en.args), st)
                return v, complete(v, v.run(st))
            v, res = tries(go); v.acc = None; rep.use(v)
            take("%s (%s)" % (en, WHEN[mode]), loc(en.fn), res)
        f, v0, cbs = flush_callbacks()
        for k in KINDS:
            seen = set()
            for st0, e in cbs.get(k, []):
                words = e.vals[0]
                if words is None or not is_t(words[3], "fn") or words[3] in seen: continue
                seen.add(words[3])
                def go(u, st0=st0, words=words):
                    v = mk_vm(mode, None, u)
                    s = State(); vptr(s, v)
                    for c, x in reach(st0, words).items(): s.mem[c] = x; s.alive.add(c[0])
                    v.acc = recorder(made)
                    call_closure(v, s, words, [REQUEST])
                    return v, complete(v, v.run(s))
                v, res = tries(go); v.acc = None; rep.use(v)
                take("flush callback of the %s aggregator" % k, at_ev(e), res)
    f, v0, res, calls = timer_calls(); seen = set()
    for st0, e in calls:
        words = e.vals[1]
        if words is None or not is_t(words[3], "fn") or words[3] in seen: continue
        seen.add(words[3])
        v = mk_vm("late"); s = State(); vptr(s, v)
        for c, x in reach(st0, words).items(): s.mem[c] = x; s.alive.add(c[0])
        v.acc = recorder(made); call_closure(v, s, words, [])
        take("the timer's handler", at_ev(e), v.run(s)); v.acc = None; rep.use(v)
    for f in P_.find(C + "::GetStatistics"):
        v = mk_vm("late", recorder(made))
        take("GetStatistics", loc(f), v.analyse(f)); v.acc = None; rep.use(v)
    if not sh.n: raise Missing("accesses to the client's members")
    one(rep, sh, lambda b: b.h != "glob" and outer(b).h != "glob", "member state of the client")
    statics(rep)

def one(rep, sh, pick, what):
    for (b, o), d in sorted(sh.cells.items(), key=lambda x: str(x[0])):
        if not pick(b): continue
        rep.sites += len(d)
        if not any(rw == "w" for rw, at, held, w in d): rep.ob("only constructors write unprotected " + what, True); continue
        plain = [k for k in d if not k[1]]
        locks = None
        for k in plain: locks = set(k[2]) if locks is None else locks & set(k[2])
        ok = not plain or bool(locks)
        # the access without the lock most others hold
        cnt = {}
        for k in plain:
            for h in k[2]: cnt[h] = cnt.get(h, 0) + 1
        best = max(cnt, key=lambda h: cnt[h]) if cnt else None
        bad = [k for k in plain if best not in k[2]] or plain
        bad.sort(key=lambda k: k[0] != "w")
        rep.ob("only constructors write unprotected " + what, ok, bad[0][3] if bad else "", "" if ok else
               "%s: memory shared by concurrent calls (%s) is %s without a lock and not atomically" % (d[bad[0]][1], show(P(b, o))[:80], "written" if bad[0][0] == "w" else "read"), d[bad[0]][0] if bad else ())

# ------------------------------------------------------------------ variables
def refs(x, out):
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == "g" and isinstance(x[1], str): out.add(x[1])
        else:
            for y in x: refs(y, out)
    elif isinstance(x, dict):
        for y in x.values(): refs(y, out)
def users():
    """function -> what it refers to (functions and variables)."""
    r = {}
    for f in program().root_fns():
        s = set()
        for b in f.blocks:
            for i in b: refs(i, s)
        r[f.name] = s
    return r

def statics(rep):
    P_ = program(); u = users()
    def shared(n):
        g = P_.globals.get(n)
        return g and "init" in g and not g.get("const") and not g.get("tls") and not n.startswith(("_ZGV", "_ZTV", "_ZTI", "_ZTS")) and g.get("root", 1)
    callers = {}
    for f, s in u.items():
        for x in s: callers.setdefault(x, set()).add(f)
    touched = {f: {x for x in s if shared(x)} for f, s in u.items()}
    init = lambda n: n.startswith(("_GLOBAL__", "__cxx_global", "_Z41__static"))
    memo = {}
    def touches_lock(n): return any("mutex" in str(P_.globals[x].get("ty", "")) for x in touched.get(n, ()))
    def bad(n):
        """Unprotected accesses when n is called: [(event, function, variable)]"""
        if n in memo: return memo[n]
        f = P_.fns[n]; memo[n] = []
        v = new_vm(); v.unroll = 3
        def acc(vm, st, rw, base, off):
            r = outer(base) if is_t(base) else None
            if r is None or r.h != "glob" or not shared(r.a[0]): return
            vm.event(st, "shared", base=base, off=off, rw=rw, atomic=bool(vm.atomic), var=r.a[0])
        v.acc = acc
        try: res = v.analyse(f)
        except Limit: res = None
        v.acc = None; rep.use(v); out = []
        # too large to follow: what it does not lock is not locked
        if res is None: out = None if touches_lock(n) else [(None, f, None)]
        for st in res or ():
            for e in flat(st.events):
                if e.kind != "shared" or e.rw != "w" or e.atomic: continue
                if any(lock_root(h) is not None and lock_root(h).h == "glob" for h in e.held): continue
                if guard_open(P_, st, e.var): continue
                out.append((e, f, e.var))
        memo[n] = out
        return out
    def open_(n, depth, seen):
        b = bad(n)
        if not b: return []
        up = [c for c in callers.get(n, ()) if c not in seen and not init(c)]
        if not up or depth == 0: return b
        for c in up:
            r = open_(c, depth - 1, seen | {c})
            if r: return b
        return []
    for n, vs in sorted(touched.items()):
        if not vs or init(n): continue
        b = open_(n, 4, {n})
        rep.ob("variables that outlive calls are written under a lock or atomically", not b, at_ev(b[0][0]) if b else loc(P_.fns[n]),
               "" if not b else "%s writes %s, which calls on any client share, without a lock of its own and not atomically" % (P_.fns[n].short, P_.globals[b[0][2]]["dem"]), chain_of(b[0][0]) if b else ())
    rep.ob("variables that outlive calls are written under a lock or atomically", True)
    rep.note("%d functions, %d of them refer to variables that are not constant" % (len(u), sum(bool(x) for x in touched.values())))
