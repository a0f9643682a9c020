"""The quota aggregator against its protocol (C12, C13, C14): all histories of
one cache entry, explored breadth first over (protocol state, shape of the
entry) until nothing new turns up. Every step analyses the operation's code
from the state the previous steps left; requests, responses and the options
are symbols, only times and error counts are fixed."""
from agg import *
import rules_agg as ra
QKEY = T("key", "the request's key")
DENY = 1
R_MS, E_MS = 1000, 600000
def areq(i): return T("arg", "request%d" % i)
def aout(i): return T("arg", "response%d" % i)
def adel(i): return T("arg", "delivered%d" % i)
class M:
    """The protocol's view of the entry."""
    def __init__(self): self.exists = False; self.flight = False; self.resp = None; self.acc = (); self.refresh = 0; self.first = None
    def clone(self):
        m = M(); m.__dict__.update(self.__dict__); return m
    def deny(self): return self.resp is not None and self.resp[0] == "-"
    def key(self, cur): return (self.exists, self.flight, self.resp and self.resp[0], min(len(self.acc), 2), self.exists and cur - self.refresh >= R_MS * 1000)
class Node:
    def __init__(self, st, m, cur, n, env, taken, hist): self.st = st; self.m = m; self.cur = cur; self.n = n; self.env = env; self.taken = taken; self.hist = hist
HIST = {"Qf": "a request while fresh", "Qd": "a request when due", "R+": "an allowing response", "R-": "a denial", "F": "a flush", "Fl": "a flush just before expiry", "Fx": "a flush after expiry", "Ff": "a removal from the full cache"}

def shape(w, nd):
    st = nd.st
    e = st.meta.get(("in", w.cache, QKEY))
    if not isinstance(e, Term): return None
    out = []
    def val(x):
        """Constants as they are, times by how far they are from the protocol's stamp."""
        if is_c(x) or not isinstance(x, Term): return str(x)
        try: y = evalt(x, nd.env)
        except (Unk, TypeError): return x.h
        if isinstance(y, int) and abs(y) > BASE0 // 2: return "stamp%+d" % max(-2 * R_MS * 1000, min(2 * R_MS * 1000, y - nd.m.refresh))
        return x.h
    for (b, o), x in st.mem.items():
        if b is e: out.append((str(o), val(x)))
    for (b, o), x in st.mem.items():
        if b is w.obj and w.st.mem.get((b, o)) is not x: out.append(("self%s" % o, val(x)))
    return tuple(sorted(out, key=str))

def counts(path, n):
    """Numbers of errors that the conditions of a path tell apart."""
    ks = {DENY, 2, 3}
    for a, b in path:
        ts = list(subterms(a))
        if n in ts:
            for t in ts:
                for x in t.a if isinstance(t, Term) else (t,):
                    if isinstance(x, int) and 0 < abs(x) < 1 << 31: ks |= {abs(x), abs(x) + 1, abs(x) - 1}
    return sorted(k for k in ks if k > 0)
class Explorer:
    def __init__(self, w):
        self.w = w; self.vms = []; self.findings = []; self.checks = {}; self.steps = 0; self.undecided = []; self.conds = set()
        self.fns = {op: op_fn("Quota", op) for op in ("Quota", "CacheResponse", "Flush")}
        self.maxnodes = 260
    def ok(self, pid, rule, good, ev, fn, msg, node):
        self.checks.setdefault((pid, rule), [0, 0]); self.checks[pid, rule][0] += 1
        if good is None: self.undecided.append((pid, rule, msg))
        elif not good:
            self.checks[pid, rule][1] += 1
            self.findings.append((pid, rule, ra.wh(ev, fn), msg, chain_of(ev) if ev is not None else [], ["history: " + ", ".join(HIST[h] for h in node.hist)] + path_of(node.st)))
        return bool(good)
    def run(self):
        global OPT_R, OPT_E
        OPT_R, OPT_E = opt_("refresh_interval_ms"), opt_("expiration_interval_ms")
        root = Node(self.w.st.clone(), M(), BASE0, 0, env_(R_MS, E_MS), {}, ())
        seen = set(); work = [root]
        while work:
            nd = work.pop(0)
            k = (nd.m.key(nd.cur), shape(self.w, nd))
            if k in seen: continue
            seen.add(k)
            if len(seen) > self.maxnodes * lib_scale(): self.undecided.append(("C12", "histories", "too many states")); break
            for act in HIST:
                for nx in self.step(nd, act): work.append(nx)
        self.states = len(seen)
    def step(self, nd, act):
        m, cur = nd.m, nd.cur; i = nd.n
        due_at = m.refresh + R_MS * 1000; dead_at = m.refresh + E_MS * 1000
        full = 0
        if act == "Qf":
            t = max(cur, due_at - 1) if m.exists else cur
            if m.exists and t >= due_at: return []
            op = "Quota"
        elif act == "Qd":
            if not m.exists: return []
            t = max(cur, due_at); op = "Quota"
        elif act in ("R+", "R-"): t = cur; op = "CacheResponse"
        else:
            op = "Flush"
            if not m.exists: return []
            if act in ("F", "Ff"): t = cur
            elif act == "Fl": t = max(cur, dead_at - 1)
            else: t = max(cur, dead_at)
            if act != "Fx" and t >= dead_at: return []
            full = act == "Ff"
        v = new_vm(boundaries(0, known=True, key=QKEY)); v.unroll = UNROLL
        fn = self.fns[op]
        args = [RET] if fn.sret else []
        args.append(self.w.obj)
        if op == "Quota": args += [areq(i), aout(i)]
        elif op == "CacheResponse": args += [areq(i), adel(i)]
        if len(args) != len(fn.pt): raise Missing("the parameters of %s" % fn.short)
        fn, st = start(v, self.w, op, nd.st, args)
        if op != "Flush":
            v.assume(st, seq(T("ld", SNAME), get(T("ld", areq(i)), "service_name")), True)
            v.assume(st, has(T("ld", areq(i)), "allocate_operation"), True)
        res = v.run(st); self.vms.append(v); self.steps += 1
        out = []
        for s in res:
            if s.status != "ret":
                if "bound" in s.why: self.undecided.append(("C12", "histories", s.why))
                continue
            env = dict(nd.env)
            for a, b in s.path:
                if a not in self.conds and (OPT_R in subterms(a) or OPT_E in subterms(a)):
                    try: evalt(a, env_(R_MS, E_MS)); self.conds.add(a)
                    except (Unk, TypeError, OverflowError, ValueError): pass
            for e in s.events:
                if e.kind == "now": env[e.val] = t
            for a, b in s.path:
                for x in subterms(a):
                    if x.h == "cache-size" or x.h == "cache-entries": env[x] = 100 if full else 10
                    elif x.h == "cache-maxsize": env[x] = 100
            if op == "CacheResponse":
                # a denial carries one error or more: the first number that takes this path
                n = size(get(T("ld", adel(i)), "allocate_errors"))
                for x in counts(s.path, n) if act == "R-" else (0,):
                    env[n] = x
                    if holds(s.path, env) is not False: break
            if holds(s.path, env) is False: continue
            n2 = Node(s, m.clone(), t, i + 1, env, dict(nd.taken), nd.hist + (act,))
            if self.judge(nd, n2, op, act, fn, i, v): out.append(n2)
        return out
    def judge(self, old, nd, op, act, fn, i, v):
        st, m, t = nd.st, nd.m, nd.cur
        ds = deliveries(st); acs = ra.accs(st, "new", "merge")
        taken = nd.taken
        first_acc = None
        ok = self.ok
        good = True
        pre = dict(taken)
        for a in acs:
            taken[a.this] = taken.get(a.this, ()) + ((a.vals[0] if a.vals else None),)
        if op == "CacheResponse":
            good &= ok("C12", "a response starts no call", not ds, ds[0] if ds else None, fn, "the arrival of a response starts a server call", nd)
            good &= ok("C14", "only requests accumulate", not acs, acs[0] if acs else None, fn, "the arrival of a response accumulates tokens", nd)
            if m.exists:
                m.flight = False; m.resp = ("-" if act == "R-" else "+", i)
                if act == "R-": m.acc = ()
            return good
        if op == "Flush":
            gone = act in ("Fx", "Ff")
            send = not m.flight and bool(m.acc) and act != "Fx"
            if m.flight: good &= ok("C12", "no second call while one is outstanding", not ds, ds[0] if ds else None, fn, "a call is started by flushing while another one for the key is outstanding", nd)
            elif send:
                good &= ok("C14", "accumulated tokens are sent", len(ds) == 1, ds[1] if len(ds) > 1 else None, fn, "tokens of an entry given up are sent %d times" % len(ds), nd)
                for d in ds: good &= self.refresh_item(d.argvals[0], d, m, pre, fn, nd)
            else: good &= ok("C12", "calls are started for a reason", not ds, ds[0] if ds else None, fn, "flushing an entry that %s starts a call" % ("expired" if act == "Fx" else "accumulated nothing"), nd)
            good &= ok("C14", "only requests accumulate", not acs, acs[0] if acs else None, fn, "flushing accumulates tokens", nd)
            e = st.meta.get(("in", self.w.cache, QKEY))
            if gone:
                m.__init__()
                if isinstance(e, Term): good = False     # C31's business
            else:
                if send: m.acc = (); m.flight = True; m.refresh = t
                if not isinstance(e, Term): good = False
            return good
        # a request
        out = st.mem.get((aout(i), 0))
        c = ra.code(st, fn)
        good &= ok("C12" if not m.deny() else "C13", "requests are answered from the entry", c == 0, None, fn, "%s is answered with code %s" % ("the first request for a key" if not m.exists else "a request with a cached response", show(c)[:30]), nd)
        if not m.exists:
            good &= ok("C12", "the first request starts exactly one call", len(ds) == 1, ds[1] if len(ds) > 1 else None, fn, "the first request for a key starts %d calls" % len(ds), nd)
            for d in ds: good &= ok("C12", "the first call carries the request", d.argvals[0] is T("ld", areq(i)), d, fn, "the first call for a key sends %s" % show(d.argvals[0])[:80], nd)
            good &= ok("C12", "the provisional response allows", out is not None and size(get(out, "allocate_errors")) == 0, None, fn, "the first request is answered with %s" % show(out)[:80], nd)
            good &= ok("C14", "the first request is not accumulated", not acs, acs[0] if acs else None, fn, "the first request is sent and accumulated as well", nd)
            m.exists = True; m.flight = True; m.resp = None; m.acc = (); m.refresh = t; m.first = i
            return good
        due = not m.flight and t - m.refresh >= R_MS * 1000
        if m.flight: good &= ok("C12", "no second call while one is outstanding", not ds, ds[0] if ds else None, fn, "a call is started while another one for the key is outstanding", nd)
        elif not due: good &= ok("C12", "no call before the refresh is due", not ds, ds[0] if ds else None, fn, "a call is started although the last one was less than the refresh interval ago", nd)
        else:
            good &= ok("C12", "a due refresh starts exactly one call", len(ds) == 1, ds[1] if len(ds) > 1 else None, fn, "a request that finds the entry due for refresh starts %d calls" % len(ds), nd)
            for d in ds: good &= self.refresh_item(d.argvals[0], d, m, pre, fn, nd)
            m.acc = (); m.flight = True; m.refresh = t
        if m.deny():
            good &= ok("C13", "a denial is enforced", out is T("ld", adel(m.resp[1])), None, fn, "a request under a cached denial is answered with %s" % show(out)[:80], nd)
            good &= ok("C13", "nothing is accumulated under a denial", not acs, acs[0] if acs else None, fn, "tokens are accumulated although the cached response is a denial", nd)
        else:
            if m.resp is None: good &= ok("C12", "the provisional response allows", out is not None and size(get(out, "allocate_errors")) == 0, None, fn, "a request during the first call is answered with %s" % show(out)[:80], nd)
            else: good &= ok("C14", "requests are answered with the cached response", out is T("ld", adel(m.resp[1])), None, fn, "a request is answered with %s" % show(out)[:80], nd)
            mine = [a for a in acs if a.vals and a.vals[0] is get(T("ld", areq(i)), "allocate_operation")]
            good &= ok("C14", "every allowed request is accumulated once", len(mine) == 1 and len(acs) == 1, acs[0] if acs else None, fn, "an allowed request's tokens are accumulated %d times" % len(mine), nd)
            if len(mine) == 1:
                a = mine[0]
                prior = pre.get(a.this, ())
                want = tuple(get(T("ld", areq(j)), "allocate_operation") for j in m.acc)
                good &= ok("C14", "tokens are added to what is not yet sent", (a.op == "new" and not m.acc) or (a.op == "merge" and prior == want), a, fn, "a request's tokens are %s" % ("added to tokens that were already sent or discarded" if a.op == "merge" else "accumulated apart from those of earlier requests"), nd)
                e = st.meta.get(("in", self.w.cache, QKEY))
                good &= ok("C14", "the accumulator belongs to the entry", isinstance(e, Term) and ra.holds_obj(st, e, a.this), a, fn, "a request's tokens are accumulated outside the entry", nd)
            m.acc = m.acc + (i,)
        return good
    def refresh_item(self, item, d, m, taken, fn, nd):
        ok = self.ok
        op = get(item, "allocate_operation")
        acc = [x for x in subterms(op) if x.h == "accumulated"]
        if m.acc:
            want = tuple(get(T("ld", areq(j)), "allocate_operation") for j in m.acc)
            good = len(acc) == 1 and taken.get(acc[0].a[0]) == want and acc[0].a[1] == len(want)
            r = ok("C14", "a refresh sends all accumulated tokens", good and strip_mode(op) is acc[0], d, fn, "a refresh after %d accumulated requests sends %s" % (len(want), show(op)[:80]), nd)
            return r
        pid = "C13" if m.deny() else "C14"
        if acc:
            return ok(pid, "tokens are not sent again", False, d, fn, "a refresh sends tokens that were already sent" if not m.deny() else "a refresh under a denial sends tokens accumulated before the denial", nd)
        orig = T("ld", areq(m.first))
        r = ok("C14", "with nothing accumulated the original request is sent", same_but_mode(item, orig), d, fn, "a refresh with nothing accumulated sends %s" % show(item)[:100], nd)
        mode = get(op, "quota_mode"); omode = get(get(orig, "allocate_operation"), "quota_mode")
        if m.deny(): r &= ok("C13", "a denial is probed in NORMAL mode", mode == 1, d, fn, "a refresh under a denial asks in mode %s" % show(mode)[:60], nd)
        else: r &= ok("C14", "with nothing accumulated the original request is sent", mode is omode, d, fn, "a refresh changes the mode of the original request", nd)
        return r
def strip_mode(op):
    if is_t(op, "upd"):
        x = op.a[0]
        for k, val in op.a[1]:
            if k != "quota_mode": x = upd(x, k, val)
        return x
    return op
def same_but_mode(item, orig):
    if item is orig: return True
    if not is_t(item, "upd") or item.a[0] is not orig: return False
    d = dict(item.a[1])
    if set(d) - {"allocate_operation", "has:allocate_operation"}: return False
    return strip_mode(d.get("allocate_operation", get(orig, "allocate_operation"))) is get(orig, "allocate_operation")
BASE0 = 10 ** 12
def opt_(n): return ra.opt("Quota", n)
def lib_scale():
    import lib
    return lib._scale
_x = cache()
def env_(r, e): return {opt_("refresh_interval_ms"): r, opt_("expiration_interval_ms"): e, opt_("num_entries"): 100}
def ints(conds):
    out = set()
    for a in conds:
        for t in subterms(a):
            for x in t.a if isinstance(t, Term) else (t,):
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, int): out.add(abs(y))
    return out
def intervals(conds):
    """Interval options worth trying where conditions decide about them alone."""
    rs, es = {1000, 700, 3}, {600000, 1500}
    for c in ints(conds):
        for x in (c - 1, c, c + 1, 2 * c):
            if 0 < x < 1 << 31: rs.add(x); es.add(x)
    return [(1000, 600000)] + [(r, e) for r in sorted(rs) for e in sorted(es) if e > r and (r, e) != (1000, 600000)]
def explored():
    global R_MS, E_MS
    if "e" in _x: return _x["e"]
    ws = [w for w in connected("Quota", True) if w.cache is not None]
    if not ws: raise Missing("the quota aggregator with a cache")
    out = []
    for w in ws:
        w.st.meta["in", w.cache, QKEY] = 0
        conds = {a for a, b in w.when}; done = set()
        while len(done) < 5:
            # intervals under which the aggregator is made like this, and its conditions come out in a new way
            pick = None
            for r, e in intervals(conds):
                if holds(w.when, env_(r, e)) is False: continue
                k = []
                for a in sorted(conds, key=lambda a: a.id):
                    try: k.append(bool(evalt(a, env_(r, e))))
                    except (Unk, TypeError, OverflowError, ValueError): k.append(None)
                k = tuple(k)
                if not any(all(x.get(a) == y for a, y in zip(sorted(conds, key=lambda a: a.id), k)) for x in done_(done)): pick = r, e, k; break
            if pick is None: break
            R_MS, E_MS = pick[:2]
            x = Explorer(w); x.run(); out.append(x)
            new = conds | x.conds
            v = {}
            for a in new:
                try: v[a] = bool(evalt(a, env_(R_MS, E_MS)))
                except (Unk, TypeError, OverflowError, ValueError): v[a] = None
            done.add(tuple(v.items())); conds = new
    R_MS, E_MS = 1000, 600000
    _x["e"] = out
    return out
def done_(d): return [dict(x) for x in d]
def report(rep, pid):
    es = explored()
    if not any(p == pid for e in es for p, r in e.checks): raise Missing("histories for " + pid)
    for e in es: report1(rep, pid, e)
def report1(rep, pid, e):
    for v in e.vms: rep.use(v)
    for (p, rule), (n, bad) in e.checks.items():
        if p == pid:
            for _ in range(n - bad): rep.ob(rule, True)
    for p, rule, where, msg, chain, path in e.findings:
        if p == pid: rep.ob(rule, False, where, "Quota: " + msg, chain, path)
    for p, rule, msg in e.undecided: rep.ob(rule, None, "", msg)
    rep.note("%d protocol states, %d steps analysed" % (e.states, e.steps))
def C12(rep): report(rep, "C12")
def C13(rep): report(rep, "C13")
def C14(rep): report(rep, "C14")
