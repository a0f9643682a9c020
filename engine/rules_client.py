"""Rules about the client: C03-C06, C15, C16 (client part), C29, C30, C32, C33."""
from client import *
MODES = ("late", "inline")
WHEN = {"late": "completion after the call returned", "inline": "completion inside the transport call"}
DONEFN = T("ld", P(DONE, 24))
GONE = ("std::", "__", "exception", "unreachable", "abort")

def live(st): return st.status == "ret"
def sc_of(v, st, x): return models.scode(x)
def completions(en, st):
    """[(event, status value)]: the completions of the caller's request."""
    r = []
    for e in flat(st.events):
        if en.sync:
            if e.kind == "set_value": r.append((e, e.val))
        elif e.kind == "icall" and e.target is DONEFN: r.append((e, e.argvals[0] if e.argvals else None))
        elif e.kind == "done-delegated" and derives_from(e.words, DONE): r.append((e, T("ld", CSTATUS)))
    return r
def wh(en, e=None): return at_ev(e) if e is not None and e.loc[0] != "?" else loc(en.fn)
def each(rep):
    n = 0
    for mode in MODES:
        for en, v, res in runs(mode):
            rep.use(v)
            for st in res:
                if live(st): n += 1; yield mode, en, v, st
    if not n: raise Missing("no path through the client's calls")
def transport_slot(kind, en, v):
    """Where the transport function of a call is kept: (base, offset)."""
    if "transport" in en.roles: return TRANSPORT, 0
    return THIS, members()["transport", kind]
OPTS = T("arg", "options")
_m = cache()
def members():
    """Client members by meaning, from what the constructor puts into them."""
    if _m: return _m
    f, v, res = constructor()
    P_ = program()
    opts = {n: o for o, n, t, ow in P_.fields(N + "ServiceControlClientOptions")}
    for st in res:
        if not live(st): continue
        for (b, o), x in st.mem.items():
            if b is not THIS or not is_c(o): continue
            for k in KINDS:
                q = opts.get(k.lower() + "_transport")
                if q is None: raise Missing("ServiceControlClientOptions::%s_transport" % k.lower())
                if is_t(x, "ld") and x.a[0] is P(OPTS, q + 24): _m.setdefault(("transport", k), o - 24)
                if x is T("aggregator", k): _m.setdefault(("aggregator", k), o)
    for k in KINDS:
        if ("transport", k) not in _m: raise Missing("the client keeps no %s transport" % k)
        if ("aggregator", k) not in _m: raise Missing("the client keeps no %s aggregator" % k)
    return _m

def C03(rep):
    for mode, en, v, st in each(rep):
        cs = completions(en, st)
        ts = transports(st)
        rep.ob("one completion per request", len(cs) == 1, wh(en, cs[1][0] if len(cs) > 1 else ts[0] if ts else None),
               "%s: on this path (%s) the request completes %d times, not once" % (en, WHEN[mode], len(cs)), path=path_of(st))
        rep.ob("at most one transport call per request", len(ts) <= 1, wh(en, ts[-1] if ts else None), "%s: %d transport calls on one path" % (en, len(ts)), path=path_of(st))
        loops = [e for e in st.events if e.kind == "loop" and any(x.kind in ("icall", "set_value") and (x.kind == "set_value" or x.target is DONEFN or x.get("transport")) for it in e.loop.iters for x in flat(it["events"]))]
        rep.ob("no completion in a loop", not loops, wh(en), "%s: completes or sends inside a loop" % en)
        for t in ts:
            w = t.completion
            rep.ob("the transport gets a completion", is_t(w[3], "fn") or derives_from(w, DONE), wh(en, t), "%s: the transport is called without a completion handler" % en, chain_of(t), path_of(st))

def C04(rep):
    n = 0
    for mode, en, v, st in each(rep):
        if not en.sync: continue
        n += 1
        ret = v.load(st, T("arg", "<ret>")) if en.fn.sret else st.ret
        sets = [e for e in st.events if e.kind == "set_value"]
        gets = [e for e in st.events if e.kind in ("future-get", "wait")]
        rep.ob("the call waits for its completion", any(g.ready for g in gets), wh(en, gets[0] if gets else None),
               "%s: returns without its completion having happened" % en, path=path_of(st))
        # the completion's own status
        ts = transports(st)
        want = None
        if ts: want = T("ld", CSTATUS)
        else:
            ac = [e for e in aggcalls(st) if e.method == en.kind]
            if ac: want = ac[0].ret
        val = sets[0].val if sets else None
        rep.ob("the status returned is the status of the completion", len(sets) == 1 and ret is val, wh(en),
               "%s: returns %s although the request completed with %s" % (en, show(ret)[:80], show(val)[:80]), path=path_of(st))
        if want is not None:
            rep.ob("the status returned is the decided status", ret is want, wh(en), "%s: returns %s, not the decided status" % (en, show(ret)[:80]), path=path_of(st))
        for e in sets:
            inl = False
            i = st.events.index(e)
            late_ = sum(1 for x in st.events[:i] if x.kind == "begin-completion") > sum(1 for x in st.events[:i] if x.kind == "end-completion")
            if not late_: continue
            b = base_off(e.obj)[0]
            root = T("root", en.fn.name)
            # storage of frames that are still active when the waiter wakes up
            owner_gone = is_t(b, "alloca") and waits_in(b, en)
            heap_shared = not is_t(b, "alloca")
            rep.ob("the result carrier outlives the completing thread's use", not owner_gone, wh(en, e),
                   "%s: the completing thread sets a value through an object of the waiting thread's frame, which may be gone before it is done" % en, chain_of(e), path_of(st))
    if not n: raise Missing("synchronous calls")
def waits_in(b, en):
    """The object belongs to the waiting call (not to a frame of the completion)."""
    u = b.a[0] if b.a else None
    while is_t(u):
        if u is T("root", en.fn.name): return True
        if u.h == "site":
            # frames of the completion hang below the invoker
            f = program().fn(u.a[3])
            if f is not None and ("_Function_handler" in f.short or "operator()" in f.short): return False
            u = u.a[0]; continue
        return False
    return False

def C05(rep):
    for mode, en, v, st in each(rep):
        b, o = transport_slot(en.kind, en, v)
        none = v.decide(st, eq(T("ld", P(b, o + 16)), 0))
        cs = completions(en, st); ts = transports(st); ac = aggcalls(st)
        if none is True:
            rep.ob("no transport: INVALID_ARGUMENT", all(models.scode(x) == 3 for _, x in cs) and len(cs) == 1, wh(en, cs[0][0] if cs else None),
                   "%s: without a transport the request completes with %s" % (en, [show(x)[:80] for _, x in cs]), path=path_of(st))
            rep.ob("no transport: nothing else sees the request", not ts and not ac, wh(en, (ts + ac or [None])[0]), "%s: a request without a transport is passed on" % en, path=path_of(st))
            continue
        if none is None:
            rep.ob("the transport is checked first", not ts and not ac, wh(en, (ac + ts or [None])[0]),
                   "%s: the request is passed on before it is known that there is a transport" % en, path=path_of(st)); continue
        # the aggregator sees the request once, with the caller's request and response
        qs = [e for e in ac if e.method == en.kind and kind_of_agg(e.cls) == en.kind]
        rep.ob("the aggregator decides", len(qs) == 1 and qs[0].argvals[0] is T("ld", REQUEST), wh(en, qs[0] if qs else None), "%s: the aggregator is not asked exactly once about the caller's request" % en, path=path_of(st))
        if len(qs) != 1: continue
        q = qs[0]
        nf = v.decide(st, eq(models.scode(q.ret), 5))
        rep.ob("sent iff the aggregator answered NOT_FOUND", nf is not None and len(ts) == (1 if nf else 0), wh(en, ts[0] if ts else q),
               "%s: on a path where the aggregator's answer is %s NOT_FOUND the request is sent %d times" % (en, {True: "", False: "not", None: "possibly or possibly not"}[nf], len(ts)), path=path_of(st))
        for t in ts:
            rep.ob("the request sent is the caller's", t.args[1] is RESPONSE and t.argvals[0] is T("ld", REQUEST), wh(en, t), "%s: the transport is given %s" % (en, [show(x)[:60] for x in t.argvals[:2]]), path=path_of(st))
            src = t.target
            rep.ob("the transport called is the configured one", src is T("ld", P(b, o + 24)), wh(en, t), "%s: calls another transport function" % en, path=path_of(st))
        want = T("ld", CSTATUS) if ts else q.ret
        for e, x in cs:
            rep.ob("statuses are passed through", x is want or same_status(v, st, x, want), wh(en, e), "%s: completes with %s instead of %s" % (en, show(x)[:80], "the transport's status" if ts else "the aggregator's status"), path=path_of(st))
        if ts and len(cs) == 1:
            fin = v.load(st, RESPONSE)
            rep.ob("the server's response reaches the caller", fin is SENT, wh(en, ts[0]), "%s: the response the transport filled in is changed to %s" % (en, show(fin)[:80]), path=path_of(st))
    configured(rep)
def configured(rep):
    """The constructor keeps the transports it is given."""
    f, v, res = constructor(); rep.use(v)
    opts = {n: o for o, n, t, ow in program().fields(N + "ServiceControlClientOptions")}
    for st in res:
        if not live(st): continue
        for k in KINDS:
            o = members()["transport", k]; q = opts[k.lower() + "_transport"]
            if v.decide(st, eq(T("ld", P(OPTS, q + 16)), 0)) is True: continue
            x = st.mem.get((THIS, o + 24))
            rep.ob("the configured transports are kept", x is T("ld", P(OPTS, q + 24)), loc(f), "the constructor leaves the client's %s transport at %s" % (k, "nothing" if x is None or is_c(x) else show(x)[:60]), path=path_of(st))
def same_status(v, st, x, w):
    """OK carries no message, so any OK is as good as another."""
    return models.scode(x) == 0 and is_c(models.scode(x)) and v.decide(st, eq(models.scode(w), 0)) is True

def C06(rep):
    todo = [(en.kind, "%s" % en, wh(en), mode, v, st, None) for mode, en, v, st in each(rep)]
    for mode in MODES:
        for k, e, v, res in flush_runs(mode):
            rep.use(v)
            for st in res:
                if live(st): todo.append((k, "flush callback of the %s aggregator" % k, at_ev(e), mode, v, st, e))
    for k, name, where, mode, v, st, fl in todo:
        ts = transports(st)
        cr = aggcalls(st, "CacheResponse")
        ok = v.decide(st, eq(models.scode(T("ld", CSTATUS)), 0))
        w = at_ev(cr[0]) if cr else at_ev(ts[0]) if ts else where
        if not ts and k == "Quota" and fl is not None and no_transport(k, v, st):
            # the call that could not be sent is settled like a failed one
            rep.ob("a quota call is settled exactly once", len(cr) == 1, w, "%s: settles the entry %d times on a path where there is no transport" % (name, len(cr)), path=path_of(st))
            for e in cr: rep.ob("settled with the server's answer on success and an empty one on failure", e.argvals[0] is T("ld", REQUEST) and e.argvals[1] is empty(RSP["Quota"]) and kind_of_agg(e.cls) == k, at_ev(e), "%s: settles %s with %s when there is no transport" % (name, show(e.argvals[0])[:40], show(e.argvals[1])[:60]), path=path_of(st))
            continue
        if not ts:
            rep.ob("nothing is cached without a server call", not cr, w, "%s: stores a response although nothing was sent" % name, path=path_of(st)); continue
        t = ts[0]
        began = [i for i, e in enumerate(st.events) if e.kind == "begin-completion"]
        for e in cr:
            rep.ob("responses are stored by the completion", bool(began) and e in st.events[began[0]:], at_ev(e), "%s: stores a response before the server answered" % name, path=path_of(st))
            rep.ob("stored under the request it answers", e.argvals[0] is t.argvals[0] or e.argvals[0] is T("ld", REQUEST), at_ev(e), "%s: stores the response under %s" % (name, show(e.argvals[0])[:80]), path=path_of(st))
            rep.ob("stored in the cache of its kind", kind_of_agg(e.cls) == k, at_ev(e), "%s: stores into the %s cache" % (name, kind_of_agg(e.cls)), path=path_of(st))
        if k == "Report": rep.ob("reports store nothing", not cr, w, "%s: stores a response" % name); continue
        if k == "Check" and fl is not None:
            # a check that was flushed out is not cached any more
            rep.ob("flushed checks are not stored again unless they succeeded", not cr or ok is True, w, "%s: stores a response of a failed call" % name, path=path_of(st)); continue
        if k == "Check":
            if ok is None:
                rep.ob("check responses are stored exactly on success", False, w, "%s: %s without regard to whether the call succeeded" % (name, "stores the response" if cr else "does not store the response"), path=path_of(st)); continue
            rep.ob("check responses are stored exactly on success", len(cr) == (1 if ok else 0), w, "%s: stores the response %d times when the call %s" % (name, len(cr), "succeeded" if ok else "failed"), path=path_of(st))
            for e in cr: rep.ob("the response stored is the server's", e.argvals[1] is SENT, at_ev(e), "%s: stores %s" % (name, show(e.argvals[1])[:80]), path=path_of(st))
            continue
        rep.ob("a quota call is settled exactly once", len(cr) == 1, w, "%s: settles the entry %d times on a path where the call %s" % (name, len(cr), {True: "succeeded", False: "failed", None: "completed"}[ok]), path=path_of(st))
        for e in cr:
            x = e.argvals[1]
            rep.ob("settled with the server's answer on success and an empty one on failure",
                   (x is SENT and ok is True) or (x is empty(RSP["Quota"]) and ok is False), at_ev(e),
                   "%s: settles with %s when the call %s" % (name, "the server's response" if x is SENT else show(x)[:60], {True: "succeeded", False: "failed", None: "may have failed or succeeded"}[ok]), path=path_of(st))

def no_transport(k, v, st): return v.decide(st, eq(T("ld", P(THIS, members()["transport", k] + 16)), 0))

# ------------------------------------------------------------------ C46
def C46(rep):
    for mode in MODES:
        for k, e, v, res in flush_runs(mode):
            rep.use(v)
            o = members()["transport", k]; name = "the %s flush callback" % k
            for st in res:
                if not live(st): continue
                ts = transports(st); none = no_transport(k, v, st)
                w = at_ev(ts[0]) if ts else at_ev(e)
                loops = [x for x in st.events if x.kind == "loop" and any(y.kind == "icall" and y.get("transport") for it in x.loop.iters for y in flat(it["events"]))]
                rep.ob("flushed requests are sent once", not loops, w, "%s sends inside a loop" % name)
                if none is True: rep.ob("a missing transport is not called", not ts, w, "%s calls a transport that was not configured" % name, path=path_of(st)); continue
                if none is None and ts:
                    rep.ob("a missing transport is not called", False, w, "%s calls the configured transport without making sure that there is one" % name, chain_of(ts[0]), path_of(st)); continue
                rep.ob("flushed requests are sent once", len(ts) == 1, w, "%s sends %d times" % (name, len(ts)), path=path_of(st))
                for t in ts:
                    rep.ob("flushed requests are sent as they are", t.argvals[0] is T("ld", REQUEST), w, "%s sends %s" % (name, show(t.argvals[0])[:100]), chain_of(t), path_of(st))
                    rep.ob("sent through the transport of their kind", t.target is T("ld", P(THIS, o + 24)), w, "%s calls %s" % (name, show(t.target)[:80]), chain_of(t), path_of(st))
    configured(rep)
    # the client listens to its aggregators
    f, v, res = constructor(); rep.use(v)
    for st in res:
        if not live(st): continue
        for k in KINDS:
            regs = [e for e in flat(st.events) if e.kind == "vcall" and e.method == "SetFlushCallback" and kind_of_agg(e.cls) == k]
            last = regs[-1].vals[0] if regs else None
            rep.ob("the client takes what its aggregators flush", bool(regs) and last is not None and is_t(last[3], "fn"), at_ev(regs[-1]) if regs else loc(f),
                   "on this path the constructor leaves the %s aggregator without a flush callback" % k, path=path_of(st))

# ------------------------------------------------------------------ C15
FIELDS = {"Check": ("total_called_checks", "send_checks_by_flush", "send_checks_in_flight"),
          "Quota": ("total_called_quotas", "send_quotas_by_flush", "send_quotas_in_flight"),
          "Report": ("total_called_reports", "send_reports_by_flush", "send_reports_in_flight")}
OPS = "send_report_operations"
def counters(rep):
    """Statistics field -> cell of the client it is read from."""
    P_ = program()
    sf = {n: o for o, n, t, ow in P_.fields(N + "Statistics")}
    for k in KINDS:
        for n in FIELDS[k]:
            if n not in sf: raise Missing("Statistics::" + n)
    fs = P_.find(C + "::GetStatistics")
    if not fs: raise Missing("GetStatistics")
    v = new_vm(); st = State(); vptr(st, v)
    f = fs[0]
    args = ([T("arg", "<ret>")] if f.sret else []) + [THIS, T("arg", "stat")]
    res = v.run(v.entry(f, args, st)); rep.use(v)
    out = {}
    for st in res:
        if not live(st): continue
        for n, o in sf.items():
            x = v.load(st, P(T("arg", "stat"), o))
            b = base_off(x.a[0]) if is_t(x, "ld") else (None, None)
            ok = b[0] is THIS and is_c(b[1])
            rep.ob("each statistic is read from a counter of the client", ok, loc(f), "GetStatistics reports %s as %s" % (n, show(x)[:80]))
            if ok: out[n] = b[1]
        rep.ob("reading the statistics changes nothing", not any(c[0] is THIS for c in st.mem if c[1] != 0), loc(f), "GetStatistics writes to the client")
    rep.ob("each statistic has its own counter", len(set(out.values())) == len(out), loc(f), "two statistics are read from one counter")
    return out
def C15(rep):
    cn = counters(rep)
    if len(cn) < 10: return
    def check(name, where, v, st, want):
        for n, o in cn.items():
            cur = st.mem.get((THIS, o))
            d = 0 if cur is None else sub(cur, T("ld", P(THIS, o)))
            w = want.get(n, 0)
            ok = d is w or (is_c(d) and is_c(w) and d == w)
            ev = [e for e in flat(st.events) if e.kind == "rmw" and e.ptr is P(THIS, o)]
            rep.ob("counter moves by what happened", ok, at_ev(ev[-1]) if ev else where, "%s: %s changes by %s, expected %s" % (name, n, show(d)[:80], show(w)[:60]), path=path_of(st))
    def nonatomic(v):
        offs = set(cn.values())
        def h(vm, st, kind, p, val, i):
            if kind == "store":
                b, o = base_off(p)
                if b is THIS and o in offs and not st.held: vm.event(st, "plain-store", off=o)
        v.hooks.append(h)
    opsz = models.size(get(T("ld", REQUEST), "operations"))
    # rerun with the hook
    for mode in MODES:
        for en in entries():
            def go(u, en=en):
                v = mk_vm(mode, None, u); nonatomic(v)
                st = State(); vptr(st, v); v.entry(en.fn, list(en.args), st)
                return v, complete(v, v.run(st))
            v, res = tries(go)
            for s in res:
                if not live(s): continue
                want = {FIELDS[en.kind][0]: 1}
                if transports(s):
                    want[FIELDS[en.kind][2]] = 1
                    if en.kind == "Report": want[OPS] = opsz
                check("%s (%s)" % (en, WHEN[mode]), loc(en.fn), v, s, want)
                for e in flat(s.events):
                    if e.kind == "plain-store": rep.ob("counters are updated atomically", False, at_ev(e), "%s: a counter is updated by a plain store; concurrent calls lose counts" % en, chain_of(e))
                rep.ob("counters are updated atomically", True)
            rep.use(v)
        for k, e, v, res in flush_runs(mode):
            rep.use(v)
            for s in res:
                if not live(s): continue
                want = {}
                if transports(s):
                    want[FIELDS[k][1]] = 1
                    if k == "Report": want[OPS] = opsz
                check("flush callback of the %s aggregator (%s)" % (k, WHEN[mode]), at_ev(e), v, s, want)
    # counters start at zero
    f, v, res = constructor(); rep.use(v)
    for st in res:
        if not live(st): continue
        for n, o in cn.items():
            x = st.mem.get((THIS, o))
            rep.ob("counters start at zero", x == 0 and is_c(x) if x is not None else False, loc(f), "the constructor leaves %s at %s" % (n, show(x) if x is not None else "whatever was in memory"))
            
def C16client(rep):
    f, v, res = constructor(); rep.use(v)
    for st in res:
        if not live(st): continue
        cr = {}
        for e in st.events:
            if e.kind == "create": cr.setdefault(e.what, []).append(e)
        for k in KINDS:
            rep.ob("one aggregator of each kind", len(cr.get(k, [])) == 1, loc(f), "the constructor creates %d %s aggregators" % (len(cr.get(k, [])), k))
            for e in cr.get(k, []):
                for i, nm in ((0, "service_name"), (1, "service_config_id")):
                    rep.ob("the client's identity reaches each aggregator", e.argvals[i] is T("ld", T("arg", nm)), at_ev(e),
                           "the %s aggregator is created with %s as its %s" % (k, show(e.argvals[i])[:60], nm), chain_of(e))

def C34client(rep):
    """Each aggregator gets the options of its kind."""
    f, v, res = constructor(); rep.use(v)
    opts = {n: o for o, n, t, ow in program().fields(N + "ServiceControlClientOptions")}
    import agg
    for st in res:
        if not live(st): continue
        for e in st.events:
            if e.kind != "create": continue
            k = e.what; p = e.args[2]; src = opts.get(k.lower() + "_options")
            if src is None: raise Missing("ServiceControlClientOptions::%s_options" % k.lower())
            fs = [(o, n) for o, n, t, ow in program().fields(agg.AGG_OPTS[k])]
            if p is P(OPTS, src): rep.ob("each aggregator gets the options of its kind", True); continue
            snap = e.get("opts") or {}
            bad = [n for o, n in fs if snap.get(o) is not T("ld", P(OPTS, src + o))]
            rep.ob("each aggregator gets the options of its kind", not bad if snap else None, at_ev(e), "the %s aggregator is created with other options (%s)" % (k, ", ".join(bad)), chain_of(e))

def C29(rep):
    todo = []
    for en, v, res in runs("late"):
        rep.use(v)
        if en.sync: continue
        for st in res: todo.append(("%s" % en, loc(en.fn), v, st))
    for k, e, v, res in flush_runs("late"):
        rep.use(v)
        for st in res: todo.append(("flush callback of the %s aggregator" % k, at_ev(e), v, st))
    n = 0
    for name, where, v, st in todo:
        n += late_rules(rep, name, where, st, "completion handler")
    if not n: raise Missing("no completion handler is handed to a transport")
    m = 0
    for name, where, st in timer_runs(rep):
        m += late_rules(rep, name, where, st, "timer handler")
    if not m: raise Missing("no timer handler")
def late_rules(rep, name, where, st, what):
    evs = st.events
    b = [i for i, e in enumerate(evs) if e.kind == "begin-completion"]
    if not b: return 0
    for i in b:
        begin = evs[i]; body = []
        for e in evs[i + 1:]:
            if e.kind == "end-completion": break
            body.append(e)
        body = flat(body)
        bad = [e for e in body if e.kind == "late-this"]
        rep.ob("the handler does not touch the client object", not bad, at_ev(bad[0]) if bad else where, "%s: the %s %s the client object (offset %s), which may be destroyed by then" % (name, what, "writes" if bad and bad[0].rw == "w" else "reads", bad[0].off if bad else ""), chain_of(bad[0]) if bad else (), path_of(st))
        bad = [e for e in body if e.kind in ("late-stack", "late-arg")]
        rep.ob("the handler does not touch dead stack objects", not bad, at_ev(bad[0]) if bad else where, "%s: the %s uses an object of a call that has returned" % (name, what), chain_of(bad[0]) if bad else (), path_of(st))
        ctl = set(x.a[0] for x in begin.ctl) if begin.get("ctl") else set()
        for e in body:
            if e.kind != "vcall" or kind_of_agg(e.cls) is None: continue
            rep.ob("the handler shares ownership of the aggregators it uses", e.this in ctl, at_ev(e), "%s: the %s calls %s on an aggregator it does not own" % (name, what, e.method), chain_of(e), path_of(st))
    return 1
def timer_calls():
    f, v, res = constructor()
    out = []
    for st in res:
        for e in st.events:
            if e.kind == "icall" and "PeriodicTimer" in e.sig: out.append((st, e))
    return f, v, res, out
def timer_runs(rep):
    f, v0, res, calls = timer_calls()
    rep.use(v0)
    seen = set(); out = []
    for st0, e in calls:
        words = e.vals[1]
        if words is None or not is_t(words[3], "fn") or words[3] in seen: continue
        seen.add(words[3])
        v = mk_vm("late"); v.acc = watcher()
        s0 = st0.clone(); s0.events = []; s0.path = []; s0.facts = {}; s0.bounds = {}
        # only what the handler owns survives
        keep = reach(st0, words)
        s0.mem = dict(keep); s0.alive = set(c[0] for c in keep)
        r = late(v, s0, words, [])
        rep.use(v)
        for s in r or []: out.append(("timer handler", at_ev(e), s))
    return out

def C30(rep):
    n = 0
    todo = []
    for mode in MODES:
        for en, v, res in runs(mode):
            rep.use(v)
            for st in res: todo.append(("%s" % en, loc(en.fn), mode, v, st, en.sync))
        for k, e, v, res in flush_runs(mode):
            rep.use(v)
            for st in res: todo.append(("flush callback of the %s aggregator" % k, at_ev(e), mode, v, st, False))
    for name, where, mode, v, st, sync in todo:
        if not live(st): continue
        evs = flat(st.events)
        for e in evs:
            if e.kind == "free":
                rep.ob("freed once", not e.again, at_ev(e), "%s: %s is freed twice" % (name, show(e.ptr)), chain_of(e), path_of(st))
            if e.kind == "use-after-free":
                rep.ob("not used after being freed", False, at_ev(e), "%s: memory is %s after it was freed (%s)" % (name, "written" if e.rw == "w" else "read", WHEN[mode]), chain_of(e), path_of(st))
        for t in transports(st):
            n += 1
            i = evs.index(t)
            began = next((j for j, e in enumerate(evs) if e.kind in ("begin-completion", "done-delegated") and j > i), None)
            begin = evs[began] if began is not None else None
            ended = next((j for j, e in enumerate(evs) if e.kind == "end-completion" and began is not None and j > began), len(evs))
            owned = set()
            if begin is not None and begin.get("words"): owned = set(base_off(x.a[0])[0] for x in begin.get("ctl") or ())
            for j, p in enumerate(t.args[:2]):
                b = base_off(p)[0]
                what = "request" if j == 0 else "response"
                if is_t(b, "alloca"):
                    if mode == "inline": continue      # judged by the late runs
                    rep.ob("what is lent to the transport outlives the call", begin is not None and b in (begin.get("alive") or ()), at_ev(t), "%s: the %s lent to the transport is a stack object of a call that returns before completion" % (name, what), chain_of(t), path_of(st)); continue
                if b is REQUEST or b is RESPONSE: rep.ob("what is lent to the transport outlives the call", True); continue
                if not is_t(b, "new"): continue
                fr = [x for x in range(len(evs)) if evs[x].kind == "free" and evs[x].ptr is b]
                if b in owned and not fr: rep.ob("lent objects are freed exactly once", True); continue
                rep.ob("lent objects are freed exactly once", len(fr) == 1, at_ev(evs[fr[1]] if len(fr) > 1 else t), "%s: the %s allocated for the transport is freed %d times on this path" % (name, what, len(fr)), chain_of(t), path_of(st))
                rep.ob("lent objects live until completion", all(began is not None and x > began for x in fr), at_ev(evs[fr[0]]) if fr else at_ev(t), "%s: the %s is freed before the transport reports completion" % (name, what), chain_of(t), path_of(st))
            if not sync and mode == "late" and began is not None:
                for e in evs[began:ended]:
                    if e.kind == "late-request": rep.ob("the handler uses the client's own copy of the request", False, at_ev(e), "%s: the completion handler reads the caller's request, which need not exist any more" % name, chain_of(e), path_of(st))
                    if e.kind == "vcall" and e.method == "CacheResponse":
                        b = base_off(e.args[0])[0]
                        rep.ob("the handler uses the client's own copy of the request", is_t(b, "new"), at_ev(e), "%s: a response is stored using a request that is not the client's own copy" % name, chain_of(e), path_of(st))
                        b2 = base_off(e.args[1])[0]
    if not n: raise Missing("no transport calls")

def C45(rep):
    n = 0
    for mode in MODES:
        for en, v, res in runs(mode):
            rep.use(v)
            if en.sync: continue
            for st in res:
                if not live(st): continue
                evs = flat(st.events)
                cs = [evs.index(e) for e, _ in completions(en, st)]
                if not cs: continue
                n += 1; i = min(cs)
                bad = [e for e in evs[i:] if e.kind == "over-touch"]
                bad += [e for e in evs[i + 1:] if e.kind == "vcall" and any(is_t(a) and base_off(a)[0] in (REQUEST, RESPONSE) for a in e.args)]
                ls = [t for t in evs[i + 1:] if t.kind == "icall" and t.get("transport") and any(is_t(a) and base_off(a)[0] in (REQUEST, RESPONSE) for a in t.args)]
                e = (bad + ls)[0] if bad or ls else None
                what = "" if e is None else "%s the caller's %s" % ({"over-touch": "%s" % ("writes" if e.get("rw") == "w" else "reads"), "vcall": "passes on", "icall": "passes on"}[e.kind], "request" if (e.get("ptr") is REQUEST or e.kind != "over-touch" and any(is_t(a) and base_off(a)[0] is REQUEST for a in e.args)) else "response")
                rep.ob("the caller's objects are left alone once its callback may have run", e is None, at_ev(e) if e is not None and e.loc[0] != "?" else wh(en), "%s: %s after the completion callback may have run (%s)" % (en, what, WHEN[mode]), chain_of(e) if e is not None else (), path_of(st))
    if not n: raise Missing("no asynchronous call completes")

def C32client(rep):
    f = destructor()
    v = mk_vm("late"); st = State(); vptr(st, v)
    res = v.run(v.entry(f, [THIS] + [T("arg", "x%d" % i) for i in range(len(f.at) - 1)], st)); rep.use(v)
    n = 0
    for s in res:
        if not live(s): continue
        n += 1
        evs = flat(s.events)
        vc = [e for e in evs if e.kind == "vcall"]
        for k in KINDS:
            fl = [i for i, e in enumerate(vc) if kind_of_agg(e.cls) == k and e.method == "FlushAll"]
            fl1 = [i for i, e in enumerate(vc) if kind_of_agg(e.cls) == k and e.method == "Flush"]
            de = [i for i, e in enumerate(vc) if kind_of_agg(e.cls) == k and e.method == "SetFlushCallback"]
            rep.ob("everything is flushed once", len(fl) == 1, at_ev(vc[fl[1]]) if len(fl) > 1 else loc(f), "the destructor asks the %s aggregator %d times to flush everything" % (k, len(fl)), path=path_of(s))
            rep.ob("the callback is detached", len(de) >= 1 and cb_empty(vc[de[-1]]), at_ev(vc[de[-1]]) if de else loc(f), "the destructor leaves the %s aggregator's flush callback attached" % k, path=path_of(s))
            if fl and de: rep.ob("flushed before being detached", max(fl + fl1) < min(de), at_ev(vc[min(de)]), "the %s aggregator is flushed after its callback was detached" % k, path=path_of(s))
        stop = [e for e in vc if kind_of_agg(e.cls) is None and e.cls.endswith("PeriodicTimer") and e.method not in ("slot0", "slot1") and not e.method.startswith("~")]
        tm = timer_member()
        has = v.decide(s, eq(T("ld", P(THIS, tm)), 0))
        if has is None: rep.ob("the timer is stopped exactly once", not stop, at_ev(stop[0]) if stop else loc(f), "the destructor stops a timer without checking that there is one", path=path_of(s)); 
        if has is None and not stop: rep.ob("the timer is stopped exactly once", False, loc(f), "the destructor does not stop the timer", path=path_of(s))
        if has is False: rep.ob("the timer is stopped exactly once", len(stop) == 1, at_ev(stop[0]) if stop else loc(f), "the destructor stops the timer %d times" % len(stop), path=path_of(s))
        if has is True: rep.ob("no timer, nothing to stop", not stop, loc(f), "the destructor stops a timer that does not exist", path=path_of(s))
    if not n: raise Missing("no path through the destructor")
def cb_empty(e):
    w = e.vals[0]
    return w is not None and w[2] == 0 and is_c(w[2])
def timer_member():
    """The member that keeps the timer the factory returned."""
    f, v, res, calls = timer_calls()
    for st, e in calls:
        if not live(st): continue
        for (b, o), x in st.mem.items():
            if b is THIS and is_c(o) and is_t(x) and o and any(t is e.get("ret") for t in ()): return o
    for st, e in calls:
        if not live(st): continue
        for (b, o), x in sorted(((c, x) for c, x in st.mem.items() if c[0] is THIS and is_c(c[1])), key=lambda q: q[0][1]):
            if is_t(x) and any(t.h == "ret" and t.a and t.a[0] == "function" for t in subterms(x)): return o
    raise Missing("the client keeps no timer")

def C33client(rep):
    f, v, res, calls = timer_calls(); rep.use(v)
    P_ = program()
    opts = {n: o for o, n, t, ow in P_.fields(N + "ServiceControlClientOptions")}
    if "periodic_timer" not in opts: raise Missing("ServiceControlClientOptions::periodic_timer")
    fac = P(OPTS, opts["periodic_timer"])
    n = 0
    rows = []
    for st in res:
        if not live(st): continue
        n += 1
        ts = [e for e in st.events if e.kind == "icall" and "PeriodicTimer" in e.sig]
        none = v.decide(st, eq(T("ld", P(fac, 16)), 0))
        w = at_ev(ts[0]) if ts else loc(f)
        rep.ob("at most one timer", len(ts) <= 1, w, "%d timers are created" % len(ts), path=path_of(st))
        if none is not False:
            rep.ob("no factory, no timer", not ts, w, "a timer is created without a timer factory", path=path_of(st))
        iv = {}
        for e in st.events:
            if e.kind == "vcall" and e.method == "GetNextFlushInterval": iv[kind_of_agg(e.cls)] = e.ret
        rows.append((st, none, ts, iv))
    # interval: all sign and order patterns of the three intervals
    vals = (-5, -1, 1, 3, 7, 15, 1003, 123457)
    import itertools
    for trip in itertools.product(vals, repeat=3):
        pos = [x for x in trip if x > 0]
        hit = 0
        for st, none, ts, iv in rows:
            if none is True or len(iv) < 3: continue
            env = {iv[k]: x for k, x in zip(KINDS, trip)}
            fa = [(a, b) for a, b in st.path if leaves([a]) <= set(iv.values())]
            if holds(fa, env) is not True: continue
            if none is None and not ts: continue
            hit += 1
            if pos:
                rep.ob("a timer at the tightest interval", len(ts) == 1, loc(f), "no timer is created for the intervals check=%d quota=%d report=%d" % trip, path=path_of(st))
                if ts:
                    try: g = evalt(ts[0].args[0], env)
                    except Unk: g = None
                    rep.ob("a timer at the tightest interval", None if g is None else g == min(pos), at_ev(ts[0]), "for the intervals check=%d quota=%d report=%d the timer is created with %s" % (trip + (g,)), path=path_of(st))
        if not hit: rep.ob("a timer at the tightest interval", None if not pos else False, loc(f), "no path creates a timer for the intervals check=%d quota=%d report=%d" % trip)
    # the three aggregators' intervals are consulted
    for st, none, ts, iv in rows:
        if ts: rep.ob("all three intervals are consulted", len(iv) == 3, at_ev(ts[0]), "a timer is created from the intervals of %s only" % sorted(x or "?" for x in iv), path=path_of(st))
    # each tick flushes all three
    m = 0
    for name, where, st in timer_runs(rep):
        if not live(st): continue
        m += 1
        for k in KINDS:
            fl = [e for e in aggcalls(st, kind=k) if e.method == "Flush"]
            rep.ob("each tick flushes all three aggregators once", len(fl) == 1, at_ev(fl[0]) if fl else where, "on some path a tick flushes the %s aggregator %d times" % (k, len(fl)), path=path_of(st))
    if not m: raise Missing("no timer handler")
    # the timer is kept
    timer_member()
