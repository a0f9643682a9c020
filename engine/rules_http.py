"""C40 and C44: the sample HTTP transport. Every path of its two calls, with the
thread they start run to its end either at once or after the call returned, and
with the transfer library as the environment: the outcome of a transfer, the
response code and the parts of the body are symbolic."""
from lib import *
from pure import *
import models
from models import cstr_value, mkbytes, scat
import prog as progmod

TP = N + "sample::transport::LibCurlTransport"
OPT = dict(url=10002, headers=10023, header=42, custom=10036, post=47, fields=10015, copyfields=10165, size=60, sizelarge=30120, wfun=20011, wdata=10001, fail=45, nobody=44, httpget=80, upload=46)
CODE_INFO = 0x200002
THIS, REQ, RESP, DONE = T("arg", "this"), T("arg", "request"), T("arg", "response"), T("arg", "on_done")
RES, CODE = T("leaf", "res"), T("leaf", "code")
PARTS = [(T("arg", "part%d" % i), T("leaf", "len%d" % i)) for i in range(2)]
TABLE = {400: 3, 401: 16, 403: 7, 404: 5, 409: 10, 416: 11, 429: 8, 499: 1, 501: 12, 503: 14, 504: 4}
def of_code(c): return TABLE.get(c, 0 if 200 <= c < 300 else 9 if 400 <= c < 500 else 13 if 500 <= c < 600 else 2)

# ------------------------------------------------------------------ the transfer library
def opt(c):
    st = c.st; h, o = c.args[0], c.args[1]; x = c.args[2] if len(c.args) > 2 else 0
    if o == OPT["copyfields"]:      # copied here and now, as long as its size says
        n = st.meta.get(("opt", OPT["sizelarge"])) or st.meta.get(("opt", OPT["size"]))
        x = T("copied", mkbytes(c, x, n) if n is not None and n != -1 else cstr_value(c, x))
    if o in (OPT["size"], OPT["sizelarge"]): st.meta[("opt", OPT["size"])] = st.meta[("opt", OPT["sizelarge"])] = x
    st.meta[("opt", o)] = x
    return 0
def perform(c):
    st, vm = c.st, c.vm
    g = lambda n: st.meta.get(("opt", OPT[n]))
    body = g("copyfields"); p = g("fields")
    if is_t(body, "copied"): body = body.a[0]
    elif p is not None:
        n = g("sizelarge")
        body = cstr_value(c, p) if n is None or n == -1 else mkbytes(c, p, n)
    vm.event(st, "perform", url=cstr_value(c, g("url")) if g("url") is not None else None, body=body, headers=g("headers"), fail=g("fail") or 0, header=g("header") or 0,
             post=bool(g("post")) or p is not None or is_t(g("copyfields")), custom=cstr_value(c, g("custom")) if is_t(g("custom")) else None, notpost=g("httpget") or g("nobody") or g("upload"))
    f = g("wfun")
    fn = vm.prog.fn(f.a[0]) if is_t(f, "fn") else None
    if f is None or is_c(f) and f == 0: return RES          # written to the standard output
    if fn is None or fn.decl: vm.event(st, "body-elsewhere"); return RES
    def call(i):
        src, n = PARTS[i]
        def after(vm, st, v, fr):
            vm.event(st, "part", ret=v, n=n)
            return call(i + 1) if i + 1 < len(PARTS) else RES
        return Inline(fn, [src, 1, n, g("wdata") if g("wdata") is not None else 0], after)
    return call(0)
def getinfo(c):
    if c.args[1] == CODE_INFO: c.vm.store(c.st, c.args[2], CODE)
    return 0
def slist(c): return T("slist", c.args[0], cstr_value(c, c.args[1]))
def boundary(mode):
    def thread(c):                  # std::thread's constructor is followed as it is, up to here
        vm, st = c.vm, c.st
        o = vm.load(st, c.args[1])                 # the state: what to run, with its own copies
        vp = vm.load(st, o) if is_t(o) else None
        run = vm.load(st, P(vp, 16)) if is_t(vp) else None      # after the two destructors
        fn = vm.prog.fn(run.a[0]) if is_t(run, "fn") else None
        if fn is None or fn.decl or not fn.short.endswith("::_M_run"): vm.event(st, "unknown-thread"); return None
        vm.store(st, c.args[1], 0)
        st.meta["joinable"] = st.meta.get("joinable", ()) + (c.args[0],)
        if mode == "at once": return Inline(fn, [o])
        st.meta["threads"] = st.meta.get("threads", ()) + ((fn, o, c.args[0]),)
        return None
    def leave(c): c.st.meta["joinable"] = tuple(x for x in c.st.meta.get("joinable", ()) if x is not c.args[0])
    def detach(c): leave(c)
    def join(c):
        leave(c)
        t = next((t for t in c.st.meta.get("threads", ()) if t[2] is c.args[0]), None)
        if t is None: return None
        c.st.meta["threads"] = tuple(x for x in c.st.meta["threads"] if x is not t)
        return Inline(t[0], [t[1]])
    def gone(c):
        if c.args[0] in c.st.meta.get("joinable", ()): c.vm.event(c.st, "terminates")
    def moved(c):
        a, b = c.args[0], c.args[1]
        js = c.st.meta.get("joinable", ())
        if a in js: c.vm.event(c.st, "terminates")
        c.st.meta["joinable"] = tuple(a if x is b else x for x in js if x is not a)
        c.st.meta["threads"] = tuple((t[0], t[1], a) if t[2] is b else t for t in c.st.meta.get("threads", ()))
        return a
    def made(c): return moved(c) if len(c.args) == 2 and models.params(c.dem) in (["std::thread&&"],) else NotImplemented
    return {"curl_easy_init": lambda c: T("arg", "curl"), "curl_easy_setopt": opt, "curl_easy_perform": perform, "curl_easy_getinfo": getinfo, "curl_slist_append": slist,
            "curl_slist_free_all": lambda c: None, "curl_easy_cleanup": lambda c: None, "curl_easy_reset": lambda c: [c.st.meta.pop(k) for k in list(c.st.meta) if isinstance(k, tuple) and k[0] == "opt"] and None,
            "curl_global_init": lambda c: 0, "curl_global_cleanup": lambda c: None, "*thread": made, "std::thread::detach": detach, "std::thread::join": join, "std::thread::joinable": lambda c: int(c.args[0] in c.st.meta.get("joinable", ())), "std::thread::~thread": gone, "std::thread::operator=": moved, "std::thread::_M_start_thread": thread}

_m = cache()
def runs():
    if _m: return _m["r"]
    P_ = program(); out = []
    mk = [f for f in P_.fns.values() if f.short == "verif_types::transport"]
    for kind in ("Check", "Report"):
        fs = [f for f in P_.find(TP + "::" + kind) if not f.decl]
        if not fs or not mk: raise Missing(TP + "::" + kind)
        f = fs[0]
        for mode in ("at once", "later"):
            v = new_vm(boundary(mode)); v.rec_limit = 3; v.unroll = 64
            late = [False]
            def acc(vm, st, rw, b, o):
                if not is_t(b): return
                if b in st.freed: vm.event(st, "dead", base=b, what="memory that was freed")
                elif late[0] and (b is REQ or b is DONE): vm.event(st, "dead", base=b, what="the caller's " + ("request" if b is REQ else "completion object"))
                elif late[0] and b.h == "alloca" and b not in st.alive and b not in st.meta.get("own", ()) : vm.event(st, "dead", base=b, what="a local variable of the returned call")
            s0 = v.analyse(mk[0])
            if len(s0) != 1 or s0[0].status != "ret": raise Missing("construction of the sample transport")
            st = s0[0]; this = st.ret
            st.status = "run"; st.pending = None; st.events = []; st.path = []
            st.mem[(DONE, 16)] = T("fn", "<manager>")          # the caller gives a completion
            v.acc = acc
            v.push(st, f, [this, REQ, RESP, DONE], None, T("root", f.name))
            res = v.run(st)
            if mode == "later":
                late[0] = True; todo = res; res = []
                while todo:
                    s = todo.pop(); ths = s.meta.get("threads", ())
                    if s.status != "ret" or not ths: res.append(s); continue
                    s.meta["threads"] = ths[1:]; s.status = "run"; s.pending = None; s.ret = None
                    v.event_nf(s, "thread-starts")
                    v.push(s, ths[0][0], [ths[0][1]], None, T("root", ths[0][0].name, len(ths)))
                    todo += v.run(s)
            v.acc = None
            out.append((kind, mode, f, v, res))
    _m["r"] = out
    return out
def done_calls(st): return [e for e in st.events if e.kind == "icall" and e.target is T("ld", P(DONE, 24))]
def known(st): return not any(e.kind in ("unknown-thread", "body-elsewhere") for e in st.events) and any(e.kind == "perform" for e in st.events)
WHEN = {"at once": "thread run at once", "later": "thread run after the call returned"}

def points(fail, codes):
    for c in codes:
        if fail:
            if 200 <= c < 400: yield 0, c
            if c >= 400: yield 22, c
        elif c >= 200: yield 0, c
        if 0 <= c <= 599:
            for r in (7, 18, 28, 56): yield r, c
def values(st, res, code, l0, l1, parsed, lv):
    env = {RES: res, CODE: code, PARTS[0][1]: l0, PARTS[1][1]: l1}
    for t in lv: env.setdefault(t, int(parsed) if t.h == "parsed" else 4096)
    return env
def C40(rep):
    n = 0
    for kind, mode, f, v, res in runs():
        rep.use(v)
        who = "%s (%s)" % (kind, WHEN[mode])
        codes = set(range(0, 700)) if mode == "later" else set(TABLE)
        codes |= {d for c in consts([a for st in res for a, _ in st.path]) if isinstance(c, int) and abs(c) < 1 << 20 for d in (c - 1, c, c + 1)} | {0, 100, 199, 200, 204, 299, 300, 302, 399, 450, 599, 600, 999}
        lv = leaves([a for st in res for a, _ in st.path])
        lf = [RES, CODE, PARTS[0][1], PARTS[1][1]] + sorted((t for t in lv if t not in (RES, CODE, PARTS[0][1], PARTS[1][1])), key=lambda t: t.id)
        code_ = Code(lf)
        for st in res:
            if st.status != "ret":
                if st.status != "abort": rep.ob("completes", None, loc(f), "%s: cannot be followed (%s)" % (who, st.why))
                continue
            if not known(st): rep.ob("completes once", None, loc(f), "%s: the transfer cannot be followed" % who); continue
            n += 1
            dc = done_calls(st)
            rep.ob("completes once", len(dc) == 1, at_ev(dc[1]) if len(dc) > 1 else loc(f), "%s: a request completes %d times on this path" % (who, len(dc)), path=path_of(st))
            x = next((e for e in st.events if e.kind == "terminates"), None)
            rep.ob("the process lives on", x is None, at_ev(x) if x else "", "%s: a thread that is neither detached nor joined is destroyed, which ends the process" % who, chain_of(x) if x else [], path_of(st))
            d = next((e for e in st.events if e.kind == "dead" and e.base is DONE), None)
            rep.ob("the completion is the thread's own", d is None, at_ev(d) if d else "", "%s: the thread uses %s" % (who, d.what if d else ""), chain_of(d) if d else [])
        tree = Tree([st for st in res if st.status == "abort" or st.status == "ret" and known(st) and len(done_calls(st)) == 1], code_)
        val = {}
        pre = next((e for st in res for e in st.events if e.kind == "perform"), None)
        if pre is None: continue
        fails = {bool(e.fail) for st in res for e in st.events if e.kind == "perform"}
        for fail in sorted(fails):
            for r, c in points(fail, sorted(codes)):
                for parsed in (0, 1):
                    for l0, l1 in ((3, 4), (0, 0)):
                        L = [r, c, l0, l1] + [int(parsed) if t.h == "parsed" else 4096 for t in lf[4:]]
                        st = tree.find(L)
                        what = "a transfer that %s with code %d and a body that %s" % ("succeeds" if r == 0 else "fails", c, "parses" if parsed else "does not parse")
                        if st is None: rep.ob("status", None, loc(f), "%s: undecided for %s" % (who, what)); continue
                        if st.status == "abort":
                            rep.ob("completes", False, loc(f), "%s: %s does not complete (%s)" % (who, what, st.why), path=path_of(st)); continue
                        p = next(e for e in st.events if e.kind == "perform")
                        if bool(p.fail) != fail: continue
                        dc = done_calls(st)[0]; s = dc.argvals[0] if dc.argvals else None
                        got = None
                        if is_t(s, "stv"):
                            try: got = s.a[0] if is_c(s.a[0]) else code_.fn(s.a[0])(L)
                            except (Unk, TypeError, ValueError): pass
                        if got is None: rep.ob("status", None, at_ev(dc), "%s: the status for %s is unknown" % (who, what)); continue
                        bad = r != 0 or not 200 <= c < 300
                        exact = of_code(c) if r in (0, 22) and bad else None
                        ok = got == exact if exact is not None else got != 0 if bad or not parsed else got == 0
                        rep.ob("status", ok, at_ev(dc), "%s: %s completes with status %s%s" % (who, what, got, "" if ok else ", not %s" % (exact if exact is not None else "a failure" if bad or not parsed else "OK")), chain_of(dc) if not ok else [])
                        ps = [e for e in st.events if e.kind == "parse"]
                        if bad: rep.ob("a failed transfer is not parsed", not ps, at_ev(ps[0]) if ps else "", "%s: the response is parsed after %s" % (who, what), chain_of(ps[0]) if ps else [])
    if not n: raise Missing("a transfer of the sample transport that can be followed")
def strings(x):
    r = []
    while is_t(x, "slist"): r.append(x.a[1]); x = x.a[0]
    return r
def C44(rep):
    n = 0
    url, service, token = (T("ld", T("arg", a)) for a in ("url", "service", "token"))
    cut = lambda s: s if is_t(s, "str") else T("cut0", s)
    for kind, mode, f, v, res in runs():
        rep.use(v)
        who = "%s (%s)" % (kind, WHEN[mode])
        want_url = scat(url, T("str", "/v1/services/"), service, T("str", ":" + kind.lower()))
        want_body = T("wire", T("ld", REQ))
        auth = scat(T("str", "Authorization: Bearer "), token)
        for st in res:
            if st.status != "ret" or not known(st):
                if st.status == "ret": rep.ob("body", None, loc(f), "%s: the transfer cannot be followed" % who)
                continue
            n += 1
            for d in [e for e in st.events if e.kind == "dead"][:1]:
                rep.ob("nothing dead is used", False, at_ev(d), "%s: the request is sent through %s" % (who, d.what), chain_of(d), path_of(st))
            rep.ob("nothing dead is used", True)
            for p in [e for e in st.events if e.kind == "perform"]:
                rep.ob("address", verdict(p.url, cut(want_url), want_url), at_ev(p), "%s: sent to %s, not the address of its kind" % (who, show(p.url)[:200]), chain_of(p))
                rep.ob("body", verdict(p.body, want_body), at_ev(p), "%s: the body sent is %s, not the serialized request" % (who, "none" if p.body is None else show(p.body)[:200]), chain_of(p))
                rep.ob("method", (p.post or p.custom is not None) and (p.custom is None or p.custom is T("str", "POST")) and not p.notpost, at_ev(p), "%s: not sent as a POST" % who, chain_of(p))
                hs = strings(p.headers)
                rep.ob("authorization", any(verdict(h, cut(auth), auth) for h in hs) if hs and p.headers is not None else False, at_ev(p), "%s: sent without the caller's authorization" % who, chain_of(p))
                rep.ob("only the body is received", p.header == 0, at_ev(p), "%s: the headers of the response are received as part of its body" % who, chain_of(p))
            want = [T("bytes", src, ln) for src, ln in PARTS if decide_zero(st, ln) is not True]
            for e in st.events:
                if e.kind == "part": rep.ob("all of a part is taken", verdict(e.ret, e.n), at_ev(e) if e.loc[0] != "?" else loc(f), "%s: the receiver reports %s of %s bytes as taken" % (who, show(e.ret)[:60], show(e.n)), chain_of(e))
            for e in [e for e in st.events if e.kind == "parse"]:
                rep.ob("response", e.msg is RESP, at_ev(e), "%s: the body is not parsed into the caller's response" % who, chain_of(e))
                rep.ob("body received", verdict(e.src, scat(*want)), at_ev(e), "%s: the response is parsed from %s, not from the parts in order (%s)" % (who, show(e.src)[:200], show(scat(*want))[:120]), chain_of(e), path_of(st))
    if not n: raise Missing("a transfer of the sample transport that can be followed")
def decide_zero(st, ln):
    """Whether the path says that a part is empty."""
    for b in (True, False):
        env = {ln: 0 if b else 5}
        ok = True
        for a, t in st.path:
            if leaves([a]) <= {ln} and ln in subterms(a):
                try:
                    if bool(evalt(a, env)) != t: ok = False
                except Unk: pass
        if not ok: return not b
    return None
OPAQUE = {"ret", "undef", "sstr", "retobj", "text", "loopv"}
def verdict(x, *want):
    """True, False, or None when x has parts that could not be followed."""
    if any(x is w or is_c(x) and is_c(w) and x == w for w in want): return True
    if x is None: return False
    if is_t(x) and any(t.h in OPAQUE for t in subterms(x)): return None
    return False
