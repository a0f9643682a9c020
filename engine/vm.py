"""Path-sensitive abstract interpretation of the LLVM IR.

Values are value numbers (terms.py), the state is a frame stack (callees are
analysed in context), the known memory cells, the branch facts and the typestate
events seen so far. Loops are summarised: the cells a loop changes are replaced
by unknowns until the body maps the state to itself, so each path through the
body is looked at once, for an arbitrary iteration. Nothing is executed and no
solver is used; branch facts are only compared syntactically and by intervals."""
import sys
from terms import *
import terms

sys.setrecursionlimit(20000)

class Limit(Exception): pass

class Frame:
    __slots__ = ("fn", "loc", "blk", "idx", "prev", "uid", "call", "allocs", "tag", "phi", "iters", "root")
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.loc = dict(self.loc); f.blk = self.blk; f.idx = self.idx; f.prev = self.prev; f.uid = self.uid
        f.call = self.call; f.allocs = self.allocs; f.tag = self.tag; f.phi = self.phi; f.iters = self.iters; f.root = self.root
        return f

class Ev:
    """One typestate event on a path."""
    __slots__ = ("kind", "d", "loc", "held", "chain", "npath")
    def __init__(self, kind, d, loc, held, chain, npath=0):
        self.kind = kind; self.d = d; self.loc = loc; self.held = held; self.chain = chain; self.npath = npath
    def __getattr__(self, n):
        try: return self.d[n]
        except KeyError: raise AttributeError(n)
    def get(self, n, dflt=None): return self.d.get(n, dflt)
    def where(self): return "%s:%s" % self.loc
    def __repr__(self): return "<%s %s @%s>" % (self.kind, {k: v for k, v in self.d.items()}, self.where())

class Loop:
    """Summary of one loop on one path: init values, what an iteration does."""
    __slots__ = ("lid", "fn", "loc", "cells", "lin", "iters", "k", "aborts", "head_mem", "head")

class State:
    __slots__ = ("frames", "mem", "facts", "bounds", "path", "events", "held", "freed", "status", "ret", "alive", "kinds", "pending", "why", "cnt", "meta")
    def __init__(self):
        self.frames = []; self.mem = {}; self.facts = {}; self.bounds = {}; self.path = []; self.events = []; self.held = ()
        self.freed = {}; self.status = "run"; self.ret = None; self.alive = set(); self.pending = None; self.why = ""; self.cnt = 0
        self.kinds = {}; self.meta = {}
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.facts = dict(self.facts); s.bounds = dict(self.bounds); s.path = list(self.path)
        s.events = list(self.events); s.held = self.held; s.freed = dict(self.freed); s.status = self.status; s.ret = self.ret
        s.alive = set(self.alive); s.pending = self.pending; s.why = self.why; s.cnt = self.cnt; s.kinds = self.kinds; s.meta = dict(self.meta)
        return s

class Call:
    __slots__ = ("vm", "st", "fn", "short", "dem", "args", "inst", "sret", "ptypes")
    @property
    def this(self): return self.args[1] if self.sret else self.args[0]

class Inline:
    """Model result: analyse this function in place of the call."""
    def __init__(self, fn, args, tag=None): self.fn = fn; self.args = args; self.tag = tag

class Forks:
    """Model result: several (state, value) outcomes."""
    def __init__(self, lst): self.lst = lst

class Abort(Exception):
    def __init__(self, why): self.why = why

MULTI = set()      # loops left in more than one way
SCALARS = ("i1", "i8", "i16", "i32", "i64", "float", "double", "ptr")
class VM:
    def __init__(self, prog, models, boundary=None, max_steps=400000, max_states=4000):
        self.prog = prog; self.models = models; self.boundary = boundary or {}
        self.max_steps = max_steps; self.steps = 0; self.max_states = max_states
        self.visited = set()       # functions analysed
        self.countmax = 64
        self.unknown = {}          # external functions without a model
        self.ctx = []              # enclosing loop explorations
        self.nloops = 0; self.ncalls = 0; self.npaths = 0
        self.rec_limit = 2
        self.hooks = []            # f(vm, st, kind, ptr, val, inst) on loads/stores
        self.resolved = 0
        self.opts = {}
        self.unroll = 0            # > 0: follow loops iteration by iteration, at most so often
        self.atomic = False        # the access under way is an atomic one
        self.acc = None            # f(vm, st, "r"|"w", base, offset) on every cell access

    # ------------------------------------------------------------ entry
    def entry(self, fn, args=None, st=None):
        """A state about to run fn on args (symbolic by default)."""
        st = st or State()
        if args is None:
            args = []
            for i in range(len(fn.at)):
                args.append(T("arg", self.argname(fn, i)))
        self.push(st, fn, args, None, T("root", fn.name))
        return st
    def argname(self, fn, i):
        j = i - (1 if fn.sret else 0)
        if fn.sret and i == 0: return "<ret>"
        return fn.an.get(j + 1) or ("arg%d" % j)

    def push(self, st, fn, args, call, uid, tag=None):
        f = Frame(); f.fn = fn; f.loc = dict(enumerate(args)); f.blk = 0; f.idx = 0; f.prev = None; f.uid = uid; f.call = call
        f.allocs = []; f.tag = tag; f.phi = None; f.iters = {}; f.root = uid
        st.frames.append(f)
        self.visited.add(fn.name)

    def run(self, st):
        """All terminal states (status 'ret' or 'abort') reachable from st."""
        done = []
        self.explore([st], None, done)
        self.npaths += len(done)
        return done

    def analyse(self, fn, args=None, st=None):
        return self.run(self.entry(fn, args, st))

    # ------------------------------------------------------------ exploration
    def explore(self, work, ctx, done):
        """Runs states to the end; with ctx=(depth, header, body) also stops at
        that loop's back edges and exits, returning (backs, exits)."""
        backs, exits = [], []
        work = list(work)
        while work:
            if len(work) + len(done) + len(backs) + len(exits) > self.max_states: raise Limit("too many states")
            st = work.pop()
            for s in self.advance(st):
                # s has a pending target block, or is finished
                if s.status != "run":
                    done.append(s); continue
                todo = [s]
                while todo:
                    s = todo.pop()
                    t = s.pending
                    if t is None: work.append(s); continue
                    fr = s.frames[-1]
                    if ctx is not None and len(s.frames) == ctx[0]:
                        if t == ctx[1]: backs.append(s); continue
                        if t not in ctx[2]: exits.append(s); continue
                    loops = fr.fn.loops()
                    if t in loops and self.unroll:
                        n = fr.iters.get(t, 0) if fr.blk in loops[t] else 0
                        if n > self.unroll:
                            s.status = "abort"; s.why = "bound"; done.append(s); continue
                        fr.iters = dict(fr.iters); fr.iters[t] = n + 1
                        fr.uid = T("it", fr.root, t, n, *[x for k, x in sorted(fr.iters.items()) if k != t])
                    elif t in loops and self.counted(s, t, loops[t]):
                        n = fr.iters.get(t, 0) if fr.blk in loops[t] else 0
                        fr.iters = dict(fr.iters); fr.iters[t] = n + 1
                        fr.uid = T("it", fr.root, t, n, *[x for k, x in sorted(fr.iters.items()) if k != t])
                    elif t in loops and not (s.meta.get("at_header") == (fr.uid, t)):
                        todo.extend(self.summarise(s, t, loops[t], done))
                        continue
                    self.enter(s, t)
                    work.append(s)
        return backs, exits

    def enter(self, st, t):
        fr = st.frames[-1]
        fr.prev = fr.blk; fr.blk = t; fr.idx = 0
        st.pending = None

    # ------------------------------------------------------------ loops
    def counted(self, st, t, body):
        """Whether the loop's own test, from this state, is a matter of constants
        alone: such a loop is followed as it runs."""
        fr = st.frames[-1]
        if fr.blk in body and fr.iters.get(t, 0) > self.countmax: return False
        c = st.clone(); depth = len(c.frames)
        c.facts = {}; c.bounds = {}; c.path = []; c.events = []
        keep = self.acc, self.hooks, self.nloops, self.ncalls, self.opts
        self.acc = None; self.hooks = []; self.opts = dict(self.opts, nopaths=True)
        try:
            self.enter(c, t)
            for _ in range(60):
                rs = self.advance(c)
                if len(rs) != 1 or rs[0].status != "run": return False
                c = rs[0]
                if len(c.frames) < depth: return False
                if c.pending is None: continue
                f = c.frames[-1]
                if len(c.frames) == depth:
                    last = f.fn.blocks[f.blk][-1]
                    if last["o"] == "br": return len(last["s"]) == 2
                    if last["o"] != "invoke": return False
                elif c.pending in f.fn.loops(): return False
                self.enter(c, c.pending)
            return False
        finally: self.acc, self.hooks, self.nloops, self.ncalls, self.opts = keep
    def summarise(self, st, header, body, done):
        self.nloops += 1
        fr = st.frames[-1]
        depth = len(st.frames)
        lid = T("loop", fr.uid, header)
        # evaluate the header's phis for the entry edge
        entry_blk = fr.blk
        phis = {}
        for i in fr.fn.blocks[header]:
            if i["o"] != "phi": break
            for v, b in i["in"]:
                if b == entry_blk: phis[i["i"]] = self.val(st, v)
        base = st
        nev = len(st.events); npath = len(st.path)
        variant = {}       # cell -> value at the loop head
        init = {}
        k = T("k", lid)
        result = None
        for rnd in range(12):
            s0 = base.clone()
            s0.events = []; s0.path = []
            for c, v in variant.items():
                if c[0] != "phi": s0.mem[c] = v
            ph = dict(phis)
            for c, v in variant.items():
                if c[0] == "phi": ph[c[1]] = v
            f0 = s0.frames[-1]
            f0.prev = fr.blk; f0.blk = header; f0.idx = 0; f0.phi = ph; s0.pending = None
            inner_done = []
            start = dict(s0.mem)
            alive = set(s0.alive)
            backs, exits = self.explore([s0], (depth, header, body), inner_done)
            new = {}
            outs = []
            for b in backs:
                up = {}
                for c, v in b.mem.items():
                    if isinstance(c[0], Term) and c[0].h in ("alloca", "new") and c[0] not in alive: continue
                    o = start.get(c)
                    if o is None: o = self.default_cell(c)
                    if v is not o and not (is_c(v) and is_c(o) and v == o): up[c] = (o, v)
                for c in start:
                    if c not in b.mem: up[c] = (start[c], self.default_cell(c))
                for i in fr.fn.blocks[header]:
                    if i["o"] != "phi": break
                    for v, pb in i["in"]:
                        if pb == b.frames[-1].blk:
                            nv = self.val(b, v); ov = ph[i["i"]]
                            if nv is not ov and not (is_c(nv) and is_c(ov) and nv == ov): up[("phi", i["i"])] = (ov, nv)
                outs.append(up)
                for c, (o, v) in up.items():
                    if c not in variant: new[c] = (o, v)
            if not new:
                result = (backs, exits, inner_done, outs)
                # try the linear form for what is still a plain unknown
                lin = {}
                for c, h in variant.items():
                    if not self.plain(h, lid, c) or not outs: continue
                    step = None
                    for up in outs:
                        d = self.step_of(h, up[c][1]) if c in up else 0
                        if d is None or not is_c(d) or d == 0 or (step is not None and d != step): step = None; break
                        step = d
                    if step is not None: lin[c] = step
                if not lin: break
                ok = False
                for c, stp in lin.items():
                    nv = self.shift(init[c], mul(stp, k))
                    if nv is not None: variant[c] = nv; ok = True
                if not ok: break
                result = None
                continue
            # generalise the newly changed cells
            for c, (o, v) in new.items():
                init[c] = o
                variant[c] = self.widen(o, v, lid, c)
            # a linear cell that is no longer linear falls back to unknown
            result = None
        if result is None: raise Limit("loop does not stabilise: %s" % fr.fn.dem[:80])
        backs, exits, inner_done, outs = result
        # verify linear cells: value after an iteration is value at k+1
        bad = []
        for c, h in variant.items():
            if mentions(h, k):
                nxt = subst(h, {k: add(k, 1)})
                for up in outs:
                    v = up[c][1] if c in up else h
                    if v is not nxt and not (is_c(v) and is_c(nxt) and v == nxt): bad.append(c); break
        if bad:
            # one more round with those as plain unknowns and no linear attempt
            for c in bad: variant[c] = self.widen(init[c], None, lid, c)
            s0 = base.clone(); s0.events = []; s0.path = []
            for c, v in variant.items():
                if c[0] != "phi": s0.mem[c] = v
            ph = dict(phis)
            for c, v in variant.items():
                if c[0] == "phi": ph[c[1]] = v
            f0 = s0.frames[-1]
            f0.prev = fr.blk; f0.blk = header; f0.idx = 0; f0.phi = ph; s0.pending = None
            inner_done = []; start = dict(s0.mem); alive = set(s0.alive)
            backs, exits = self.explore([s0], (depth, header, body), inner_done)
            outs = []
            for b in backs:
                up = {}
                for c, v in b.mem.items():
                    if isinstance(c[0], Term) and c[0].h in ("alloca", "new") and c[0] not in alive: continue
                    o = start.get(c)
                    if o is None: o = self.default_cell(c)
                    if v is not o and not (is_c(v) and is_c(o) and v == o): up[c] = (o, v)
                outs.append(up)
        L = Loop()
        L.lid = lid; L.fn = fr.fn; L.k = k
        ln = next((i.get("l") for i in fr.fn.blocks[header] if i.get("l")), fr.fn.line)
        L.loc = (fr.fn.file, ln)
        L.cells = {c: (init[c], h) for c, h in variant.items()}
        L.iters = []
        for b, up in zip(backs, outs):
            L.iters.append(dict(path=b.path, events=b.events, upd={c: v[1] for c, v in up.items()}, state=b, held=b.held))
        L.aborts = inner_done
        ev = Ev("loop", {"loop": L}, L.loc, base.held, self.chain(base), npath)
        res = []
        for s in inner_done:
            s.events = base.events[:nev] + [Ev("loop-partial", {"loop": L}, L.loc, base.held, ())] + s.events
            s.path = base.path[:npath] + s.path
            done.append(s)
        if len(exits) != 1: MULTI.add(lid)
        for s in exits:
            s.events = base.events[:nev] + [ev] + s.events
            xp = s.path
            s.path = base.path[:npath] + s.path
            s.frames[-1].phi = None
            self.fold_exit(s, L, xp, base)
            res.append(s)
        return res

    def default_cell(self, c):
        if c[1] == "rng": return T("rng")
        if c[0] == "phi": return 0
        return T("ld", P(c[0], c[1])) if isinstance(c[1], (int, Term)) else T("ld", c[0], c[1])
    def plain(self, h, lid, c):
        if c[1] == "rng": return False
        if is_t(h, "iter"): h = h.a[1]
        return is_t(h, "lv")
    def widen(self, o, v, lid, c):
        name = T("cell", *c)
        if c[1] == "rng":
            rs = sorted(set((r[0], r[1]) for x in (o, v) if is_t(x, "rng") for r in x.a), key=lambda r: (r[0], r[1]))
            return T("rng", *[(lo, n, T("lv", lid, T("cell", *c, lo))) for lo, n in rs])
        if is_t(o, "iter") and (v is None or (is_t(v, "iter") and v.a[0] is o.a[0])):
            return T("iter", o.a[0], T("lv", lid, name))
        return T("lv", lid, name)
    def step_of(self, h, v):
        if is_t(h, "iter"):
            if not is_t(v, "iter") or v.a[0] is not h.a[0]: return None
            return sub(v.a[1], h.a[1])
        if is_t(v, "p") or is_t(h, "p"):
            b0, o0 = base_off(h); b1, o1 = base_off(v)
            return sub(o1, o0) if b0 is b1 else None
        if is_t(v) and v.h in ("upd", "append", "mput", "setat"): return None
        return sub(v, h)
    def shift(self, init, d):
        if is_t(init, "iter"):
            if not (is_c(init.a[1]) or is_t(init.a[1])) or is_t(init.a[1], "found"): return None
            return T("iter", init.a[0], add(init.a[1], d))
        if is_t(init) and init.h in ("alloca", "new", "glob", "sdata", "sptr", "arg", "p", "fld"): return P(init, d)
        return add(init, d)

    def fold_exit(self, s, L, xpath, base):
        """Closed forms for accumulators of complete traversals."""
        k = L.k
        n = None
        for atom, v in xpath:
            # k == n or !(k < n)
            if v and is_t(atom, "eq") and k in atom.a: n = atom.a[1] if atom.a[0] is k else atom.a[0]
            if not v and is_t(atom, "lt") and atom.a[0] is k: n = atom.a[1]
        if n is None or not L.iters: return
        if not is_c(n) and mentions(n, k): return
        for c, (o, h) in L.cells.items():
            if c[0] == "phi" or not is_t(h, "lv"): continue
            ups = [it["upd"].get(c, h) for it in L.iters]
            f = self.charwise(o, h, ups, L, k, n) if L.lid not in MULTI else None
            if f is not None:
                cur = s.mem.get(c)
                if cur is h: s.mem[c] = f
                elif cur is not None: s.mem[c] = subst(cur, {h: f})
                continue
            u = ups[0]
            if any(x is not u for x in ups[1:]): continue
            f = self.fold(o, h, u, k, n)
            if f is None: continue
            cur = s.mem.get(c)
            if cur is h: s.mem[c] = f
            elif cur is not None: s.mem[c] = subst(cur, {h: f})
        # later code sees the number of iterations
        if k not in (n,):
            m = {k: n}
            for c, (o, h) in L.cells.items():
                cur = s.mem.get(c)
                if isinstance(cur, Term) and mentions(cur, k): s.mem[c] = subst(cur, m)
    def charwise(self, o, h, ups, L, k, n):
        """A string rewritten, or built, character by character from a string."""
        src = None; cases = []; ixc = T("ixc")
        for it, u in zip(L.iters, ups):
            if is_t(u, "sset") and u.a[0] is h and u.a[1] is k:
                s, m, x = o, {T("char", h, k): ixc}, T("ch", u.a[2])
                if n is not slen(o) and n is not slen(h): return None
            elif u is h or is_t(u, "scat") and u.a[0] is h:
                if not is_t(n, "slen"): return None
                s = n.a[0]; m = {T("char", s, k): ixc}
                x = T("str", "") if u is h else T("scat", *u.a[1:]) if len(u.a) > 2 else u.a[1]
                if is_t(x, "substr") and x.a[0] is s and x.a[1] is k and x.a[2:] == (1,): x = T("ch", ixc)
            else: return None
            if src is not None and s is not src: return None
            src = s
            cond = tuple((subst(a, m), b) for a, b in it["path"] if not (k in a.a and a.h in ("eq", "lt", "ult")))
            x = subst(x, m)
            if mentions(x, h) or mentions(x, k) or any(mentions(a, h) or mentions(a, k) for a, b in cond): return None
            cases.append((cond, x))
        if src is None or all(x is T("str", "") for _, x in cases): return None
        r = T("sflat", src, tuple(cases))
        return r if any(is_t(u, "sset") for u in ups) or o is EMPTYSTR else T("scat", o, r)
    def fold(self, o, h, u, k, n):
        """Value after n iterations of  h -> u(h, k)  starting from o."""
        if u is h: return o
        ix = T("ix")
        if is_t(u, "append") and u.a[0] is h and not mentions(u.a[1], h):
            x = u.a[1]
            return concat(o, seqof(n, subst(x, {k: ix})))
        if is_t(u, "mput") and u.a[0] is h and not mentions(u.a[1], h) and not mentions(u.a[2], h):
            return mapfold(o, n, subst(u.a[1], {k: ix}), subst(u.a[2], {k: ix}))
        if is_t(u, "setat") and u.a[0] is h and u.a[1] is k:
            x = subst(u.a[2], {T("at", h, k): T("at", o, k)})
            if not mentions(x, h): return T("mapset", o, n, subst(x, {k: ix}))
        if is_t(u, "upd") and u.a[0] is h:
            r = o
            for f, x in u.a[1]:
                if is_c(x) or not mentions(x, h) and not mentions(x, k):
                    r = upd(r, f, x); continue    # idempotent (only exact when n > 0)
                g = T("get", h, f)
                if not mentions(subst(x, {g: 0}) if is_t(x) else x, h):
                    y = T("lvf", h, f)
                    z = self.fold(get(o, f), y, subst(x, {g: y}), k, n)
                    if z is None: return None
                    r = upd(r, f, z)
                else: return None
            return r
        d = sub(u, h) if not (is_t(u) and u.h in ("mput", "append", "setat", "upd", "concat", "lv")) else None
        if d is not None and is_t(d) and not mentions(d, h):
            return add(o, T("sumof", n, subst(d, {k: ix})))
        return None

    # ------------------------------------------------------------ facts
    def decide(self, st, c):
        if is_c(c): return bool(c)
        h = c.h
        if h == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        if h == "and":
            a = self.decide(st, c.a[0]); b = self.decide(st, c.a[1])
            if a is False or b is False: return False
            return True if a and b else None
        if h == "or":
            a = self.decide(st, c.a[0]); b = self.decide(st, c.a[1])
            if a or b: return True
            return False if a is False and b is False else None
        r = st.facts.get(c)
        if r is not None: return r
        if h in ("eq", "lt") and is_c(c.a[1]):
            x, n = c.a
            lo, hi, nes = self.bound(st, x)
            if h == "eq":
                if (lo is not None and n < lo) or (hi is not None and n > hi) or n in nes: return False
                if lo is not None and lo == hi == n: return True
            else:
                if hi is not None and hi < n: return True
                if lo is not None and lo >= n: return False
        elif h == "lt":
            a, b = c.a
            if st.facts.get(T("lt", b, a)) is True: return False
            e = st.facts.get(T("eq", *sorted((a, b), key=lambda x: x.id)))
            if e: return False
            if e is False and st.facts.get(T("lt", b, a)) is False: return True
            la = self.bound(st, a); lb = self.bound(st, b)
            if la[1] is not None and lb[0] is not None and la[1] < lb[0]: return True
            if la[0] is not None and lb[1] is not None and la[0] >= lb[1]: return False
            d = parts(sub(b, a))
            if d[1] and all(kk > 0 and nonneg(t) for t, kk in d[1]) and d[0] > 0: return True
            d = parts(sub(a, b))
            if d[1] and all(kk > 0 and nonneg(t) for t, kk in d[1]) and d[0] >= 0: return False
        elif h == "eq":
            a, b = c.a
            if st.facts.get(T("lt", a, b)) or st.facts.get(T("lt", b, a)): return False
            if st.facts.get(T("lt", a, b)) is False and st.facts.get(T("lt", b, a)) is False: return True
        elif h == "fcmp":
            p, a, b = c.a
            f = lambda q, x, y: self._f(st, q, x, y)
            if p == "olt":
                if f("olt", b, a) or f("oeq", a, b) or f("ole", b, a): return False
            elif p == "ole":
                if f("olt", a, b) or f("oeq", a, b): return True
                if f("olt", b, a): return False
            elif p == "oeq":
                if f("olt", a, b) or f("olt", b, a): return False
        return None
    def _f(self, st, q, x, y):
        c = fcmp(q, x, y)
        if is_c(c): return bool(c)
        return st.facts.get(c)
    def bound(self, st, x):
        b = st.bounds.get(x)
        if b is None:
            return (0 if nonneg(x) else None, None, ())
        return b
    def assume(self, st, c, v):
        """Records c == v (c undecided). False if contradictory."""
        if is_c(c): return bool(c) == v
        h = c.h
        if h == "not": return self.assume(st, c.a[0], not v)
        if h == "and" and v: return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
        if h == "or" and not v: return self.assume(st, c.a[0], False) and self.assume(st, c.a[1], False)
        st.facts[c] = v
        st.path.append((c, v))
        if self.prog.hidden:
            for t in subterms(c):
                if t.h == "ld" and base_off(t.a[0]) in self.prog.hiddenkeys(): self.prog.hidden[self.prog.hiddenkeys()[base_off(t.a[0])]][0].append(c)
        if h in ("eq", "lt") and is_c(c.a[1]):
            x, n = c.a
            lo, hi, nes = self.bound(st, x)
            if h == "eq":
                if v: lo = hi = n; nes = ()
                else: nes = nes + (n,)
            elif v: hi = n - 1 if hi is None else min(hi, n - 1)
            else: lo = n if lo is None else max(lo, n)
            ch = True
            while ch:
                ch = False
                if lo is not None and lo in nes: lo += 1; ch = True
                if hi is not None and hi in nes: hi -= 1; ch = True
            if lo is not None and hi is not None and lo > hi: return False
            st.bounds[x] = (lo, hi, nes)
        return True
    def atom_of(self, st, c):
        """An undecided atom of c."""
        if is_c(c): return None
        if c.h == "not": return self.atom_of(st, c.a[0])
        if c.h in ("and", "or"):
            for x in c.a:
                if self.decide(st, x) is None: return self.atom_of(st, x)
            return None
        return c
    def fork(self, st, c):
        """[(state, bool)] for condition c; the last state may be st itself."""
        r = self.decide(st, c)
        if r is not None: return [(st, r)]
        out = []
        work = [st]
        while work:
            s = work.pop()
            r = self.decide(s, c)
            if r is not None: out.append((s, r)); continue
            a = self.atom_of(s, c)
            s2 = s.clone()
            if self.assume(s2, a, False): work.append(s2)
            if self.assume(s, a, True): work.append(s)
        return out

    # ------------------------------------------------------------ memory
    def load(self, st, p, ty=None):
        if is_t(p):
            if ty and ty[0] in "{[" : return self.load_agg(st, p, ty)
            h = p.h
            if h == "fld": return get(self.load(st, p.a[0]), p.a[1])
            if h == "elt" or h == "iter" and len(p.a) == 3: return at(self.load(st, p.a[0]), p.a[1])
            if h == "ent":     # map entry: key first
                return p.a[1]
            if h == "mv": return mget(self.load(st, p.a[0]), p.a[1])
            if h == "p" and is_t(p.a[0], "ent"): return mget(self.load(st, p.a[0].a[0]), p.a[0].a[1])
            if h == "sptr":
                s = self.load(st, p.a[0])
                return self.load(st, T("sdata", s, p.a[1]))
            if h == "sdata":
                s = p.a[0]
                if is_t(s, "sset") and s.a[1] is p.a[1]: return s.a[2]
                if is_t(s, "str") and is_c(p.a[1]): return ord(s.a[0][p.a[1]]) if p.a[1] < len(s.a[0]) else 0
                return T("char", s, p.a[1])
            if h == "sel":
                pass
        b, o = base_off(p)
        if self.acc is not None: self.acc(self, st, "r", b, o)
        v = st.mem.get((b, o))
        if v is not None: return v
        if is_t(b, "glob"):
            v = self.gload(b.a[0], o)
            if v is None and self.prog.mutable(b.a[0]) and is_c(o):
                self.prog.hidden.setdefault((b.a[0], o), [[], set()])
                v = self.prog.statics.get((b.a[0], o))
            if v is not None: return v
        if is_t(b) and is_c(o):
            r = self.alias(st, b, o)
            if r is not None: return r
            if b.h in ("elt",):      # a plain struct inside a container
                return T("ld", P(b, o))
        return T("ld", p)
    def alias(self, st, b, o):
        rg = st.mem.get((b, "rng"))
        if rg is not None:
            for lo, n, src in rg.a:
                if lo <= o < lo + n: return T("ld", P(src, o - lo)) if src is not None else None
        return None
    def gload(self, name, o):
        g = self.prog.globals.get(name)
        if g is None or not g.get("const"): return None
        c = self.prog.glob_cells(name)
        if o in c: return self.val(None, c[o])
        for kk, n in c.items():
            if isinstance(kk, tuple) and is_c(o) and kk[1] <= o < kk[1] + n: return 0
        return None
    def agg_offsets(self, ty):
        """Byte offsets of the members of a first-class aggregate type."""
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m: ts = [m.group(2)] * int(m.group(1))
        else:
            ts = []; d = 0; cur = ""
            for ch in ty.strip()[1:-1]:
                if ch in "{[<": d += 1
                if ch in "}]>": d -= 1
                if ch == "," and d == 0: ts.append(cur.strip()); cur = ""
                else: cur += ch
            if cur.strip(): ts.append(cur.strip())
        off = 0; r = []
        for t in ts:
            n = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "float": 4}.get(t, 8)
            off = (off + n - 1) // n * n
            r.append((off, t)); off += n
        return r
    def load_agg(self, st, p, ty):
        return T("agg", *[self.load(st, P(p, o), t) for o, t in self.agg_offsets(ty)])
    def store(self, st, p, v, ty=None):
        if is_t(p):
            h = p.h
            if h == "fld":
                o = self.load(st, p.a[0])
                n = upd(o, p.a[1], v)
                hk = "has:" + p.a[1]
                if p.a[2:] == ("m",): n = upd(n, hk, 1)
                self.store(st, p.a[0], n); return
            if h == "elt" or h == "iter" and len(p.a) == 3:
                if is_t(st.mem.get((p.a[0], "raw"))): pass
                self.store(st, p.a[0], setat(self.load(st, p.a[0]), p.a[1], v)); return
            if h == "sptr":
                s = self.load(st, p.a[0])
                if is_t(s, "str") and is_c(p.a[1]) and is_c(v) and 0 <= p.a[1] < len(s.a[0]): n = T("str", s.a[0][:p.a[1]] + chr(v & 255) + s.a[0][p.a[1] + 1:])
                else: n = T("sset", s, p.a[1], v)
                self.store(st, p.a[0], n); return
            if h == "mv":
                self.store(st, p.a[0], mput(self.load(st, p.a[0]), p.a[1], v)); return
            if h == "p" and is_t(p.a[0], "ent"):
                self.store(st, p.a[0].a[0], mput(self.load(st, p.a[0].a[0]), p.a[0].a[1], v)); return
        if is_t(v, "agg"):
            offs = self.agg_offsets(ty) if ty and ty[0] in "{[" else [(8 * i, "") for i in range(len(v.a))]
            for (o, t), x in zip(offs, v.a): self.store(st, P(p, o), x, t)
            return
        b, o = base_off(p)
        if self.acc is not None: self.acc(self, st, "w", b, o)
        st.mem[(b, o)] = v
        if is_t(b, "glob") and is_c(o) and self.prog.mutable(b.a[0]): self.prog.hidden.setdefault((b.a[0], o), [[], set()])[1].add(v)
    def copy_range(self, st, dst, src, n):
        """memcpy of n bytes between plain objects."""
        if is_t(dst) and dst.h in ("fld", "elt", "mv", "ent") or is_t(src) and src.h in ("fld", "elt", "mv"):
            self.store(st, dst, self.load(st, src)); return
        db, do = base_off(dst); sb, so = base_off(src)
        if not (is_c(do) and is_c(so) and is_c(n)):
            st.mem[(db, do)] = T("bytes", self.load(st, src), n); return
        cells = [(o, v) for (b, o), v in st.mem.items() if b is sb and is_c(o) and so <= o < so + n]
        for (b, o) in [c for c in st.mem if c[0] is db and is_c(c[1]) and do <= c[1] < do + n]: del st.mem[(b, o)]
        for o, v in cells: st.mem[(db, o - so + do)] = v
        if is_t(sb, "glob"):
            for o in self.prog.glob_cells(sb.a[0]):
                if is_c(o) and so <= o < so + n: st.mem[(db, o - so + do)] = self.val(None, self.prog.glob_cells(sb.a[0])[o])
            return
        # cells of src that are not known yet keep their symbolic identity
        rg = st.mem.get((sb, "rng"))
        src_parts = []
        if rg is not None:
            for lo, ln, s2 in rg.a:
                a = max(lo, so); e = min(lo + ln, so + n)
                if a < e and s2 is not None: src_parts.append((a - so + do, e - a, P(s2, a - lo)))
        if not src_parts: src_parts = [(do, n, P(sb, so))]
        old = st.mem.get((db, "rng"))
        keep = [r for r in (old.a if old is not None else ()) if not (r[0] >= do and r[0] + r[1] <= do + n)]
        st.mem[(db, "rng")] = T("rng", *(src_parts + keep))

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        k = o[0]
        if k == "i": return st.frames[-1].loc[o[1]]
        if k == "c":
            v = o[1]
            return v & 1 if o[2] == 1 else v
        if k == "n": return 0
        if k == "g":
            n = o[1]
            f = self.prog.fn(n)
            if f is not None: return T("fn", f.name)
            return T("glob", self.prog.aliases.get(n, n))
        if k == "f":
            try: return T("f", float(o[1]))
            except ValueError: return T("f", float("nan") if "NaN" in o[1] else float("inf") if not o[1].startswith("-") else float("-inf"))
        if k == "ce":
            if o[1] == "gep":
                b = self.val(st, o[2])
                return P(b, o[3]) if o[3] is not None else T("opaque", b)
            if o[1] in ("ptrtoint", "inttoptr", "bitcast"): return self.val(st, o[2])
            return T("ce", o[1], *[self.val(st, x) for x in o[2:]])
        if k == "u": return T("undef")
        if k == "z": return T("zero")
        if k == "a": return T("agg", *[self.val(st, x) for x in o[1:]])
        if k == "md": return T("md", o[1])
        return T("opq", k)
    def gep(self, st, g):
        b = self.val(st, g[0])
        if g[1] is None: return T("opaque", b)
        off = g[1]
        for v, sc in g[2]:
            off = add(off, mul(self.val(st, v), sc))
        return P(b, off)

    # ------------------------------------------------------------ stepping
    def chain(self, st):
        r = []
        for f in st.frames:
            b = f.fn.blocks[f.blk]
            i = b[min(f.idx, len(b) - 1)]
            r.append((f.fn.short, f.fn.file, i.get("l") or f.fn.line))
        return tuple(r)
    def here(self, st):
        """Innermost location in the repository's own code."""
        for f in reversed(st.frames):
            if f.fn.root:
                b = f.fn.blocks[f.blk]
                i = b[min(f.idx, len(b) - 1)]
                return (f.fn.file, i.get("l") or f.fn.line)
        return ("?", 0)
    def event(self, st, kind, **d):
        e = Ev(kind, d, self.here(st), st.held, self.chain(st), len(st.path))
        st.events.append(e)
        return e
    def event_nf(self, st, kind, **d):
        """An event between two analysed functions."""
        e = Ev(kind, d, ("?", 0), st.held, (), len(st.path))
        st.events.append(e)
        return e
    def fresh(self, st, tag):
        fr = st.frames[-1]
        return T(tag, fr.uid, fr.blk, fr.idx)

    def advance(self, st):
        """Runs st until a branch: returns the successor states (pending target
        set, or not running, or to be continued)."""
        while True:
            self.steps += 1
            if self.steps > self.max_steps: raise Limit("too many steps")
            fr = st.frames[-1]
            i = fr.fn.blocks[fr.blk][fr.idx]
            o = i["o"]
            if o == "load":
                p = self.val(st, i["a"][0])
                self.atomic = "atomic" in i
                v = self.load(st, p, i["t"])
                self.atomic = False
                if is_t(v, "ld") and v.a[0] is p and is_t(p, "alloca") and fr.fn.root and p in fr.allocs and p not in st.meta.get("given", ()) and i["a"][0][0] == "i" and i["t"] in SCALARS:
                    v = T("unset", p)
                for h in self.hooks: h(self, st, "load", p, v, i)
                fr.loc[i["i"]] = v
            elif o == "store":
                v = self.val(st, i["a"][0]); p = self.val(st, i["a"][1])
                for h in self.hooks: h(self, st, "store", p, v, i)
                self.atomic = "atomic" in i
                self.store(st, p, v, i.get("vt"))
                self.atomic = False
            elif o == "getelementptr":
                fr.loc[i["i"]] = self.gep(st, i["g"])
            elif o == "alloca":
                a = T("alloca", fr.uid, i["i"])
                if a in st.alive:      # the frame is entered again in a later iteration
                    for c in [c for c in st.mem if c[0] is a]: del st.mem[c]
                    st.freed.pop(a, None)
                st.alive.add(a); fr.allocs = fr.allocs + [a]
                fr.loc[i["i"]] = a
            elif o in ("call", "invoke"):
                r = self.call(st, i)
                if r is not None: return r
                if st.status != "run": return [st]
                continue
            elif o == "br":
                s = i["s"]
                if len(s) == 1:
                    st.pending = s[0]; return [st]
                c = self.val(st, i["a"][0])
                out = []
                for s2, b in self.fork(st, self.as_bool(c)):
                    s2.pending = s[0] if b else s[1]
                    out.append(s2)
                return out
            elif o == "switch":
                return self.switch(st, i)
            elif o == "ret":
                return self.ret(st, self.val(st, i["a"][0]) if i["a"] else None)
            elif o == "phi":
                # all phis of the block at once
                blk = fr.fn.blocks[fr.blk]; vals = {}
                n = fr.idx
                while blk[n]["o"] == "phi":
                    j = blk[n]
                    if fr.phi is not None and j["i"] in fr.phi: vals[j["i"]] = fr.phi[j["i"]]
                    else:
                        for v, b in j["in"]:
                            if b == fr.prev: vals[j["i"]] = self.val(st, v)
                    n += 1
                fr.phi = None
                fr.loc.update(vals)
                fr.idx = n
                continue
            elif o == "unreachable":
                st.status = "abort"; st.why = st.why or "unreachable"; return [st]
            elif o == "icmp":
                fr.loc[i["i"]] = self.icmp(i["p"], self.val(st, i["a"][0]), self.val(st, i["a"][1]), i.get("ot"))
            elif o == "fcmp":
                fr.loc[i["i"]] = fcmp(i["p"], self.val(st, i["a"][0]), self.val(st, i["a"][1]))
            elif o == "select":
                c, a, b = [self.val(st, x) for x in i["a"]]
                if i["t"] == "i1":
                    fr.loc[i["i"]] = or_(and_(self.as_bool(c), a), and_(not_(self.as_bool(c)), b))
                else:
                    outs = []
                    for s2, v in self.fork(st, self.as_bool(c)):
                        s2.frames[-1].loc[i["i"]] = a if v else b
                        s2.frames[-1].idx += 1
                        outs.append(s2)
                    return outs
            elif o in ("add", "sub", "mul"):
                a, b = [self.val(st, x) for x in i["a"]]
                r = add(a, b) if o == "add" else sub(a, b) if o == "sub" else mul(a, b)
                if o == "sub" and is_t(a) and is_t(b) and is_c(r) is False:
                    # pointer difference within one container
                    pass
                if self.opts.get("arith") and fr.fn.root and is_t(r):
                    if i.get("nsw"): self.event(st, "arith", op=o, val=r, bits=int(i["t"][1:]))
                    else: r = T("trunc", int(i["t"][1:]), r)
                fr.loc[i["i"]] = r
            elif o in ("fadd", "fsub", "fmul", "fdiv", "frem"):
                a, b = [self.val(st, x) for x in i["a"]]
                r = fbin(o, a, b)
                fr.loc[i["i"]] = f32(r) if i["t"] == "float" else r
            elif o == "fneg": fr.loc[i["i"]] = T("fneg", self.val(st, i["a"][0]))
            elif o in ("sdiv", "srem", "udiv", "urem", "shl", "lshr", "ashr"):
                a, b = [self.val(st, x) for x in i["a"]]
                if self.opts.get("arith") and fr.fn.root and i["t"] in ("i8", "i16", "i32"):
                    n = int(i["t"][1:])
                    if o in ("udiv", "urem", "lshr"): a, b = [x % (1 << n) if is_c(x) else T("band", x, (1 << n) - 1) if is_t(x) else x for x in (a, b)]
                if o in ("sdiv",): r = sdiv(a, b)
                elif o == "udiv" and is_c(a) and is_c(b) and a >= 0 and b > 0: r = a // b
                elif o in ("udiv",) and b == 1: r = a
                elif o == "shl" and is_c(b):
                    r = mul(a, 1 << b)
                    if self.opts.get("arith") and fr.fn.root and is_t(r): r = T("trunc", int(i["t"][1:]), r)
                elif o in ("lshr", "ashr") and is_c(a) and is_c(b) and a >= 0: r = a >> b
                else: r = T(o, a, b)
                fr.loc[i["i"]] = r
            elif o in ("and", "or", "xor"):
                a, b = [self.val(st, x) for x in i["a"]]
                fr.loc[i["i"]] = self.bitop(o, a, b, i["t"])
            elif o in ("sext", "zext", "bitcast", "ptrtoint", "inttoptr", "trunc", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui", "addrspacecast", "freeze"):
                fr.loc[i["i"]] = self.cast(o, self.val(st, i["a"][0]), i.get("st"), i["t"], self.opts.get("arith") and fr.fn.root)
                if o in ("fptosi", "fptoui"):
                    self.event(st, "fptosi", src=self.val(st, i["a"][0]), to=i["t"], op=o)
            elif o == "extractvalue":
                a = self.val(st, i["a"][0])
                for x in i["x"]: a = a.a[x] if is_t(a, "agg") else T("xv", a, x)
                fr.loc[i["i"]] = a
            elif o == "insertvalue":
                a, v = self.val(st, i["a"][0]), self.val(st, i["a"][1])
                n = len(self.agg_offsets(i["t"]))
                xs = list(a.a) if is_t(a, "agg") else [T("xv", a, j) for j in range(n)]
                if len(i["x"]) == 1: xs[i["x"][0]] = v
                fr.loc[i["i"]] = T("agg", *xs)
            elif o == "atomicrmw":
                p = self.val(st, i["a"][0]); v = self.val(st, i["a"][1]); self.atomic = True
                old = self.load(st, p)
                for h in self.hooks: h(self, st, "rmw", p, v, i)
                d = {"add": v, "sub": neg(v)}.get(i["op"])
                self.event(st, "rmw", ptr=p, op=i["op"], val=v, delta=d)
                self.store(st, p, add(old, d) if d is not None else v if i["op"] == "xchg" else T("rmw", i["op"], old, v))
                self.atomic = False
                fr.loc[i["i"]] = old
            elif o == "cmpxchg":
                p = self.val(st, i["a"][0])
                self.event(st, "rmw", ptr=p, op="cmpxchg", val=self.val(st, i["a"][2]), delta=None)
                fr.loc[i["i"]] = T("agg", T("cx", self.fresh(st, "s")), T("bool", self.fresh(st, "s")))
            elif o in ("landingpad", "resume", "cleanupret", "catchpad"):
                st.status = "abort"; st.why = "exception"; return [st]
            elif o == "fence": pass
            else:
                if "i" in i: fr.loc[i["i"]] = T("opq", o, self.fresh(st, "s"))
            fr.idx += 1

    def as_bool(self, c):
        if is_bool(c): return c
        return not_(eq(c, 0))
    def switch(self, st, i):
        c = self.val(st, i["a"][0])
        if is_c(c):
            for v, b in i["cs"]:
                if v == c: st.pending = b; return [st]
            st.pending = i["def"]; return [st]
        out = []
        cur = st
        # cases that share a target are one alternative of values, still split so facts stay exact
        for v, b in i["cs"]:
            e = eq(c, v)
            r = self.decide(cur, e)
            if r is True:
                cur.pending = b; out.append(cur); cur = None; break
            if r is False: continue
            s2 = cur.clone()
            if self.assume(s2, e, True): s2.pending = b; out.append(s2)
            if not self.assume(cur, e, False): cur = None; break
        if cur is not None: cur.pending = i["def"]; out.append(cur)
        return out
    def icmp(self, p, a, b, ty):
        if p == "eq": return eq(a, b)
        if p == "ne": return not_(eq(a, b))
        if p in ("slt", "sgt", "sle", "sge"):
            f = lt
        else: f = ult
        q = p[1:]
        if q == "lt": return f(a, b)
        if q == "gt": return f(b, a)
        if q == "le": return not_(f(b, a))
        return not_(f(a, b))
    def bitop(self, o, a, b, t):
        if t == "i1":
            if o == "and": return and_(a, b)
            if o == "or": return or_(a, b)
            if b == 1: return not_(a)
            if a == 1: return not_(b)
            return T("bool", "xor", a, b)
        if is_c(a) and is_c(b): return a & b if o == "and" else a | b if o == "or" else a ^ b
        if is_c(a): a, b = b, a
        if o == "and":
            if b == 0: return 0
            if b == -1 or (b == 1 and is_bool(a)) : return a
            if b == 1 and is_t(a, "fn"): return 0
            if b == 255 and is_bool(a): return a
        if o == "or":
            if b == 0: return a
            if is_bool(a) and is_bool(b): return or_(a, b)
        if o == "and" and is_bool(a) and is_bool(b): return and_(a, b)
        if o == "xor":
            if b == 0: return a
            if b == 1 and is_bool(a): return not_(a)
            if b == -1: return sub(neg(a), 1)
        return T({"and": "band", "or": "bor"}.get(o, o), a, b)
    def cast(self, o, v, s, t, exact=False):
        if o in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"):
            return v
        if o in ("sext", "zext"):
            if is_c(v) and o == "zext" and v < 0:
                return v & ((1 << int(s[1:])) - 1) if s and s[0] == "i" else v
            if is_c(v) and o == "sext" and s == "i1": return -v
            if exact and is_t(v) and not is_bool(v) and o == "zext" and s in ("i8", "i16", "i32") and not nonneg(v): return T("band", v, (1 << int(s[1:])) - 1)
            return v
        if o == "trunc":
            n = int(t[1:])
            if is_c(v):
                v &= (1 << n) - 1
                return v if n == 1 or v < (1 << (n - 1)) else v - (1 << n)
            if is_bool(v): return v
            if n == 1: return not_(eq(T("band", v, 1) if exact else v, 0))
            if nonneg(v) and not exact: return v            # sizes and counters fit
            return T("trunc", n, v)
        if o in ("sitofp", "uitofp"):
            if is_c(v): return f32(T("f", float(v))) if t == "float" else T("f", float(v))
            if exact and o == "uitofp" and s in ("i8", "i16", "i32", "i64"): v = T("urem", v, 1 << int(s[1:])) if s == "i64" else T("band", v, (1 << int(s[1:])) - 1)
            return f32(T("i2f", v)) if t == "float" else T("i2f", v)
        if o in ("fptosi", "fptoui"):
            if is_t(v, "f") and abs(v.a[0]) < 2**62: return int(v.a[0])
            if is_t(v, "i2f") and not exact: return v.a[0]
            return T("f2i", v, t)
        if o == "fptrunc" and t == "float": return f32(v)
        if o in ("fpext", "fptrunc"): return v
        return T("cast", o, v)

    # ------------------------------------------------------------ calls
    def call(self, st, i):
        """None: continue in place (frame pushed or value assigned)."""
        fr = st.frames[-1]
        args = [self.val(st, a) for a in i["a"]]
        f = i["f"]
        if f[0] == "g":
            fn = self.prog.fn(f[1])
            name = f[1]
        elif f[0] == "asm":
            return self.result(st, i, T("asm"))
        else:
            tgt = self.val(st, f)
            if is_t(tgt, "fn"):
                fn = self.prog.fn(tgt.a[0]); name = tgt.a[0]
                self.resolved += 1
            else:
                return self.indirect(st, i, tgt, args)
        return self.do_call(st, i, fn, name, args)

    def do_call(self, st, i, fn, name, args, tag=None):
        self.ncalls += 1
        # by-value aggregates are private copies
        for k in range(len(args)):
            n = i.get("byval%d" % k)
            if n:
                a = T("alloca", st.frames[-1].uid, st.frames[-1].blk, st.frames[-1].idx, k)
                for c in [c for c in st.mem if c[0] is a]: del st.mem[c]
                self.copy_range(st, a, args[k], n)
                st.alive.add(a)
                args = args[:k] + [a] + args[k + 1:]
        c = Call(); c.vm = self; c.st = st; c.fn = fn; c.args = args; c.inst = i
        c.sret = 1 if (i.get("sret") or (fn is not None and fn.sret)) else 0
        c.short = fn.short if fn is not None else name
        c.dem = fn.dem if fn is not None else name
        c.ptypes = fn.pt if fn is not None else []
        m = self.boundary.get(c.short)
        r = NotImplemented
        if m is not None: r = m(c)
        if r is NotImplemented:
            r = self.models(c)
        if r is not NotImplemented or fn is None or fn.decl:
            g = [base_off(a)[0] for a in args if is_t(a)]
            g = [b for b in g if is_t(b, "alloca") and b not in st.meta.get("given", ())]
            if g: st.meta["given"] = st.meta.get("given", frozenset()) | set(g)
        if r is not NotImplemented: return self.outcome(st, i, r)
        if fn is None or fn.decl:
            if i.get("nr") or (fn is not None and fn.nr):
                st.status = "abort"; st.why = c.short; return [st]
            self.unknown[c.dem] = self.unknown.get(c.dem, 0) + 1
            self.event(st, "ext", name=c.short, dem=c.dem, args=tuple(args))
            self.clobber(st, c)
            v = T("ret", c.short, self.fresh(st, "s"), *[a for a in args if isinstance(a, (Term, int))])
            if c.sret: self.store(st, args[0], T("retobj", v))
            return self.result(st, i, v)
        return self.inline(st, i, fn, args, tag)

    def clobber(self, st, c):
        """An unknown function may write what it is given pointers to."""
        ps = list(c.args)
        if c.sret: ps = ps[1:]
        body = c.dem.rstrip()
        par = self.opts["params"](c.dem) if "params" in self.opts else []
        k0 = len(ps) - len(par)
        for k, a in enumerate(ps):
            if not is_t(a): continue
            t = par[k - k0] if k >= k0 and par else ""
            if k < k0: const = body.endswith(" const")
            else: const = "const" in t or not par
            if const: continue
            if a.h in ("arg", "alloca", "new", "p", "fld", "elt", "sptr", "ld", "mv", "glob"):
                b, o = base_off(a)
                st.meta["vague"] = True
                if k < k0 and self.acc is not None and not re.search("atomic|mutex|once|condition|thread|lock", c.dem): self.acc(self, st, "w", b, o)
                if is_t(b) and b.h in ("alloca", "new") and not is_t(st.mem.get((b, "rng"))):
                    for cell in [x for x in st.mem if x[0] is b and is_c(x[1]) and x[1] >= (o if is_c(o) else 0)]:
                        st.mem[cell] = T("clob", c.short, self.fresh(st, "s"))
    def outcome(self, st, i, r):
        if isinstance(r, Abort):
            st.status = "abort"; st.why = r.why
            return [st]
        if isinstance(r, Inline): return self.inline(st, i, r.fn, r.args, r.tag)
        if isinstance(r, Forks):
            out = []
            for s2, v in r.lst:
                if isinstance(v, Abort):
                    s2.status = "abort"; s2.why = v.why; out.append(s2); continue
                x = self.inline(s2, i, v.fn, v.args, v.tag) if isinstance(v, Inline) else self.result(s2, i, v)
                out += [s2] if x is None else x
            return out
        return self.result(st, i, r)

    def inline(self, st, i, fn, args, tag=None):
        n = sum(1 for f in st.frames if f.fn is fn)
        if n >= self.rec_limit or len(st.frames) > 120:
            self.event(st, "recursion", fn=fn.short)
            st.status = "abort"; st.why = "recursion " + fn.short
            return [st]
        fr = st.frames[-1]
        self.push(st, fn, args, i, T("site", fr.uid, fr.blk, fr.idx, fn.name), tag)
        return None

    def result(self, st, i, v):
        fr = st.frames[-1]
        if "i" in i and i["o"] in ("call", "invoke"): fr.loc[i["i"]] = v if v is not None else T("undef")
        if i["o"] == "invoke":
            st.pending = i["n"]
            return [st]
        fr.idx += 1
        return None

    def ret(self, st, v):
        fr = st.frames.pop()
        if fr.tag is not None:
            v = fr.tag(self, st, v, fr)
            if isinstance(v, Inline):      # another call in the same place
                self.push(st, v.fn, v.args, fr.call, T("again", fr.uid), v.tag)
                for a in fr.allocs: st.alive.discard(a)
                return [st]
        for a in fr.allocs:
            st.alive.discard(a)
        if not st.frames:
            st.status = "ret"; st.ret = v
            return [st]
        if fr.allocs:
            dead = set(fr.allocs)
            for c in [c for c in st.mem if c[0] in dead]: del st.mem[c]
        r = self.result(st, fr.call, v)
        if r is None: return [st]
        return r

    def words(self, st, p):
        """The first four words of the object a parameter designates."""
        if not isinstance(p, Term): return None
        return tuple(self.load(st, P(p, o)) for o in (0, 8, 16, 24))
    def virtual(self, st, tgt):
        """(class, method) of a virtual call on an object of unknown dynamic type."""
        if not is_t(tgt, "ld"): return None
        b, o = base_off(tgt.a[0])
        if not is_c(o): return None
        ty = st.meta.get(("vt", b))
        if ty is None: return None
        cls = self.prog.ztypes[ty]
        c = self.prog.types.get(cls)
        n = (c or {}).get("v", {}).get(str(o // 8))
        return cls, n[0] if n else "slot%d" % (o // 8)
    def indirect(self, st, i, tgt, args):
        vc = self.virtual(st, tgt)
        if vc is not None:
            c = Call(); c.vm = self; c.st = st; c.fn = None; c.args = args; c.inst = i; c.sret = 1 if i.get("sret") else 0
            c.short = c.dem = "%s::%s" % vc; c.ptypes = []
            h = self.boundary.get(c.short)
            if h is None: h = self.boundary.get("*virtual")
            r = NotImplemented if h is None else h(c)
            if r is NotImplemented:
                this = args[1] if c.sret else args[0]
                xs = args[2:] if c.sret else args[1:]
                self.event(st, "vcall", cls=vc[0], method=vc[1], this=this, args=tuple(xs), vals=tuple(self.words(st, x) for x in xs),
                           argvals=tuple(self.load(st, x) if isinstance(x, Term) else x for x in xs), ret=None)
                v = T("ret", "vcall", self.fresh(st, "s"), vc[1])
                if c.sret: self.store(st, args[0], T("retobj", v)); v = T("retobj", v)
                st.events[-1].d["ret"] = v
                r = v
            return self.outcome(st, i, r)
        h = self.boundary.get("*indirect")
        if h is not None:
            r = h(self, st, i, tgt, args)
            if r is not NotImplemented: return self.outcome(st, i, r)
        self.event(st, "icall", target=tgt, args=tuple(args))
        v = T("ret", "icall", self.fresh(st, "s"), tgt)
        if i.get("sret"): self.store(st, args[0], T("retobj", v))
        return self.result(st, i, v)

import re
def seqof(n, x):
    ix = T("ix")
    if is_t(x, "at") and x.a[1] is ix and size(x.a[0]) is n and not mentions(x.a[0], ix): return x.a[0]
    return T("seqof", n, x)
terms.BUILD["seqof"] = seqof
