"""The analysed program: functions, globals, classes and their loops."""
import json, re
from terms import T

_short = {}
def short(dem):
    """The qualified name without template arguments, parameters and return type."""
    r = _short.get(dem)
    if r is None:
        r = _short[dem] = _mk_short(dem)
    return r

_OPS = ("operator<<=", "operator>>=", "operator<=>", "operator->*", "operator<<", "operator>>", "operator<=", "operator>=",
        "operator->", "operator<", "operator>", "operator()")
def _mk_short(s):
    s = s.replace("[abi:cxx11]", "").replace("(anonymous namespace)", "{anon}")
    out = []; i = 0; n = len(s); d = 0
    while i < n:
        c = s[i]
        if c == "o":
            for o in _OPS:
                if o in ("operator<<", "operator>>") and s.startswith(o, i) and s[i + 10:i + 11] not in ("(", "<"): continue
                if s.startswith(o, i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
                    if d == 0: out.append(o.replace("<", "\1").replace(">", "\2").replace("()", "\3"))
                    i += len(o); break
            else:
                if d == 0: out.append(c)
                i += 1
            continue
        if c == "<": d += 1
        elif c == ">" and s[i - 1] != "-": d -= 1
        elif d == 0 and c == "(":
            p = 0; j = i
            while j < n:
                if s[j] == "(": p += 1
                elif s[j] == ")":
                    p -= 1
                    if p == 0: break
                j += 1
            i = j + 1
            rest = s[i:]
            if out and "{lambda" in "".join(out[-12:]) and rest.startswith("#"): continue
            m = re.match(r"( const)?( &&?)?::", rest)
            if m: i += m.end() - 2; continue
            if rest.startswith("::"): continue
            break
        elif d == 0: out.append(c)
        i += 1
    r = "".join(out)
    k = r.find("operator")
    if k > 0 and (r[k - 1] in ": "):
        p = r[:k].rfind(" ")
        r = r[p + 1:]
    elif k != 0:
        r = r[r.rfind(" ") + 1:]
    return r.replace("\1", "<").replace("\2", ">").replace("\3", "()")

class Fn:
    __slots__ = ("name", "dem", "short", "decl", "rt", "sret", "nr", "file", "line", "sname", "root", "pt", "na", "at", "an",
                 "blocks", "_loops", "_succ", "phis")
    def __init__(self, name, d):
        self.name = name; self.dem = d["dem"]; self.short = short(d["dem"]); self.decl = d["decl"]; self.rt = d["rt"]
        self.sret = d.get("sret"); self.nr = d.get("nr"); self.file = d.get("file", ""); self.line = d.get("line", 0)
        self.sname = d.get("name", ""); self.root = d.get("root"); self.pt = d.get("pt", []); self.na = d["na"]; self.at = d["at"]
        self.an = dict((a, b) for a, b in d["an"]); self.blocks = d["blocks"]; self._loops = None; self._succ = None
    def succ(self):
        if self._succ is None:
            r = []
            for b in self.blocks:
                t = b[-1]; o = t["o"]
                if o == "br": r.append(list(t["s"]))
                elif o == "switch": r.append([t["def"]] + [c[1] for c in t["cs"]])
                elif o == "invoke": r.append([t["n"]])
                else: r.append([])
            self._succ = r
        return self._succ
    def loops(self):
        """header -> set of blocks, for natural loops (normal control flow only)."""
        if self._loops is not None: return self._loops
        succ = self.succ(); n = len(succ)
        order = []; seen = {0}; st = [(0, iter(succ[0]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse(); pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                if s in preds: preds[s].append(b)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]: x = idom[x]
                                while pos[y] > pos[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in idom and dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x)
                        w.extend(preds[x])
        self._loops = loops
        return loops

class ZTypes(dict):
    """Class of a type-test identifier (_ZTSN...E)."""
    def __missing__(self, z):
        s = z[4:] if z and z.startswith("_ZTS") else ""
        if s.startswith("N"): s = s[1:]
        out = []; i = 0
        while i < len(s) and s[i].isdigit():
            j = i
            while s[j].isdigit(): j += 1
            n = int(s[i:j]); out.append(s[j:j + n]); i = j + n
        r = self[z] = "::".join(out)
        return r

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {n: Fn(n, f) for n, f in d["functions"].items()}
        self.globals = d["globals"]; self.types = d["types"]; self.aliases = {}
        for n, t in d["aliases"].items():
            if t[0] == "g": self.aliases[n] = t[1]
        self.byshort = {}
        for f in self.fns.values(): self.byshort.setdefault(f.short, []).append(f)
        self.flat = {}
        self.ztypes = ZTypes()
        self.statics = {}       # (variable, offset) -> the value earlier calls left in it
        self._hk = {}
        self.left = set()       # values found by other processes
        self.hidden = {}        # (variable, offset) -> [conditions on it, values stored in it]
    def fn(self, name):
        k = 0
        while name in self.aliases and k < 10: name = self.aliases[name]; k += 1
        return self.fns.get(name)
    def find(self, sh, pred=None):
        return [f for f in self.byshort.get(sh, []) if not f.decl and (pred is None or pred(f))]
    def root_fns(self):
        return [f for f in self.fns.values() if f.root and not f.decl]
    # ---- data that outlives calls
    def mutable(self, name):
        g = self.globals.get(name)
        return bool(g and not g.get("const") and "init" in g and not name.startswith("_ZGV"))
    def hiddenkeys(self):
        if len(self._hk) != len(self.hidden): self._hk = {(T("glob", n), o): (n, o) for n, o in self.hidden}
        return self._hk
    def initially(self, name, o):
        c = self.glob_cells(name)
        if o in c: return c[o][1] if c[o][0] == "c" else None
        return 0 if any(isinstance(k, tuple) and k[1] <= o < k[1] + n for k, n in c.items()) else None
    # ---- constant data
    def glob_cells(self, name):
        """offset -> constant operand, for constant globals."""
        r = self.flat.get(name)
        if r is None:
            r = {}
            g = self.globals.get(name)
            if g and "init" in g: self._flat(g["init"], 0, r)
            self.flat[name] = r
        return r
    def _flat(self, c, off, out):
        k = c[0]
        if k == "a":
            for x in c[1:]:
                sz = self._size(x); al = self._align(x)
                off = (off + al - 1) // al * al
                self._flat(x, off, out); off += sz
        elif k == "s":
            for i, ch in enumerate(c[1]): out[off + i] = ["c", ord(ch), 8]
        elif k == "z": out[("z", off)] = c[1]
        else: out[off] = c
    def _size(self, c):
        k = c[0]
        if k == "a":
            o = 0; m = 1
            for x in c[1:]:
                al = self._align(x); m = max(m, al)
                o = (o + al - 1) // al * al + self._size(x)
            return (o + m - 1) // m * m
        if k == "s": return len(c[1])
        if k == "z": return c[1]
        if k == "c": return max(1, c[2] // 8)
        return 8
    def _align(self, c):
        k = c[0]
        if k == "a": return max([self._align(x) for x in c[1:]] or [1])
        if k == "s": return 1
        if k == "z": return 8 if c[1] % 8 == 0 else 4 if c[1] % 4 == 0 else 1
        if k == "c": return max(1, c[2] // 8)
        return 8
    # ---- classes
    def cls(self, name):
        return self.types.get(name)
    def fields(self, cname):
        """[(offset, name, type, owner)] of all members, bases included."""
        c = self.types.get(cname); r = []
        if not c: return r
        for off, b in c.get("b", []):
            r += [(off + o, n, t, ow) for o, n, t, ow in self.fields(b)]
        r += [(o, n, t, cname) for o, n, t, _ in c["m"]]
        return r
    def bases(self, cname):
        c = self.types.get(cname); r = []
        if not c: return r
        for off, b in c.get("b", []):
            r.append((off, b)); r += [(off + o, x) for o, x in self.bases(b)]
        return r
