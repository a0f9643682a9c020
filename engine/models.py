"""What the library types used by the code mean to the analysis.

Messages, strings, repeated fields, vectors, maps and sets are values held in
one cell per object; everything else of the standard library that is defined in
headers is analysed like the repository's own code."""
import os, re
from terms import *
import terms, descr
from vm import Inline, Forks, Abort, Ev

DESCR = descr.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), "protos"))
terms.DESCR = DESCR
BYCLS = DESCR
PB = "google::protobuf::"

# ------------------------------------------------------------------ names
_pcache = {}
def params(dem):
    """Top-level parameter types of a demangled name."""
    r = _pcache.get(dem)
    if r is not None: return r
    s = dem
    s = re.sub(r" \[clone .*\]$", "", s)
    s = re.sub(r"\)( const)?( &&?)?( noexcept)?$", ")", s)
    if not s.endswith(")"):
        _pcache[dem] = []; return []
    d = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ")": d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0: break
        i -= 1
    body = s[i + 1:-1]
    out = []; d = 0; cur = ""
    for j, ch in enumerate(body):
        if ch in "<([{": d += 1
        elif ch in ">)]}" and not (ch == ">" and body[j - 1:j] == "-"): d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    _pcache[dem] = out
    return out
def is_str(t): return t.startswith("std::__cxx11::basic_string<char") or t.startswith("std::basic_string<char")
def is_cstr(t): return t in ("char const*", "char*") or re.match(r"char const ?(\(&+\)|\s*&?)\s*\[\d+\]", t) is not None

# ------------------------------------------------------------------ strings
def sdata_of(c, p):
    """A pointer into a string object that may be written through, as its characters."""
    return T("sdata", c.vm.load(c.st, p.a[0]), p.a[1]) if is_t(p, "sptr") else p
def cstr_value(c, p):
    """The text a char pointer designates: up to the first zero byte."""
    p = sdata_of(c, p)
    if is_t(p, "sdata") and p.a[1] == 0: return T("cut0", p.a[0])
    if is_t(p, "sdata"): return T("substr", p.a[0], p.a[1])
    b, o = base_off(p)
    if is_t(b, "glob") and is_c(o):
        cells = c.vm.prog.glob_cells(b.a[0]); s = ""
        while o in cells:
            ch = cells[o]
            if ch[0] != "c" or ch[1] == 0: return T("str", s)
            s += chr(ch[1] & 255); o += 1
        if ("z", 0) in cells or o > 0: return T("str", s)
    return T("cstr", p)
def mkbytes(c, p, n):
    p = sdata_of(c, p)
    if is_t(p, "sdata") and p.a[1] == 0:
        if n is slen(p.a[0]): return p.a[0]
        if n is slen(T("cut0", p.a[0])): return T("cut0", p.a[0])
        return T("sub0", p.a[0], n)
    s = cstr_value(c, p)
    if is_t(s, "str") and is_c(n):
        if n == len(s.a[0]): return s
        if n < len(s.a[0]): return T("str", s.a[0][:n])
    if is_t(s, "cstr"):
        v = c.vm.load(c.st, p)
        if is_t(v, "md5sum"): return T("bytes", v, n)
        return T("bytes", s.a[0], n)
    return T("sub0", s, n)
def chars_between(p, q):
    """The number of characters from p to q of the same object."""
    if is_t(p, "sptr") and is_t(q, "sptr"): return sub(q.a[1], p.a[1]) if p.a[0] is q.a[0] else None
    if is_t(p, "sdata") and is_t(q, "sdata"): return sub(q.a[1], p.a[1]) if p.a[0] is q.a[0] else None
    b, o = base_off(p); d, e = base_off(q)
    return sub(e, o) if b is d else None
def scat(*xs):
    out = []
    for x in xs:
        for y in (x.a if is_t(x, "scat") else (x,)):
            if y is EMPTYSTR: continue
            if out and is_t(out[-1], "str") and is_t(y, "str"): out[-1] = T("str", out[-1].a[0] + y.a[0])
            else: out.append(y)
    return EMPTYSTR if not out else out[0] if len(out) == 1 else T("scat", *out)
terms.BUILD["scat"] = scat
def substr(s, pos, n=None):
    """n characters of s from pos on (to its end if n is None or -1)."""
    if is_c(n) and n < 0: n = None
    if is_t(s, "str") and is_c(pos) and (n is None or is_c(n)) and 0 <= pos: return T("str", s.a[0][pos:] if n is None else s.a[0][pos:pos + n])
    if n is None: return s if pos == 0 else T("substr", s, pos)
    if pos == 0 and n is slen(s): return s
    if n == 0: return EMPTYSTR
    return T("substr", s, pos, n)
terms.BUILD["substr"] = substr

def string_method(c, m):
    st, vm = c.st, c.vm
    p = params(c.dem); a = c.args
    if c.sret: out, a = a[0], a[1:]
    this = a[0]
    R = lambda x: vm.load(st, x)
    W = lambda x, v: vm.store(st, x, v)
    def sarg(i):
        """String value of the i-th explicit parameter."""
        if is_str(p[i]): return R(a[i + 1])
        if p[i] in ("char",): return T("ch", a[i + 1])
        return cstr_value(c, a[i + 1])
    if m == "basic_string":
        if not p or p[0].startswith("std::allocator"): W(this, EMPTYSTR)
        elif is_str(p[0]):
            v = R(a[1])
            if len(p) >= 2 and "unsigned long" in p[1]: v = T("substr", v, a[2], *(a[3:4] if len(p) > 2 and "long" in p[2] else ()))
            elif p[0].endswith("&&"): pass
            W(this, v)
        elif is_cstr(p[0]) and len(p) > 1 and is_cstr(p[1]):       # [first, last)
            n = chars_between(a[1], a[2]); W(this, mkbytes(c, a[1], n) if n is not None else T("strfrom", a[1], a[2]))
        elif is_cstr(p[0]):
            W(this, mkbytes(c, a[1], a[2]) if len(p) > 1 and p[1] == "unsigned long" else cstr_value(c, a[1]))
        elif p[0] == "unsigned long": W(this, T("fillstr", a[1], a[2]))
        elif p[0].startswith("std::initializer_list"): W(this, T("strof", a[1], a[2]))
        else: W(this, T("strfrom", *a[1:]))
        return None
    if m == "~basic_string": return None
    if m in ("operator=", "assign"):
        if len(p) > 1 and is_cstr(p[0]) and is_cstr(p[1]):
            n = chars_between(a[1], a[2]); W(this, mkbytes(c, a[1], n) if n is not None else T("strfrom", a[1], a[2]))
        elif len(p) > 1 and is_cstr(p[0]): W(this, mkbytes(c, a[1], a[2]))
        else: W(this, sarg(0))
        return this
    if m in ("operator+=", "append", "push_back"):
        n = chars_between(a[1], a[2]) if len(p) > 1 and is_cstr(p[0]) and is_cstr(p[1]) else None
        v = mkbytes(c, a[1], n) if n is not None else mkbytes(c, a[1], a[2]) if len(p) > 1 and is_cstr(p[0]) and "long" in p[1] else T("fillstr", a[1], a[2]) if len(p) > 1 and p[0] == "unsigned long" else sarg(0)
        W(this, scat(R(this), v)); return this
    con = c.dem.rstrip().endswith(" const")
    at = lambda o: T("sdata", R(this), o) if con else T("sptr", this, o)
    if m in ("c_str", "data", "_M_data", "begin"): return at(0)
    if m == "cbegin": return T("sdata", R(this), 0)
    if m == "end": return at(slen(R(this)))
    if m == "cend": return T("sdata", R(this), slen(R(this)))
    if m in ("size", "length"): return slen(R(this))
    if m == "empty": return seq(R(this), EMPTYSTR)
    if m in ("operator[]", "at"): return at(a[1])
    if m == "front": return at(0)
    if m == "back": return at(sub(slen(R(this)), 1))
    if m == "clear": W(this, EMPTYSTR); return None
    if m in ("reserve", "shrink_to_fit"): return None
    if m == "capacity": return T("capacity", R(this))
    if m == "swap":
        x, y = R(this), R(a[1]); W(this, y); W(a[1], x); return None
    if m == "substr": W(out, substr(R(this), *a[1:])); return None
    if m == "pop_back": W(this, substr(R(this), 0, sub(slen(R(this)), 1))); return None
    if m == "resize":
        s = R(this); n = a[1]
        W(this, T("sresize", s, n, a[2] if len(a) > 2 else 0)); return None
    def tail(k):
        """The text given by the parameters from the k-th on."""
        if is_str(p[k]):
            return R(a[k + 1]) if len(p) == k + 1 else substr(R(a[k + 1]), *a[k + 2:])
        if is_cstr(p[k]):
            if len(p) == k + 1: return cstr_value(c, a[k + 1])
            if is_cstr(p[k + 1]):
                n = chars_between(a[k + 1], a[k + 2]); return mkbytes(c, a[k + 1], n) if n is not None else None
            return mkbytes(c, a[k + 1], a[k + 2])
        if p[k] == "unsigned long" and len(p) == k + 2: return T("fillstr", a[k + 1], a[k + 2])
        if p[k] == "char" and len(p) == k + 1: return T("ch", a[k + 1])
        return None
    def place(x):
        """The offset of an iterator into this string."""
        return x.a[1] if is_t(x, "sptr") and x.a[0] is this or is_t(x, "sdata") and x.a[0] is R(this) else None
    isit = lambda t: "__normal_iterator" in t
    if m == "erase":
        s = R(this)
        if p and isit(p[0]):
            i = place(a[1]); n = 1 if len(p) == 1 else chars_between(a[1], a[2])
            if i is None or n is None: return NotImplemented
            W(this, scat(substr(s, 0, i), substr(s, add(i, n)))); return T("sptr", this, i)
        i = a[1] if len(a) > 1 else 0; n = a[2] if len(a) > 2 else -1
        W(this, substr(s, 0, i) if is_c(n) and n < 0 else scat(substr(s, 0, i), substr(s, add(i, n)))); return this
    if m == "insert":
        s = R(this); i = place(a[1]) if isit(p[0]) else a[1]; t = tail(1)
        if i is None or t is None: return NotImplemented
        W(this, scat(substr(s, 0, i), t, substr(s, i))); return T("sptr", this, i) if isit(p[0]) else this
    if m == "replace":
        s = R(this)
        if isit(p[0]): i = place(a[1]); n = chars_between(a[1], a[2])
        else: i, n = a[1], a[2]
        t = tail(2)
        if i is None or n is None or t is None: return NotImplemented
        W(this, substr(s, 0, i) if 0 else scat(substr(s, 0, i), t, EMPTYSTR if is_c(n) and n < 0 else substr(s, add(i, n)))); return this
    if m == "compare":
        if len(p) == 1: return T("scmp", R(this), sarg(0))
        x = substr(R(this), a[1], a[2]); t = tail(2)
        return NotImplemented if t is None else T("scmp", x, t)
    if m in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
        t = mkbytes(c, a[1], a[3]) if is_cstr(p[0]) and len(p) > 2 else sarg(0)
        return T("sfind", m, R(this), t, *a[2:3])
    return NotImplemented

# ------------------------------------------------------------------ messages
def msg_method(c, cls, m):
    st, vm = c.st, c.vm
    d = DESCR[cls]; F = d["fields"]
    a = c.args
    if c.sret and not (m == cls.split("::")[-1]): out, a = a[0], a[1:]
    this = a[0]
    p = params(c.dem)
    R = lambda x: vm.load(st, x)
    W = lambda x, v: vm.store(st, x, v)
    base = cls.split("::")[-1]
    if m == base:
        if not p or "Arena*" in p[0]: W(this, empty(cls))
        else: W(this, R(a[1]))
        return None
    if m == "~" + base: return None
    if m in ("operator=", "CopyFrom"):
        W(this, R(a[1])); return this
    if m == "MergeFrom": W(this, mergefrom(R(this), R(a[1]), cls)); return None
    if m == "Clear": W(this, empty(cls)); return None
    if m in ("Swap", "swap", "InternalSwap", "UnsafeArenaSwap"):
        if m == "swap" and len(p) == 2: pass
        x, y = R(this), R(a[1]); W(this, y); W(a[1], x); return None
    if m == "default_instance": return T("glob", "default:" + cls)
    if m.endswith("_case") and m[:-5] in d["oneofs"]:
        return get(R(this), "case:" + m[:-5])
    if m.startswith("clear_") and m[6:] in d["oneofs"]:
        W(this, T("clearoneof", R(this), m[6:])); return None
    for pre in ("", "has_", "set_allocated_", "set_", "mutable_", "add_", "clear_", "release_"):
        if not m.startswith(pre): continue
        f = m[len(pre):]
        fd = F.get(f)
        sz = False
        if fd is None and pre == "" and f.endswith("_size"): fd = F.get(f[:-5]); f = f[:-5]; sz = True
        if fd is None: continue
        rep = fd["label"] == 3
        one = d["oneofs"][fd["oneof"]] if fd["oneof"] is not None and not fd["opt3"] else None
        if sz: return size(get(R(this), f))
        if pre == "":
            if rep and not fd["ismap"] and len(a) > 1:      # x(i)
                q = T("fld", this, f)
                if fd["type"] in (11, 9, 12):
                    if vm.acc is not None: R(this)
                    return T("elt", q, a[1])
                return at(get(R(this), f), a[1])
            if rep or fd["type"] in (11, 9, 12):
                if vm.acc is not None: R(this)       # reads where the field is
                return T("fld", this, f)
            return get(R(this), f)
        if pre == "has_":
            if one: return eq(get(R(this), "case:" + one), fd["num"])
            return has(R(this), f)
        if pre == "set_":
            v = R(this)
            if rep:      # set_x(i, v)
                x = R(a[2]) if fd["type"] == 9 and is_str(p[1]) else cstr_value(c, a[2]) if fd["type"] == 9 else a[2]
                vm.event(st, "setat", msg=this, cls=cls, field=f, index=a[1], val=x, old=at(get(v, f), a[1]), list=get(v, f))
                W(this, upd(v, f, setat(get(v, f), a[1], x))); return None
            if fd["type"] in (9, 12):
                if is_str(p[0]): x = R(a[1])
                elif len(a) > 2 and is_c(a[2]) or (len(p) > 1 and "long" in p[1]): x = mkbytes(c, a[1], a[2])
                else: x = cstr_value(c, a[1])
            else: x = a[1]
            v = upd(v, f, x)
            if one: v = upd(v, "case:" + one, fd["num"])
            if fd["opt3"]: v = upd(v, "has:" + f, 1)
            W(this, v); return None
        if pre == "mutable_":
            if rep and len(a) > 1: return T("elt", T("fld", this, f, "m"), a[1])
            if rep: return T("fld", this, f)
            if one:
                def arm(s, keep):
                    v = vm.load(s, this)
                    if not keep: v = upd(upd(v, f, empty(fd["msg"]) if fd["msg"] else EMPTYSTR), "case:" + one, fd["num"])
                    vm.store(s, this, v)
                    return T("fld", this, f)
                cond = eq(get(R(this), "case:" + one), fd["num"])
                return Forks([(s, arm(s, b)) for s, b in vm.fork(st, cond)])
            if fd["type"] == 11:
                W(this, upd(R(this), "has:" + f, 1))
                return T("fld", this, f, "m")
            return T("fld", this, f)
        if pre == "add_":
            v = R(this); l = get(v, f)
            if len(a) > 1:
                x = a[1]
                if fd["type"] in (9, 12): x = R(a[1]) if is_str(p[0]) else cstr_value(c, a[1])
                W(this, upd(v, f, append(l, x))); return None
            W(this, upd(v, f, append(l, empty(fd["msg"]) if fd["msg"] else EMPTYSTR)))
            return T("elt", T("fld", this, f), size(l))
        if pre == "clear_":
            v = R(this)
            if one: W(this, T("clearoneof", v, one)); return None
            v = upd(v, f, default_of(cls, f))
            if fd["type"] == 11 and not rep: v = upd(v, "has:" + f, 0)
            W(this, v); return None
        if pre == "set_allocated_":
            v = upd(R(this), f, R(a[1])); v = upd(v, "has:" + f, 1)
            vm.event(st, "owned", ptr=a[1])
            W(this, v); return None
        if pre == "release_":
            x = T("new", vm.fresh(st, "s")); st.alive.add(x)
            W(x, get(R(this), f)); v = upd(R(this), f, default_of(cls, f)); W(this, upd(v, "has:" + f, 0))
            return x
    return NotImplemented

# ------------------------------------------------------------------ repeated fields and vectors
def elem_is_ref(cls_dem):
    return True
def list_method(c, kind, m):
    """vector, RepeatedPtrField and RepeatedField as list values."""
    st, vm = c.st, c.vm
    a = c.args; out = None
    if c.sret: out, a = a[0], a[1:]
    this = a[0]; p = params(c.dem)
    R = lambda x: vm.load(st, x)
    W = lambda x, v: vm.store(st, x, v)
    et = elem_type(c.dem)
    prim = et in ("double", "long", "int", "float", "bool", "unsigned long", "unsigned int", "char", "unsigned char")
    raw = kind == "RepeatedField"
    def it(i): return T("iter", this, i, 8 if et in ("double", "long", "unsigned long") else 4) if raw else iter_(this, i)
    def elem(i):
        return T("elt", this, i)
    if m in (kind, ):
        if not p or p[0].startswith("std::allocator") or "Arena*" in p[0] or "Arena *" in p[0]: W(this, NIL)
        elif "initializer_list" in p[0]: W(this, T("listof", *a[1:3]))
        elif kind in p[0] or "vector" in p[0]:
            W(this, R(a[1]))
            if p[0].endswith("&&"): W(a[1], NIL)
        elif p[0] == "unsigned long": W(this, T("resized", NIL, a[1], R(a[2]) if len(p) > 1 and p[1].endswith("const&") else 0))
        elif is_t(a[1], "iter") and len(a) > 2 and is_t(a[2], "iter"): W(this, span(c, a[1], a[2]))
        else: W(this, T("list_from", *a[1:]))
        return None
    if m == "~" + kind: return None
    if m in ("size", "Capacity", "capacity"): return size(R(this))
    if m == "empty": return eq(size(R(this)), 0)
    if m in ("begin", "cbegin", "pointer_begin"): return it(0)
    if m in ("end", "cend", "pointer_end"): return it(size(R(this)))
    if m in ("rbegin", "rend", "crbegin", "crend"): return NotImplemented
    if m in ("operator[]", "at", "Get", "Mutable"):
        if m == "at": vm.event(st, "at", list=R(this), index=a[1])
        if m == "Get" and kind == "RepeatedField": pass
        return elem(a[1])
    if m == "front": return elem(0)
    if m in ("back",): return elem(sub(size(R(this)), 1))
    if m == "data" or m == "mutable_data":
        return T("iter", this, 0, 8) if prim else NotImplemented
    if m in ("push_back", "emplace_back", "Add"):
        l = R(this)
        if len(a) == 1:
            W(this, append(l, empty(et) if et in DESCR else EMPTYSTR if "basic_string" in et else 0)); return elem(size(l))
        v = a[1] if (raw and not (p and p[0].endswith("&"))) else R(a[1])
        if p and p[0] == et and prim: v = a[1]
        W(this, append(l, v))
        return elem(size(l))
    if m == "AddAllocated" or m == "UnsafeArenaAddAllocated":
        W(this, append(R(this), R(a[1]))); return None
    if m in ("clear", "Clear"): W(this, NIL); return None
    if m in ("pop_back", "RemoveLast"):
        l = R(this); W(this, l.a[0] if is_t(l, "append") else T("butlast", l)); return None
    if m in ("reserve", "Reserve", "shrink_to_fit"): return None
    if m in ("resize", "Resize"):
        x = a[2] if len(a) > 2 else 0
        if len(p) > 1 and p[1].endswith("&"): x = R(a[2])
        W(this, T("resized", NIL if R(this) is NIL else R(this), a[1], x))
        vm.event(st, "resize", list=this, n=a[1], val=x)
        return None
    if m == "Set":
        l = R(this); v = R(a[2]) if p[1].endswith("&") else a[2]
        vm.event(st, "setat", msg=this, cls=kind, field="", index=a[1], val=v, old=at(l, a[1]), list=l)
        W(this, setat(l, a[1], v)); return None
    if m in ("operator=", "CopyFrom"):
        W(this, R(a[1]))
        if p and p[0].endswith("&&"): W(a[1], NIL)
        return this
    if m == "assign" and len(a) > 2 and is_t(a[1], "iter") and is_t(a[2], "iter"):
        W(this, span(c, a[1], a[2])); return None
    if m == "MergeFrom": W(this, concat(R(this), R(a[1]))); return None
    if m in ("swap", "Swap"):
        x, y = R(this), R(a[1]); W(this, y); W(a[1], x); return None
    if m == "insert" and len(a) > 3 and is_t(a[2], "iter") and is_t(a[3], "iter"):
        pos = a[1]
        if is_t(pos, "iter") and pos.a[1] is size(R(this)): W(this, concat(R(this), span(c, a[2], a[3]))); return iter_(this, 0)
    return NotImplemented
def span(c, b, e):
    if b.a[0] is e.a[0]:
        l = c.vm.load(c.st, b.a[0])
        if b.a[1] == 0 and e.a[1] is size(l): return l
        return T("slice", l, b.a[1], e.a[1])
    return T("span", b, e)
_ecache = {}
def elem_type(dem):
    r = _ecache.get(dem)
    if r is None:
        m = re.search(r"(?:std::vector|RepeatedPtrField|RepeatedField)<", dem)
        r = ""
        if m:
            i = m.end(); d = 0; j = i
            while j < len(dem):
                ch = dem[j]
                if ch in "<(": d += 1
                if ch in ">)":
                    if d == 0: break
                    d -= 1
                if ch == "," and d == 0: break
                j += 1
            r = dem[i:j]
        _ecache[dem] = r
    return r

def stream(c, m, a):
    """String streams: the text written so far is kept with the object."""
    vm, st = c.vm, c.st; p = params(c.dem)
    this = a[1] if c.sret else a[0] if a else None
    b, o = base_off(this) if isinstance(this, Term) else (None, 0)
    if m in ("basic_stringstream", "basic_ostringstream") and o == 0 and is_t(b) and b.h in ("alloca", "new"):
        t = EMPTYSTR
        if len(a) > 1 and p and is_str(p[0]): t = vm.load(st, a[1])
        st.mem[(b, "text")] = t
        return None
    if vm.acc is not None and is_t(b) and o == 0 and (m in ("operator<<", "operator>>", "write", "put", "seekp") or m == "str" and len(a) > 1 + c.sret): vm.acc(vm, st, "w", b, 0)
    t = st.mem.get((b, "text")) if is_t(b) else None
    if m == "str":
        if c.sret: vm.store(st, a[0], t if t is not None else T("sstr", vm.load(st, this), vm.fresh(st, "s")))
        elif t is not None: st.mem[(b, "text")] = vm.load(st, a[1]) if len(a) > 1 and p and is_str(p[0]) else T("sstr", vm.fresh(st, "s"))
        return None
    if m == "operator<<" and t is not None and len(a) > 1:
        q = p[-1] if p else ""
        x = vm.load(st, a[1]) if is_str(q) else T("ch", a[1]) if q == "char" else cstr_value(c, a[1]) if q in ("char const*", "char*") else T("text", q, a[1])
        if "(*)" in q and "endl" in show(a[1]): x = T("str", "\n")
        st.mem[(b, "text")] = scat(t, x)
    elif t is not None and m in ("write", "put", "rdbuf", "seekp"): st.mem[(b, "text")] = T("sstr", t, vm.fresh(st, "s"))
    return a[0] if a else None

# ------------------------------------------------------------------ maps and sets
_tp = {}
def tparams(dem, cls):
    r = _tp.get((dem, cls))
    if r is None: r = _tp[(dem, cls)] = _tparams(dem, cls)
    return list(r)
def _tparams(dem, cls):
    i = dem.find(cls + "<")
    if i < 0: return []
    i += len(cls) + 1
    out = []; d = 0; cur = ""
    while i < len(dem):
        ch = dem[i]
        if ch in "<(": d += 1
        if ch in ">)":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
        i += 1
    out.append(cur.strip())
    return out
ORD = ("std::map", "std::set", "std::multimap", "std::multiset")
def default_elem(ty):
    if ty in DESCR: return empty(ty)
    if "unordered_map<" in ty[:25] or ty.startswith("std::map<") or ty.startswith("std::set<") or ty.startswith("std::unordered_set<"): return EMPTYMAP
    if ty.startswith("std::__cxx11::basic_string"): return EMPTYSTR
    if ty.startswith("std::vector<"): return NIL
    if ty in ("double", "float"): return T("f", 0.0)
    return 0
def map_method(c, full, m):
    st, vm = c.st, c.vm
    a = c.args; out = None
    kind = full.split("::")[-1]
    if c.sret: out, a = a[0], a[1:]
    this = a[0]; p = params(c.dem)
    R = lambda x: vm.load(st, x)
    W = lambda x, v: vm.store(st, x, v)
    isset = kind.endswith("set")
    o = full in ORD
    if o: st.meta[("ord", this)] = 1
    tp = tparams(c.dem, full)
    def kval(x): return R(x)
    def ival(x): return x if is_t(x, "iter") else R(x) if isinstance(x, Term) else x
    def it(i):
        v = T("iter", this, i)
        if out is not None and ("iterator" in (c.fn.pt[0] if c.fn is not None and c.fn.pt else "")):
            W(out, v); return None
        return v
    def from_range():
        b, e = ival(a[1]), ival(a[2]); src = R(b.a[0])
        whole = b.a[0] is e.a[0] and b.a[1] == 0 and e.a[1] is size(src)
        if not whole: src = T("range", src, b.a[1], e.a[1])
        ismap = "Map<" in p[0] or "map<" in p[0] or "_Rb_tree" in p[0] or "_Node" in p[0]
        return T("setof", src) if isset else src if ismap else T("mapof", src)
    if m == "insert" and len(a) == 3 and len(p) == 2 and p[0] == p[1] and is_t(ival(a[1]), "iter") and is_t(ival(a[2]), "iter"):
        x = from_range(); old = R(this)
        W(this, x if old is EMPTYMAP else T("mapunion", old, x)); return None
    if m == kind:
        if not p or p[0].startswith("std::allocator") or "Arena" in p[0] or "unsigned long" == p[0] or p[0].startswith("std::less"): W(this, EMPTYMAP)
        elif kind + "<" in p[0]:
            W(this, R(a[1]))
            if p[0].endswith("&&"): W(a[1], EMPTYMAP)
        elif len(a) > 2 and is_t(ival(a[1]), "iter") and is_t(ival(a[2]), "iter"):
            W(this, from_range())
        elif "RepeatedPtrIterator" in c.dem or "initializer_list" in p[0]: W(this, T("map_from", *a[1:]))
        elif full == PB + "Map" and len(p) == 1: W(this, R(a[1]))
        else: W(this, EMPTYMAP if all("allocator" in q or "hash" in q or "equal_to" in q or q == "unsigned long" for q in p) else T("map_from", *a[1:]))
        return None
    if m == "~" + kind: return None
    if m in ("begin", "cbegin"): return it(0)
    if m in ("end", "cend"): return it(size(R(this)))
    if m == "size": return size(R(this))
    if m == "empty": return eq(size(R(this)), 0)
    if m == "find": return it(T("found", R(this), kval(a[1])))
    if m in ("count", "contains"): return mhas(R(this), kval(a[1]))
    if m in ("operator[]",):
        k = kval(a[1])
        outs = []
        for s, b in vm.fork(st, mhas(R(this), k)):
            mm = vm.load(s, this)
            if not b: vm.store(s, this, mput(mm, k, default_elem(tp[1] if len(tp) > 1 else "")))
            outs.append((s, T("mv", this, k)))
        return Forks(outs)
    if m == "at": return T("mv", this, kval(a[1]))
    if m in ("insert", "emplace", "try_emplace", "insert_or_assign"):
        # (key, value) pieces
        if isset:
            k, v = kval(a[1]), 1
        if isset and len(a) == 2:      # inserting what is there changes nothing
            mm = R(this)
            r = T("agg", T("iter", this, T("found", mput(mm, k, 1), k)), not_(mhas(mm, k)))
            W(this, mput(mm, k, 1))
            if out is not None:
                W(out, r.a[0]); W(P(out, 8), r.a[1]); r = None
            return r
        if isset: pass
        elif m == "insert" and len(a) == 2:
            q = a[1]
            k = vm.load(st, q); vo = pair_second(p[0] if p else "", c)
            v = vm.load(st, P(q, vo))
        elif m != "insert" and len(a) == 3:
            k = kval(a[1]) if is_str(p[0]) else (cstr_value(c, a[1]) if is_cstr(p[0]) else R(a[1])); v = R(a[2])
        elif m == "try_emplace" and len(a) == 2:
            k = kval(a[1]); v = default_elem(tp[1])
        elif m == "emplace" and len(a) == 2:
            q = a[1]; k = vm.load(st, q); v = vm.load(st, P(q, 32))
        elif len(a) == 3 and is_t(a[1], "iter") and m == "insert" and isset: k, v = kval(a[2]), 1
        else: return NotImplemented
        outs = []
        for s, b in vm.fork(st, mhas(R(this), k)):
            mm = vm.load(s, this)
            if not b or m == "insert_or_assign": vm.store(s, this, mput(mm, k, v))
            r = T("agg", T("iter", this, T("found", vm.load(s, this), k)), 0 if b else 1)
            if out is not None:
                vm.store(s, out, r.a[0]); vm.store(s, P(out, 8), r.a[1]); r = None
            outs.append((s, r))
        return Forks(outs)
    if m == "erase":
        x = a[1]
        if is_t(x, "iter"):
            i = x.a[1]
            k = i.a[1] if is_t(i, "found") else keyat("keyat", R(this), i)
            vm.event(st, "erase", map=this, key=k)
            if len(a) > 2: W(this, EMPTYMAP if a[1].a[1] == 0 else T("mdelrange", R(this), a[1], a[2])); return a[2]
            es = entries(R(this)); pos = next((j for j in range(len(es or ())) if keyat("keyat", R(this), j) is k), None)
            W(this, mdel(R(this), k)); return T("iter", this, T("next", i) if pos is None else pos)
        k = kval(x)
        vm.event(st, "erase", map=this, key=k)
        h = mhas(R(this), k)
        W(this, mdel(R(this), k)); return h
    if m == "clear": W(this, EMPTYMAP); return None
    if m in ("operator=",):
        W(this, R(a[1]))
        if p and p[0].endswith("&&"): W(a[1], EMPTYMAP)
        return this
    if m == "swap":
        x, y = R(this), R(a[1]); W(this, y); W(a[1], x); return None
    if m in ("reserve", "rehash", "max_load_factor"): return None
    return NotImplemented
def pair_second(t, c):
    return 32 if "pair<std::__cxx11::basic_string" in t or "pair<const std::__cxx11" in t or "basic_string" in t.split(",")[0] else 8

# ------------------------------------------------------------------ iterators
def deref(c, itv, arrow=False):
    vm, st = c.vm, c.st
    if not is_t(itv, "iter"): return None
    C, i = itv.a[0], itv.a[1]
    s = c.short
    if "Node_" in s or "Rb_tree" in s or "Map::" in s:
        o = ("ord", C) in st.meta
        m = vm.load(st, C)
        k = i.a[1] if is_t(i, "found") else keyat("okeyat" if o else "keyat", m, i)
        return T("ent", C, k)
    return T("elt", C, i)
def adv(i, d):
    if is_t(i, "found"): return T("after", i)
    return add(i, d)
ITER = re.compile(r"(RepeatedPtrIterator|RepeatedIterator|__normal_iterator|_Node_iterator|_Node_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|Map::const_iterator|Map::iterator|move_iterator|_Node_iterator_base|RepeatedPtrOverPtrsIterator)::(.*)$")
CHARIT = re.compile(r"__normal_iterator<char( const)?\*")
def iter_method(c, cls, m):
    vm, st = c.vm, c.st
    a = c.args; out = None
    if c.sret: out, a = a[0], a[1:]
    R = lambda x: vm.load(st, x)
    if m.startswith("operator"):
        v = R(a[0])
        if CHARIT.search(c.dem):      # a character pointer
            if m in ("operator*", "operator->"): return v
            if m in ("operator++", "operator--"):
                nv = P(v, 1 if m == "operator++" else -1); vm.store(st, a[0], nv)
                if len(a) <= 1: return a[0]
                if out is not None: vm.store(st, out, v); return None
                return v
            if m in ("operator+", "operator-"):
                nv = P(v, a[1] if m == "operator+" else neg(a[1]))
                if out is not None: vm.store(st, out, nv); return None
                return nv
            if m in ("operator+=", "operator-="): vm.store(st, a[0], P(v, a[1] if m == "operator+=" else neg(a[1]))); return a[0]
            if m == "operator[]": return P(v, a[1])
        if not is_t(v, "iter"):
            # a position of an unknown container (a value): keep it symbolic
            if m in ("operator*", "operator->"): return T("star", v)
        if m in ("operator*", "operator->"):
            r = deref(c, v); return r if r is not None else T("star", v)
        if m in ("operator++", "operator--"):
            d = 1 if m == "operator++" else -1
            nv = T("iter", v.a[0], adv(v.a[1], d), *v.a[2:]) if is_t(v, "iter") else T("inc", v, d)
            post = len(a) > 1
            vm.store(st, a[0], nv)
            if post:
                if out is not None: vm.store(st, out, v); return None
                return v
            return a[0]
        if m in ("operator+", "operator-") and is_t(v, "iter"):
            x = a[1]
            if not (is_c(x) or not is_t(x, "alloca")): return NotImplemented
            return T("iter", v.a[0], add(v.a[1], x if m == "operator+" else neg(x)), *v.a[2:])
        if m in ("operator+=", "operator-=") and is_t(v, "iter"):
            vm.store(st, a[0], T("iter", v.a[0], add(v.a[1], a[1] if m == "operator+=" else neg(a[1])), *v.a[2:])); return a[0]
        if m == "operator[]" and is_t(v, "iter"): return T("elt", v.a[0], add(v.a[1], a[1]))
        if m in ("operator==", "operator!="):
            w = R(a[1]); r = eq(v, w)
            return r if m == "operator==" else not_(r)
        if m == "operator=":
            vm.store(st, a[0], R(a[1])); return a[0]
        return NotImplemented
    if m == "base": return a[0]
    base = cls.split("::")[-1]
    if m == base:
        if len(a) == 1: vm.store(st, a[0], 0)
        else:
            x = a[1]
            p = params(c.dem)
            vm.store(st, a[0], R(x) if p and p[0].endswith("&") else x)
        return None
    if m.startswith("~"): return None
    return NotImplemented

# ------------------------------------------------------------------ misc library
def is_fn_null(v): return eq(v, 0)

NOOPS = set("""google::protobuf::internal::LogFinisher::operator= google::protobuf::internal::LogMessage::operator<<
google::protobuf::internal::LogMessage::~LogMessage google::protobuf::internal::LogFinisher::LogFinisher
std::allocator::allocator std::allocator::~allocator std::ios_base::Init::Init std::ios_base::Init::~Init
llvm.lifetime.start.p0 llvm.lifetime.end.p0 llvm.dbg.declare llvm.dbg.value llvm.assume
std::__new_allocator::__new_allocator std::__new_allocator::~__new_allocator std::random_device::random_device
google::protobuf::internal::VerifyVersion __cxa_guard_release __cxa_free_exception __cxa_atexit""".split())
OSTR = re.compile(r"std::(__cxx11::)?(basic_)?(o|i|)(string)?stream(buf)?::|std::ios_base::|std::basic_ios::|std::ios::|std::basic_ostream::|std::basic_iostream::|std::ostream::")

def status_term(code, msg=None): return T("stv", code)
def scode(v):
    if is_t(v, "stv"): return v.a[0]
    return T("scode", v)
terms.BUILD["scode"] = scode

def read_vec(c, p): return c.vm.load(c.st, p)

def models(c):
    vm, st = c.vm, c.st
    s = c.short; a = c.args
    R = lambda x: vm.load(st, x)
    W = lambda x, v: vm.store(st, x, v)
    if s in NOOPS or s.startswith("llvm.lifetime") or s.startswith("llvm.dbg"): return a[0] if a else None
    if s.startswith("llvm."):
        if s.startswith(("llvm.memcpy", "llvm.memmove")):
            vm.copy_range(st, a[0], a[1], a[2]); return None
        if s.startswith("llvm.memset"):
            return memset(c)
        if s == "llvm.type.test":
            if is_t(a[0]): st.meta[("vt", a[0])] = a[1].a[0] if is_t(a[1], "md") else None
            return 1
        if s == "llvm.trap": return Abort("trap")
        if s.startswith("llvm.threadlocal.address") or s.startswith("llvm.expect") or s.startswith("llvm.launder") or s.startswith("llvm.strip"): return a[0]
        if s.startswith(("llvm.floor", "llvm.ceil", "llvm.fabs", "llvm.log2", "llvm.sqrt", "llvm.fmuladd", "llvm.trunc.f", "llvm.round")):
            return T(s.split(".")[1], *a)
        m = re.match(r"llvm\.([su])(add|sub|mul)\.with\.overflow", s)
        if m:
            o = {"add": add, "sub": sub, "mul": mul}[m.group(2)](a[0], a[1])
            if m.group(1) == "s":
                bits = int(re.search(r"i(\d+)$", s).group(1)); hi = (1 << (bits - 1)) - 1
                over = or_(lt(o, -hi - 1), lt(hi, o)); out = []
                for s2, b in vm.fork(st, over): out.append((s2, T("agg", T("trunc", bits, o) if b else o, int(b))))
                return Forks(out)
            return T("agg", o, T("bool", "ovf", m.group(1) + m.group(2), a[0], a[1]))
        if s.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")):
            k = "max" if "max" in s else "min"
            return minmax(c, k, a[0], a[1])
        if s.startswith("llvm.is.fpclass"): return fpclass(a[0], a[1])
        if s.startswith("llvm.stacksave"): return T("opq", "stack")
        if s.startswith("llvm.stackrestore"): return None
        return NotImplemented
    i = s.rfind("::")
    cls, m = (s[:i], s[i + 2:]) if i > 0 else ("", s)
    if cls in DESCR: return msg_method(c, cls, m)
    if cls == "std::__cxx11::basic_string": return string_method(c, m)
    if cls in ("std::vector", PB + "RepeatedPtrField", PB + "RepeatedField"):
        if cls == "std::vector" and elem_type(c.dem) == "bool": return NotImplemented
        r = list_method(c, cls.split("::")[-1], m)
        if r is NotImplemented: vm.event(st, "unmodelled", name=s)
        return r
    if cls in ("std::map", "std::set", "std::unordered_map", "std::unordered_set", PB + "Map", "std::multimap", "std::multiset"):
        if vm.opts.get("inline_maps"): return NotImplemented
        r = map_method(c, cls, m)
        if r is NotImplemented: vm.event(st, "unmodelled", name=s)
        return r
    g = ITER.search(s)
    if g and (cls.endswith(g.group(1))): return iter_method(c, cls, m)
    if s in ("std::__detail::operator==", "std::__detail::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!=",
             PB + "internal::operator==", PB + "internal::operator!=", PB + "operator==", PB + "operator!=",
             "std::_Rb_tree_iterator::operator==", "google::protobuf::Map::operator=="):
        r = eq(R(a[0]), R(a[1]))
        return r if s.endswith("==") else not_(r)
    if s in (PB + "internal::operator-", "__gnu_cxx::operator-") and len(a) == 2:
        x, y = R(a[0]), R(a[1])
        if is_t(x, "iter") and is_t(y, "iter"): return sub(x.a[1], y.a[1])
        if CHARIT.search(c.dem):
            n = chars_between(y, x)
            if n is not None: return n
        return NotImplemented
    if s == "std::distance":
        x, y = a[0], a[1]
        if is_t(x, "alloca"): x, y = R(x), R(y)
        if is_t(x, "iter") and is_t(y, "iter") and x.a[0] is y.a[0] and not is_t(y.a[1], "found"): return sub(y.a[1], x.a[1])
        if is_t(x, "iter") and is_t(y, "iter"): return T("dist", x, y)
        return NotImplemented
    f = FUNCS.get(s)
    if f is not None: return f(c)
    if s == "std::operator==" or s == "std::operator!=":
        p = params(c.dem)
        if len(p) == 2 and (is_str(p[0]) or is_str(p[1])):
            x = R(a[0]) if is_str(p[0]) else cstr_value(c, a[0])
            y = R(a[1]) if is_str(p[1]) else cstr_value(c, a[1])
            r = seq(x, y); return r if s.endswith("==") else not_(r)
        return NotImplemented
    if s in ("std::operator<", "std::operator>", "std::operator<=", "std::operator>="):
        p = params(c.dem)
        if len(p) == 2 and (is_str(p[0]) or is_str(p[1])):
            x, y = [R(z) if is_str(t) else cstr_value(c, z) for z, t in zip(a, p)]
            r = T("scmp", x, y)
            return {"<": lambda: lt(r, 0), ">": lambda: lt(0, r), "<=": lambda: not_(lt(0, r)), ">=": lambda: not_(lt(r, 0))}[s[len("std::operator"):]]()
        return NotImplemented
    if s == "std::operator+":
        p = params(c.dem)
        def sv(x, t): return R(x) if is_str(t) else T("ch", x) if t == "char" else cstr_value(c, x)
        if len(p) == 2: W(a[0], scat(sv(a[1], p[0]), sv(a[2], p[1]))); return None
        return NotImplemented
    if s == "std::operator<<" or OSTR.match(s):
        return stream(c, m, a)
    if cls.endswith("StringPiece"): return stringpiece(c, m)
    if cls == PB + "util::status_internal::Status": return status_method(c, m)
    if cls == "std::function": return function_method(c, m)
    if cls in ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex", "std::shared_timed_mutex", "std::recursive_timed_mutex") or cls.endswith("Mutex"):
        return mutex_method(c, cls, m)
    if cls in ("std::condition_variable", "std::condition_variable_any"):
        vm.event(st, "condvar", op=m, cv=a[0])
        if m in ("wait", "wait_for", "wait_until") and len(a) > 2: return None
        return None
    if cls in ("std::promise", "std::future", "std::__basic_future", "std::shared_future"): return promise_method(c, cls, m)
    if cls == "std::thread": return thread_method(c, m)
    if cls in ("std::shared_ptr", "std::__shared_ptr", "std::__shared_count", "std::__shared_ptr_access", "std::_Sp_counted_base", "std::weak_ptr", "std::__weak_ptr", "std::__weak_count"):
        return shared_method(c, cls, m)
    if s.endswith("::DebugString") or s.endswith("::ShortDebugString") or s.endswith("::SerializeAsString") or s.endswith("::Utf8DebugString"):
        if cls.startswith(PB):
            W(a[0], T("dbg" if "Debug" in s else "wire", R(a[1]))); return None
    if cls in (PB + "MessageLite", PB + "Message"): return lite_method(c, m)
    if s == PB + "internal::LogMessage::LogMessage":
        st.meta[("log", a[0])] = a[1] if len(a) > 1 else 0
        if len(a) > 1 and a[1] == 3:
            vm.event(st, "fatal-log"); return Abort("fatal log")
        return None
    return NotImplemented

def memset(c):
    vm, st = c.vm, c.st
    p, v, n = c.args[0], c.args[1], c.args[2]
    b, o = base_off(p)
    if is_c(o) and is_c(n) and v == 0:
        for (b2, o2) in [x for x in st.mem if x[0] is b and is_c(x[1]) and o <= x[1] < o + n]: del st.mem[(b2, o2)]
        rg = st.mem.get((b, "rng"))
        old = rg.a if rg is not None else ()
        st.mem[(b, "rng")] = T("rng", (o, n, 0), *[r for r in old if not (r[0] >= o and r[0] + r[1] <= o + n)])
    return None
def minmax(c, k, x, y):
    lo = lt(x, y)
    outs = []
    for s, b in c.vm.fork(c.st, lo): outs.append((s, (x if b else y) if k == "min" else (y if b else x)))
    return Forks(outs)
def fpclass(x, mask):
    if mask == 3: return not_(fcmp("ord", x, x))
    if mask == 516: return fcmp("inf", x, x)
    return T("fcmp", "class%s" % mask, x, x)

def stringpiece(c, m):
    vm, st = c.vm, c.st; a = c.args; p = params(c.dem)
    if m == "StringPiece":
        if len(a) == 1: vm.store(st, a[0], 0); vm.store(st, P(a[0], 8), 0); return None
        s = vm.load(st, a[1]) if is_str(p[0]) else cstr_value(c, a[1])
        vm.store(st, a[0], T("sdata", s, 0)); vm.store(st, P(a[0], 8), slen(s)); return None
    return NotImplemented
def status_method(c, m):
    vm, st = c.vm, c.st; a = c.args; p = params(c.dem)
    R = lambda x: vm.load(st, x)
    if m == "Status":
        if len(a) == 1: vm.store(st, a[0], T("stv", 0)); return None
        if len(a) == 2: vm.store(st, a[0], R(a[1])); return None
        code = a[1]
        vm.store(st, a[0], T("stv", code) if code == 0 else T("stv", code, T("msg", a[2]) if len(a) > 2 else 0)); return None
    if m == "~Status": return None
    if m == "operator=": vm.store(st, a[0], R(a[1])); return a[0]
    if m == "ok": return eq(scode(R(a[0])), 0)
    if m == "code": return scode(R(a[0]))
    if m in ("message", "error_message"):
        if c.sret: vm.store(st, a[0], T("smsg", R(a[1]))); return None
        return T("agg", T("smsgp", R(a[0])), T("slen", T("smsg", R(a[0]))))
    if m == "ToString": vm.store(st, a[0], T("smsg", R(a[1]))); return None
    if m == "operator==": return eq(scode(R(a[0])), scode(R(a[1])))
    if m == "Update" and len(a) == 2:
        outs = []
        for s, b in vm.fork(st, eq(scode(R(a[0])), 0)):
            if b: vm.store(s, a[0], vm.load(s, a[1]))
            outs.append((s, None))
        return Forks(outs)
    if m == "IgnoreError": return None
    return NotImplemented

def function_method(c, m):
    """Copies share the closure object; it is immutable once built."""
    vm, st = c.vm, c.st; a = c.args; p = params(c.dem)
    if m == "~function": return None
    if m == "function" and len(p) == 1 and p[0].startswith("std::function<") and (p[0].endswith("&") or p[0].endswith("&&")):
        d = p[0]
        own = c.dem
        # copy or move between functions of the same type
        if re.match(r"std::function<.*> ?(const)?&&?$", d) and same_function(own, d):
            for o in (0, 8, 16, 24):
                vm.store(st, P(a[0], o), vm.load(st, P(a[1], o)))
            st.meta[("fnsrc", a[0])] = st.meta.get(("fnsrc", a[1]), a[1])
            return None
        return NotImplemented
    if m == "operator=" and len(p) == 1 and p[0].startswith("std::function<") and same_function(c.dem, p[0]):
        for o in (0, 8, 16, 24):
            vm.store(st, P(a[0], o), vm.load(st, P(a[1], o)))
        return a[0]
    if m == "operator=" and p and p[0] in ("std::nullptr_t", "decltype(nullptr)"):
        for o in (0, 8, 16, 24): vm.store(st, P(a[0], o), 0)
        return a[0]
    if m == "function" and p and p[0] in ("std::nullptr_t", "decltype(nullptr)"):
        for o in (0, 8, 16, 24): vm.store(st, P(a[0], o), 0)
        return None
    if m == "function" and not p:
        for o in (0, 8, 16, 24): vm.store(st, P(a[0], o), 0)
        return None
    if m == "swap":
        for o in (0, 8, 16, 24):
            x, y = vm.load(st, P(a[0], o)), vm.load(st, P(a[1], o)); vm.store(st, P(a[0], o), y); vm.store(st, P(a[1], o), x)
        return None
    if m == "operator bool":
        v = vm.load(st, P(a[0], 16)); return not_(eq(v, 0))
    if m == "operator()":
        args = a[1:] if c.sret else a
        fobj = args[0]
        inv = vm.load(st, P(fobj, 24))
        if not is_t(inv, "fn"):
            mg = vm.load(st, P(fobj, 16))
            vals = [x for x in args[1:]]
            vm.event(st, "icall", target=inv, fobj=fobj, args=tuple(vals), argvals=tuple(vm.load(st, x) if isinstance(x, Term) else x for x in vals),
                     empty=vm.decide(st, eq(mg, 0)), sig=c.dem, vals=tuple(snapshot(vm, st, x) for x in vals))
            h = vm.boundary.get("*function")
            if h is not None:
                r = h(c, inv, args)
                if r is not NotImplemented: return r
            v = T("ret", "function", vm.fresh(st, "s"), inv)
            if c.sret: vm.store(st, a[0], T("retobj", v)); return None
            return v
        return NotImplemented
    return NotImplemented
def snapshot(vm, st, p):
    """The std::function (or other plain object) a parameter designates."""
    if not isinstance(p, Term): return None
    return tuple(vm.load(st, P(p, o)) for o in (0, 8, 16, 24))
def same_function(own, d):
    t1 = tparams(own, "std::function"); t2 = tparams(d, "std::function")
    return t1 == t2

def mutex_method(c, cls, m):
    vm, st = c.vm, c.st; a = c.args
    if m in ("lock", "lock_shared", "Lock"):
        rec = "recursive" in cls
        again = a[0] in st.held
        vm.event(st, "lock", mutex=a[0], again=again, recursive=rec, shared=m == "lock_shared")
        st.held = st.held + (a[0],)
        return None
    if m in ("unlock", "unlock_shared", "Unlock"):
        vm.event(st, "unlock", mutex=a[0], ok=a[0] in st.held)
        h = list(st.held)
        if a[0] in h:
            h.reverse(); h.remove(a[0]); h.reverse()
        st.held = tuple(h)
        return None
    if m in ("try_lock", "try_lock_shared"):
        s2 = st.clone()
        vm.event(st, "lock", mutex=a[0], again=False, recursive=False, shared=False, tried=True)
        st.held = st.held + (a[0],)
        return Forks([(st, 1), (s2, 0)])
    if m in ("mutex", "recursive_mutex", "~mutex", "~recursive_mutex", "shared_mutex", "~shared_mutex", "timed_mutex", "~timed_mutex"): return None
    return NotImplemented

def promise_method(c, cls, m):
    vm, st = c.vm, c.st; a = c.args; p = params(c.dem)
    k = cls.split("::")[-1]
    if k == "promise":
        if m == "promise":
            if len(a) == 1: vm.store(st, a[0], T("shstate", vm.fresh(st, "s")))
            else:
                v = vm.load(st, a[1]); vm.store(st, a[0], v); vm.store(st, a[1], 0)
                vm.event(st, "promise-move", src=a[1], dst=a[0])
            return None
        if m == "~promise":
            vm.event(st, "promise-dtor", obj=a[0], state=vm.load(st, a[0])); return None
        if m == "operator=":
            v = vm.load(st, a[1]); vm.store(st, a[0], v); vm.store(st, a[1], 0); return a[0]
        if m == "get_future":
            vm.store(st, a[0], vm.load(st, a[1])); return None
        if m in ("set_value", "set_value_at_thread_exit"):
            vm.event(st, "set_value", obj=a[0], state=vm.load(st, a[0]), val=vm.load(st, a[1]) if len(a) > 1 else None)
            st.meta[("ready", vm.load(st, a[0]))] = vm.load(st, a[1]) if len(a) > 1 else 1
            return None
        return NotImplemented
    if m in ("wait", "wait_for", "wait_until"):
        fs = vm.load(st, a[0])
        h = vm.boundary.get("*wait")
        if h is not None and m == "wait" and ("ready", fs) not in st.meta:
            r = h(c, fs)
            if r is not NotImplemented:
                t0 = r.tag
                def tag(vm2, s, v, fr):
                    t0(vm2, s, v, fr); vm2.event(s, "wait", state=fs, op=m, ready=("ready", fs) in s.meta); return None
                r.tag = tag
                return r
        rdy = ("ready", fs) in st.meta
        vm.event(st, "wait", state=fs, op=m, ready=rdy)
        # a timed wait may give up; if it does not, the result is fetched later
        return None if m == "wait" else 0 if rdy else T("waited", vm.fresh(st, "w"))
    if m == "get":
        o, t = (a[0], a[1]) if c.sret else (None, a[0])
        fs = vm.load(st, t)
        h = vm.boundary.get("*wait")
        if h is not None and ("ready", fs) not in st.meta:
            r = h(c, fs)
            if r is not NotImplemented:
                t0 = r.tag
                def tag(vm2, s, v, fr):
                    t0(vm2, s, v, fr); vm2.event(s, "future-get", state=fs, ready=("ready", fs) in s.meta)
                    x = s.meta.get(("ready", fs), T("future", fs))
                    if o is not None: vm2.store(s, o, x); return None
                    return x
                r.tag = tag
                return r
        vm.event(st, "future-get", state=vm.load(st, t), ready=("ready", fs) in st.meta)
        v = st.meta.get(("ready", vm.load(st, t)), T("future", vm.load(st, t)))
        if o is not None: vm.store(st, o, v); return None
        return v
    if m in ("future", "~future", "shared_future", "~shared_future"):
        if len(a) > 1: vm.store(st, a[0], vm.load(st, a[1]))
        return None
    if m == "valid": return 1
    return NotImplemented

def thread_method(c, m):
    vm, st = c.vm, c.st; a = c.args
    if m == "thread" and len(a) > 1:
        vm.event(st, "thread", args=tuple(a), dem=c.dem)
        h = vm.boundary.get("*thread")
        if h is not None: return h(c)
        return None
    if m in ("thread", "~thread", "detach", "join"): vm.event(st, "thread-" + m); return None
    return NotImplemented

def shared_method(c, cls, m):
    """Ownership is not counted; the pointer is a value in the first word."""
    vm, st = c.vm, c.st; a = c.args; p = params(c.dem)
    k = cls.split("::")[-1]
    if k in ("_Sp_counted_base", "__shared_count", "__weak_count"):
        if m.startswith("~") or m.startswith("_M_release") or m.startswith("_M_add") or m.startswith("_M_dispose"): return None
        if m == "__shared_count" and "_Sp_alloc_shared_tag" in c.dem: return NotImplemented     # make_shared: as the library does it
        return NotImplemented if k != "__shared_count" or m != "__shared_count" else None
    if m in ("~shared_ptr", "~__shared_ptr", "~weak_ptr", "~__weak_ptr"): return None
    if m in ("shared_ptr", "__shared_ptr", "operator="):
        this = a[0]
        if len(a) == 1: vm.store(st, this, 0); vm.store(st, P(this, 8), 0); return None
        q = p[0] if p else ""
        if "nullptr" in q: vm.store(st, this, 0); return this if m == "operator=" else None
        if "shared_ptr<" in q or "unique_ptr<" in q:
            src = a[1]; v = vm.load(st, src)
            vm.store(st, this, v)
            if q.endswith("&&") or "unique_ptr<" in q: vm.store(st, src, 0)
            vm.store(st, P(this, 8), T("ctl", v))
            return this if m == "operator=" else None
        if q.endswith("*") or re.search(r"\*( ?const)?$", q):
            vm.event(st, "shared-own", ptr=a[1]); vm.store(st, this, a[1]); vm.store(st, P(this, 8), T("ctl", a[1])); return None
        return NotImplemented
    if m in ("get", "operator->", "_M_get"): return vm.load(st, a[0])
    if m == "operator*": return vm.load(st, a[0])
    if m == "operator bool": return not_(eq(vm.load(st, a[0]), 0))
    if m == "reset":
        if len(a) == 1: vm.store(st, a[0], 0)
        else: vm.event(st, "shared-own", ptr=a[1]); vm.store(st, a[0], a[1])
        return None
    if m == "swap":
        for o in (0, 8):
            x, y = vm.load(st, P(a[0], o)), vm.load(st, P(a[1], o)); vm.store(st, P(a[0], o), y); vm.store(st, P(a[1], o), x)
        return None
    if m in ("use_count", "unique"): return T("usecount", vm.fresh(st, "s"))
    return NotImplemented

def lite_method(c, m):
    vm, st = c.vm, c.st; a = c.args
    if m in ("ParseFromString", "ParseFromArray", "ParsePartialFromString", "MergeFromString"):
        src = vm.load(st, a[1]) if "String" in m else mkbytes(c, a[1], a[2])
        ok = T("parsed", src, vm.fresh(st, "s"))
        outs = []
        for s, b in vm.fork(st, ok):
            vm.event(s, "parse", msg=a[0], src=src, ok=b)
            vm.store(s, a[0], T("parse", src) if b else T("badparse", src))
            outs.append((s, 1 if b else 0))
        return Forks(outs)
    if m in ("SerializeToString", "AppendToString", "SerializePartialToString"):
        v = T("wire", vm.load(st, a[0]))
        vm.store(st, a[1], v if m != "AppendToString" else scat(vm.load(st, a[1]), v)); return 1
    if m == "GetArenaForAllocation" or m == "GetArena": return 0
    if m in ("ByteSizeLong", "ByteSize"): return T("bytesize", vm.load(st, a[0]))
    if m == "IsInitialized": return 1
    if m in ("CopyFrom", "MergeFrom", "Clear"): return NotImplemented
    return NotImplemented

# ------------------------------------------------------------------ free functions
FUNCS = {}
def fn(*names):
    def d(f):
        for n in names: FUNCS[n] = f
        return f
    return d
@fn("operator new", "operator new[]")
def _(c):
    x = T("new", c.vm.fresh(c.st, "s"))
    st = c.st
    if x in st.alive or x in st.freed:       # allocated again in a later iteration
        for q in [q for q in st.mem if q[0] is x]: del st.mem[q]
        st.freed.pop(x, None)
    st.alive.add(x)
    c.vm.event(st, "new", ptr=x, size=c.args[0])
    return x
@fn("operator delete", "operator delete[]", "free")
def _(c):
    p = c.args[0]
    c.vm.event(c.st, "free", ptr=p, again=p in c.st.freed)
    c.st.freed[p] = 1
    return None
@fn("malloc")
def _(c):
    x = T("new", c.vm.fresh(c.st, "s")); c.st.alive.add(x); c.vm.event(c.st, "new", ptr=x, size=c.args[0]); return x
@fn("__assert_fail", "abort", "std::terminate", "exit", "std::__throw_length_error", "std::__throw_out_of_range_fmt", "std::__throw_bad_function_call",
    "std::__throw_logic_error", "std::__throw_future_error", "std::__throw_system_error", "std::__throw_bad_alloc", "__clang_call_terminate", "__cxa_throw", "__cxa_rethrow")
def _(c):
    c.vm.event(c.st, "abort", why=c.short)
    return Abort(c.short)
@fn("__cxa_allocate_exception")
def _(c): return T("new", c.vm.fresh(c.st, "s"))
@fn("gettimeofday")
def _(c):
    st = c.st; n = st.meta.get("now", 0); st.meta["now"] = n + 1
    c.vm.store(st, c.args[0], T("time", n)); c.vm.store(st, P(c.args[0], 8), T("timeus", n))
    return 0
@fn("google::service_control_client::SimpleCycleTimer::Now")
def _(c):
    st = c.st; n = st.meta.get("now", 0); st.meta["now"] = n + 1
    v = T("now", n)
    c.vm.event(st, "now", val=v)
    return v
@fn("google::protobuf::util::status_internal::OkStatus", "google::protobuf::util::OkStatus")
def _(c): c.vm.store(c.st, c.args[0], T("stv", 0)); return None
@fn("google::protobuf::util::status_internal::operator==", "google::protobuf::util::status_internal::operator!=")
def _(c):
    x, y = c.vm.load(c.st, c.args[0]), c.vm.load(c.st, c.args[1])
    r = eq(scode(x), scode(y)) if x is not y else 1
    return r if c.short.endswith("==") else not_(r)
@fn("strlen")
def _(c): return slen(cstr_value(c, c.args[0]))
@fn("strnlen")
def _(c): return T("strnlen", *c.args)
@fn("strcmp")
def _(c): return T("scmp", cstr_value(c, c.args[0]), cstr_value(c, c.args[1]))
@fn("strncmp")
def _(c): return T("scmp", substr(cstr_value(c, c.args[0]), 0, c.args[2]), substr(cstr_value(c, c.args[1]), 0, c.args[2]))
@fn("memcmp", "bcmp")
def _(c):
    x, y = sdata_of(c, c.args[0]), sdata_of(c, c.args[1])
    if all(is_t(q, "sdata") or is_t(base_off(q)[0], "glob") and q is base_off(q)[0] for q in (x, y)):
        f = lambda q: substr(q.a[0], q.a[1], c.args[2]) if is_t(q, "sdata") else mkbytes(c, q, c.args[2])
        return T("scmp", f(x), f(y))
    return T("memcmp", *c.args)
@fn(*[n for f in ("tolower", "toupper", "isalpha", "isdigit", "isspace", "isalnum", "isupper", "islower", "ispunct", "isxdigit", "isprint", "iscntrl") for n in (f, "std::" + f)])
def _(c): return T("ctype", c.short.split("::")[-1], c.args[0])
@fn("memcpy", "memmove")
def _(c): c.vm.copy_range(c.st, c.args[0], c.args[1], c.args[2]); return c.args[0]
@fn("std::isnan", "isnan", "__isnan")
def _(c): return not_(fcmp("ord", c.args[0], c.args[0]))
@fn("std::isinf", "isinf", "__isinf")
def _(c): return fcmp("inf", c.args[0], c.args[0])
@fn("std::isfinite", "isfinite")
def _(c):
    x = c.args[0]; return and_(fcmp("ord", x, x), not_(fcmp("inf", x, x)))
for _n in ("log2", "log", "log10", "floor", "ceil", "fabs", "pow", "sqrt", "exp", "log1p", "ldexp", "frexp", "fmin", "fmax", "trunc", "round", "fabsf"):
    def _mk(n):
        def f(c): return T(n, *c.args)
        return f
    FUNCS[_n] = FUNCS["std::" + _n] = _mk(_n)
@fn("MD5_Init")
def _(c):
    c.vm.event(c.st, "md5", op="init", ctx=c.args[0]); c.vm.store(c.st, c.args[0], T("md5", NIL)); return 1
@fn("MD5_Update")
def _(c):
    st, vm = c.st, c.vm
    ctx, p, n = c.args
    p = sdata_of(c, p)
    if is_t(p, "sdata"): v = substr(p.a[0], p.a[1], n) if not is_t(slen(p.a[0]), "slen") or n is slen(p.a[0]) or is_t(n, "slen") else T("part", p.a[0], p.a[1], n)
    else:
        b, o = base_off(p)
        if is_t(b, "glob"): v = mkbytes(c, p, n)
        elif is_t(b, "alloca") or is_t(b, "new"): v = T("raw", vm.load(st, p), n)
        else: v = T("mem", p, n)
    vm.event(st, "md5", op="update", ctx=ctx, data=v, ptr=p, n=n)
    o = vm.load(st, ctx)
    vm.store(st, ctx, T("md5", append(o.a[0] if is_t(o, "md5") else T("md5l", o), v)))
    return 1
@fn("MD5_Final")
def _(c):
    st, vm = c.st, c.vm
    vm.event(st, "md5", op="final", ctx=c.args[1], out=c.args[0])
    vm.store(st, c.args[0], T("md5sum", vm.load(st, c.args[1]))); return 1
@fn("std::is_sorted")
def _(c): return T("issorted", rng(c)) if rng(c) is not None else NotImplemented
def rng(c):
    a = c.args
    if len(a) >= 2 and is_t(a[0], "iter") and is_t(a[1], "iter") and a[0].a[0] is a[1].a[0]:
        l = c.vm.load(c.st, a[0].a[0])
        if a[0].a[1] == 0 and a[1].a[1] is size(l): return l
    return None
@fn("std::adjacent_find")
def _(c):
    l = rng(c)
    if l is None: return NotImplemented
    e = size(l)
    outs = []
    for s, b in c.vm.fork(c.st, T("adjdup", l, len(c.args))):
        outs.append((s, T("iter", c.args[0].a[0], T("adjpos", l), *c.args[0].a[2:]) if b else c.args[1]))
        if b: c.vm.assume(s, eq(T("adjpos", l), e), False)
    return Forks(outs)
@fn("std::upper_bound", "std::lower_bound")
def _(c):
    l = rng(c)
    if l is None: return NotImplemented
    v = c.vm.load(c.st, c.args[2])
    return T("iter", c.args[0].a[0], T("ub", c.short[5:10], l, v), *c.args[0].a[2:])
@fn("std::abs")
def _(c): return T("abs", c.args[0])
@fn("std::move", "std::forward", "std::addressof", "std::__addressof", "std::as_const", "std::__niter_base", "std::ref", "std::cref")
def _(c): return c.args[0]
@fn("random", "rand")
def _(c): return T("rand", c.vm.fresh(c.st, "s"))
@fn("google::protobuf::util::MessageDifferencer::Equals", "google::protobuf::util::MessageDifferencer::Equivalent", "google::protobuf::util::MessageDifferencer::ApproximatelyEquals")
def _(c): return T("bool", c.short, c.vm.load(c.st, c.args[0]), c.vm.load(c.st, c.args[1]))
@fn("std::swap")
def _(c):
    p = params(c.dem)
    if p and (p[0].rstrip("&").strip() in DESCR or is_str(p[0]) or "std::vector<" in p[0][:14] or "std::unordered_map<" in p[0][:22]):
        x, y = c.vm.load(c.st, c.args[0]), c.vm.load(c.st, c.args[1]); c.vm.store(c.st, c.args[0], y); c.vm.store(c.st, c.args[1], x); return None
    return NotImplemented
@fn("__cxa_begin_catch", "__cxa_end_catch")
def _(c): return T("opq", "exc")
@fn("__gthread_active_p", "__gthrw_pthread_mutex_lock")
def _(c): return 1
@fn("__cxa_guard_acquire")
def _(c): return 0
@fn("sprintf", "snprintf", "printf", "fprintf", "puts")
def _(c):
    c.vm.event(c.st, "printf", name=c.short, args=tuple(c.args))
    return T("ret", c.short, c.vm.fresh(c.st, "s"))
