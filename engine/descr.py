"""Reads the protobuf schemas (FileDescriptorSet) without the protobuf module."""
import os
def _varint(b, i):
    v = s = 0
    while True:
        c = b[i]; i += 1
        v |= (c & 127) << s; s += 7
        if c < 128: return v, i
def _fields(b):
    i = 0
    while i < len(b):
        t, i = _varint(b, i)
        w = t & 7
        if w == 0: v, i = _varint(b, i)
        elif w == 2:
            n, i = _varint(b, i); v = b[i:i + n]; i += n
        elif w == 5: v = b[i:i + 4]; i += 4
        elif w == 1: v = b[i:i + 8]; i += 8
        else: raise ValueError(w)
        yield t >> 3, v
def _field(b):
    f = dict(name="", label=1, type=0, tname="", oneof=None, opt3=False)
    for k, v in _fields(b):
        if k == 1: f["name"] = v.decode()
        elif k == 4: f["label"] = v
        elif k == 5: f["type"] = v
        elif k == 6: f["tname"] = v.decode()
        elif k == 9: f["oneof"] = v
        elif k == 17: f["opt3"] = bool(v)
        elif k == 3: f["num"] = v
    return f
def _msg(b, prefix, out):
    name = None; fs = []; nested = []; oneofs = []; mapentry = False
    for k, v in _fields(b):
        if k == 1: name = v.decode()
        elif k == 2: fs.append(_field(v))
        elif k == 3: nested.append(v)
        elif k == 8:
            for kk, vv in _fields(v):
                if kk == 1: oneofs.append(vv.decode())
        elif k == 7:
            for kk, vv in _fields(v):
                if kk == 7: mapentry = bool(vv)
    full = prefix + "." + name
    out[full] = dict(fields={f["name"]: f for f in fs}, oneofs=oneofs, map=mapentry, full=full)
    for n in nested: _msg(n, full, out)
def parse_set(buf):
    r = []
    for k, v in _fields(buf):
        if k != 1: continue
        f = dict(name="", package="", messages={})
        ms = []
        for kk, vv in _fields(v):
            if kk == 1: f["name"] = vv.decode()
            elif kk == 2: f["package"] = vv.decode()
            elif kk == 4: ms.append(vv)
        for m in ms: _msg(m, "." + f["package"], f["messages"])
        r.append(f)
    return r
def load(dirname):
    """C++ class name -> message description."""
    out = {}
    for n in ("wkt.desc", "googleapis.desc"):
        for f in parse_set(open(os.path.join(dirname, n), "rb").read()):
            for full, m in f["messages"].items():
                rel = full[len(f["package"]) + 2:] if f["package"] else full[1:]
                cpp = "::".join(f["package"].split(".")) + "::" + rel.replace(".", "_")
                m["cpp"] = cpp
                out[cpp] = m
    byfull = {m["full"]: m for m in out.values()}
    for m in out.values():
        for f in m["fields"].values():
            f["msg"] = byfull.get(f["tname"], {}).get("cpp") if f["type"] == 11 else None
            f["ismap"] = bool(f["type"] == 11 and f["label"] == 3 and byfull.get(f["tname"], {}).get("map"))
    return out
