"""Compiles /repo's current sources to LLVM IR and loads it.

Everything is keyed by content: the sources of /repo that are analysed, this
directory's tools and the compiler. Results live in /verif/.work (ignored)."""
import concurrent.futures, hashlib, json, os, pickle, subprocess, sys, shutil, tempfile, time

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
CFG = "llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config"

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

def _atomic(path, make):
    """make(tmp) writes tmp; then it is moved to path (checks may run at once)."""
    if os.path.exists(path): return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    d = tempfile.mkdtemp(dir=os.path.dirname(path))
    try:
        t = os.path.join(d, "x")
        make(t)
        if not os.path.exists(path):
            try: os.rename(t, path)
            except OSError: pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return path

def irdump_tool():
    src = os.path.join(ENGINE, "irdump.cc")
    out = os.path.join(WORK, "tool-" + _hash([src]), "irdump")
    def make(t):
        cx = [f for f in _run([CFG, "--cxxflags"]).split() if not f.startswith("-std=")]
        ld = _run([CFG, "--ldflags", "--libs", "core", "irreader", "support", "demangle"]).split()
        _run([CXX, "-std=c++17", "-O1"] + cx + [src, "-o", t] + ld)
    return _atomic(out, make)

def protos():
    """Headers generated from the API's schemas (not part of /repo)."""
    d = [os.path.join(ENGINE, "protos", n) for n in ("wkt.desc", "googleapis.desc")]
    out = os.path.join(WORK, "gen2-" + _hash(d))
    def make(t):
        os.mkdir(t)
        names = [n for n in sys.modules[__name__].proto_files(d[1])]
        _run(["protoc", "--descriptor_set_in=" + ":".join(d), "--cpp_out=" + t] + names)
        for root, _, fs in os.walk(t):       # keep every setter a call
            for f in fs:
                if f.endswith(".pb.h"):
                    q = os.path.join(root, f); s = open(q).read()
                    open(q, "w").write(s.replace("PROTOBUF_ALWAYS_INLINE", ""))
    return _atomic(out, make)

def proto_files(desc):
    import descr
    return [f["name"] for f in descr.parse_set(open(desc, "rb").read())]

def sources():
    """Every non-test translation unit of the library, plus the sample transport."""
    r = []
    for d in ("src", "utils", "sample/transport"):
        p = os.path.join(REPO, d)
        if not os.path.isdir(p): continue
        for n in sorted(os.listdir(p)):
            if not n.endswith((".cc", ".cpp", ".cxx")): continue
            b = n.rsplit(".", 1)[0]
            if b.endswith("_test") or "mock" in b or "test" in b.split("_"): continue
            if d.startswith("sample") and n == "http_sample.cc": continue
            r.append(os.path.join(d, n))
    return r

def all_inputs():
    r = []
    for d in ("src", "utils", "include", "sample/transport"):
        p = os.path.join(REPO, d)
        for root, _, fs in os.walk(p):
            r += [os.path.join(root, f) for f in fs if f.endswith((".cc", ".h", ".cpp", ".hpp", ".inc", ".cxx"))]
    return r

FLAGS = ["-std=c++17", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-flto", "-fwhole-program-vtables",
         "-fvisibility=hidden", "-fno-threadsafe-statics", "-w", "-fno-discard-value-names", "-ffp-contract=off"]

PCH_SRC = """
#include <algorithm>
#include <atomic>
#include <functional>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "google/api/metric.pb.h"
#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "google/type/money.pb.h"
#include "google/protobuf/stubs/logging.h"
#include "google/protobuf/text_format.h"
"""

PRELUDE = os.path.join(ENGINE, "drivers", "prelude.h")
PCH_SRC += open(PRELUDE).read()

def pch(gen):
    key = hashlib.sha256((PCH_SRC + " ".join(FLAGS) + gen).encode()).hexdigest()[:16]
    out = os.path.join(WORK, "pch-" + key, "pre.pch")
    def make(t):
        h = t + ".h"
        open(h, "w").write(PCH_SRC)
        _run([CXX] + FLAGS + ["-isystem", gen, "-x", "c++-header", h, "-o", t, "-fpch-instantiate-templates"])
        keep = os.path.join(os.path.dirname(out), "src.h")
        open(keep, "w").write(PCH_SRC)
    return _atomic(out, make)

def compile_all(extra_flags=(), only=None):
    gen = protos()
    srcs = [(s, os.path.join(REPO, s)) for s in sources()]
    srcs.append(("verif_lru.cc", os.path.join(ENGINE, "drivers", "lru.cc")))
    srcs.append(("verif_types.cc", os.path.join(ENGINE, "drivers", "types.cc")))
    if only: srcs = [s for s in srcs if s[0] in only]
    key = _hash(all_inputs() + [s[1] for s in srcs] + [os.path.join(ENGINE, "irdump.cc")],
                " ".join(FLAGS) + " ".join(extra_flags) + gen + REPO + PCH_SRC)
    out = os.path.join(WORK, "ir-" + key + ".json")
    if os.path.exists(out): return out, [s[0] for s in srcs]
    tool = irdump_tool()
    def make(t):
        d = t + ".d"
        os.mkdir(d)
        use_pch = []
        if os.environ.get("VERIF_NO_PCH") != "1":
            try: use_pch = ["-include-pch", pch(gen)]
            except BuildError: use_pch = []
        heads = [f for f in all_inputs() if not f.endswith((".cc", ".cpp", ".cxx"))]
        def one(s):
            """Objects are kept by the content of everything that goes into them."""
            inc = [x for x in all_inputs() if x.endswith(".cc")] if _includes_source(s[1]) else []
            k = _hash([s[1]] + heads + inc, " ".join(FLAGS) + " ".join(extra_flags) + gen + REPO + PCH_SRC + s[0])
            return _atomic(os.path.join(WORK, "obj-" + k + ".bc"), lambda t: one_(s, t))
        def one_(s, o):
            cmd = [CXX] + FLAGS + list(extra_flags) + (use_pch or ["-include", PRELUDE]) + ["-I" + REPO, "-I" + os.path.join(ENGINE, "stubs"),
                   "-isystem", gen, "-c", s[1], "-o", o]
            try: _run(cmd)
            except BuildError:
                if not use_pch: raise
                _run([c for c in cmd if c not in use_pch] + ["-include", PRELUDE])
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        m = os.path.join(d, "all.bc")
        _run([LINK] + objs + ["-o", m])
        with open(t, "w") as f:
            r = subprocess.run([tool, m, REPO + "/", os.path.join(ENGINE, "drivers")], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise BuildError("irdump: " + r.stderr[-2000:])
    _prune()
    return _atomic(out, make), [s[0] for s in srcs]

def _includes_source(p):
    try: return any(l.lstrip().startswith("#include") and ".cc" in l for l in open(p, errors="replace"))
    except OSError: return True
def _prune(keep=6):
    """Keeps the disk use of old IR bounded."""
    try:
        for pre, n in (("ir-", keep), ("obj-", 20 * keep)):
            fs = sorted((os.path.join(WORK, f) for f in os.listdir(WORK) if f.startswith(pre)), key=os.path.getmtime)
            for f in fs[:-n]: os.unlink(f)
    except OSError:
        pass

if __name__ == "__main__":
    t = time.time()
    print(compile_all(), round(time.time() - t, 2))
