#!/usr/bin/env python3
"""seed.py verify ID...: confirms planted bugs in scratch copies of /repo
(builds, stable tests pass, demo quiet without and failing with the patch).
seed.py catch ID...: which registered checks report each bug (runs the bug's
own property by default, every check with --all).
seed.py quiet NAME...: edits of refactors/ that keep the behaviour; builds,
tests and runs every check (or those given with -c=ID,ID), which must be quiet."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def in_copy(i, patch=True, file=None):
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("cp -a /repo %s/repo" % w)
    r = w + "/repo"
    if patch:
        o = sh("git apply %s" % (file or "%s/seeded/%s/patch.diff" % (V, i)), cwd=r)
        if o.returncode: print(i, "PATCH FAILS", o.stdout); shutil.rmtree(w); return None, None
    return w, r
def relocate(i):
    """A demo folder elsewhere, without patch and meta."""
    d = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir("%s/seeded/%s" % (V, i)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy("%s/seeded/%s/%s" % (V, i, f), d)
    return d
def bind(r, cmd, cwd="/repo", env=None):
    """Runs cmd with r seen as /repo."""
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd %s && %s" % (r, cwd, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
def verify(i):
    d = relocate(i); res = []
    for p in (False, True):
        w, r = in_copy(i, p)
        if not w: return False
        b = bind(r, "bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS\n", b.stdout[-2000:]); shutil.rmtree(w); return False
        if p:
            t = bind(r, "bash /opt/vp/test.sh %s/o.json" % w)
            base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(w + "/o.json"))
            st = base.get("passed") or base.get("stable") or base
            miss = [x for x in st if x not in o["passed"]]
            if miss: print(i, "TESTS FAIL", miss[:5])
            res.append(not miss)
        x = bind(r, "timeout 300 bash %s/demo.sh" % d)
        ok = (x.returncode != 0) if p else (x.returncode == 0)
        if not ok or "-v" in sys.argv: print(i, "patched" if p else "clean", "demo exit", x.returncode, x.stdout[-1500:])
        res.append(ok); shutil.rmtree(w)
    shutil.rmtree(d)
    print(i, "OK" if all(res) else "NOT OK"); return all(res)
def catch(i, ids):
    w, r = in_copy(i)
    if not w: return
    # the checks write into the copy's own /verif
    sh("mkdir %s/verif && cp -a %s/check.py %s/engine %s/verif/ && ln -s %s/.work %s/verif/.work; cp %s/known_findings.jsonl %s/verif/" % (w, V, V, w, V, w, V, w))
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    hit = []; other = []
    for c in ids or [prop]:
        x = bind(r, "python3 %s/verif/check.py %s" % (w, c))
        (hit if x.returncode == 1 else other).append(c)
        if x.returncode not in (0, 1): print(i, c, "exit", x.returncode, x.stdout[-600:])
        elif "-v" in sys.argv and (x.returncode or c == prop): print(x.stdout[:1500])
    print("%-34s %s %s %s" % (i, prop, "CAUGHT" if prop in hit else "missed" , " ".join(hit))); shutil.rmtree(w)
def passes(w, r):
    b = bind(r, "bash /opt/vp/build.sh")
    if b.returncode: return "does not build\n" + b.stdout[-2000:]
    bind(r, "bash /opt/vp/test.sh %s/o.json" % w)
    base = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(w + "/o.json"))
    miss = [x for x in base.get("passed") or base.get("stable") or base if x not in o["passed"]]
    return "tests fail: %s" % miss[:5] if miss else ""
def quiet(i):
    w, r = in_copy(i, file="%s/refactors/%s.diff" % (V, i))
    if not w: return
    bad = passes(w, r)
    if bad: print(i, bad); shutil.rmtree(w); return
    sh("mkdir %s/verif && cp -a %s/check.py %s/engine %s/verif/ && ln -s %s/.work %s/verif/.work; cp %s/known_findings.jsonl %s/verif/" % (w, V, V, w, V, w, V, w))
    c = [x[3:] for x in sys.argv if x.startswith("-c=")]
    sys.path.insert(0, V + "/engine")
    from registry import RULES
    noisy = []
    for c in (c[0].split(",") if c else sorted(RULES)):
        x = bind(r, "timeout 900 python3 %s/verif/check.py %s" % (w, c))
        if x.returncode: noisy.append("%s(%d)" % (c, x.returncode)); print(i, c, "exit", x.returncode, x.stdout[:1800])
    print("%-34s %s" % (i, "quiet" if not noisy else "NOISY " + " ".join(noisy))); shutil.rmtree(w)
if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("-")]
    a = a or (sorted(x[:-5] for x in os.listdir(V + "/refactors")) if sys.argv[1] == "quiet" else sorted(os.listdir(V + "/seeded")))
    ids = None
    if "--all" in sys.argv:
        sys.path.insert(0, V + "/engine")
        from registry import RULES; ids = sorted(RULES)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3 if sys.argv[1] == "verify" else 6) as ex:
        list(ex.map(lambda i: verify(i) if sys.argv[1] == "verify" else quiet(i) if sys.argv[1] == "quiet" else catch(i, ids), a))
