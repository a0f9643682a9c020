#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current sources.

exit 0: no violation found; exit 1: a VIOLATION line per property; any other
exit: no answer (the sources do not build, or what the rules are about is gone)."""
import importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
import lib, build
from registry import RULES, EXPLAIN

def known():
    """Recorded findings: property -> [(rule, place, text)]."""
    out = {}
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                d = json.loads(l)
                if "rule" in d: out.setdefault(d["property"], []).append(d)
    return out

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    rep = lib.Report(pid)
    limits = []
    configs = [()] if tier == "quick" else [(), ("-DNDEBUG",)]
    for cfg in configs:
        lib.configure(cfg, 1 if tier == "quick" else 8)
        for name in RULES[pid]:
            m, f = name.split(".")
            try: getattr(importlib.import_module(m), f)(rep)
            except lib.Limit as e: limits.append("%s: %s" % (name, e))
    if not rep.violations:
        # variables that outlive calls: the same again for what earlier calls may have left in them
        P_ = lib.program()
        for n, o, x in lib.left_behind() if P_.hidden else ():
            r2 = lib.Report(pid); lib.forget(); P_.statics = {(m, q): P_.initially(m, q) for m, q in P_.hidden if P_.initially(m, q) is not None}; P_.statics[n, o] = x
            for name in RULES[pid]:
                m, f = name.split(".")
                try: getattr(importlib.import_module(m), f)(r2)
                except (lib.Limit, lib.Missing): pass
            rep.obligations += r2.obligations; rep.paths += r2.paths
            rep.note("analysed with %s at %s when the call begins" % (P_.globals[n]["dem"], x))
            for w in r2.violations:
                rep.violations.append(dict(w, msg=w["msg"] + " (when earlier calls left %s at %s)" % (P_.globals[n]["dem"], x)))
                r = rep.rules.setdefault(w["rule"], [0, 0, 0]); r[0] += 1; r[2] += 1
            if rep.violations: break
    if not rep.obligations and not limits: raise lib.Missing("nothing to check")
    kn = known().get(pid, [])
    new = []
    for v in rep.violations:
        k = next((d for d in kn if d["rule"] == v["rule"] and d["function"] in json.dumps(v["chain"]) + v["where"] + v["msg"] and d["what"] in v["msg"]), None)
        if k is not None: print("KNOWN-FINDING: property=%s %s" % (pid, v["msg"]))
        else: new.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    und = {}
    for r, w, m in rep.undecided: und.setdefault(r, [0, "%s: %s" % (w, m)])[0] += 1
    root = sorted(n for n in (lib.program().fns[x].short for x in rep.analysed if x in lib.program().fns and lib.program().fns[x].root))
    ev = dict(property=pid, tier=tier, seed=seed, level="other", wall_s=round(time.time() - t0, 2),
              coverage=dict(
                  explanation="Static analysis of the LLVM IR compiled from /repo's current sources; nothing is executed. " + EXPLAIN[pid],
                  rules={k: dict(obligations=v[0], undecided=v[1], violated=v[2]) for k, v in rep.rules.items()},
                  obligations=rep.obligations, discharged=rep.obligations - len(rep.undecided) - sum(r[2] for r in rep.rules.values()),
                  functions_analysed=len(rep.analysed), repository_functions=root[:400], paths=rep.paths, call_sites_followed=rep.calls,
                  loops_summarised=rep.loops, instructions=rep.steps, translation_units=lib.program().sources,
                  undecided=[dict(rule=k, count=n, example=x) for k, (n, x) in und.items()], limits=limits, notes=rep.notes),
              assumptions=["std and protobuf classes behave as modelled in engine/models.py (values, not heap structure)",
                           "exceptions are not thrown by the standard library (allocation failure is out of scope)"],
              violations=[dict(rule=v["rule"], where=v["where"], message=v["msg"]) for v in new])
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, tmp[:-4])
    print("%s: %d obligations over %d functions, %d paths (%d undecided)%s in %.1fs" % (pid, rep.obligations, len(rep.analysed), rep.paths, len(rep.undecided), " LIMIT " + "; ".join(limits) if limits else "", time.time() - t0))
    if new:
        d = os.path.join(HERE, ".work", "replay"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, pid + ".json")
        json.dump(dict(property=pid, command="python3 check.py " + pid, violations=new), open(p, "w"), indent=1)
        for v in new[:20]:
            print("  %s  [%s]" % (v["where"], v["rule"])); print("    " + v["msg"][:600])
            for c in v["chain"][:12]: print("      at " + c[:160])
            for c in v["path"][:12]: print("      if " + c[:200])
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0

if __name__ == "__main__":
    try: r = main()
    except (lib.Missing, build.BuildError) as e:
        print("NO ANSWER: %s: %s" % (type(e).__name__, e)); r = 2
    sys.stdout.flush()
    os._exit(r)
