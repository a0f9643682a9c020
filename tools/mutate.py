#!/usr/bin/env python3
"""Systematic small edits of /repo's original sources, each run through the checks (development only).
usage: mutate.py list [FILE]      -- the edits
       mutate.py run FILE [N/M]   -- run them; one line per edit: CAUGHT / NOANSWER / MISSED / NOCOMPILE
Nothing is applied to /repo: every edit lives in a scratch clone named by VERIF_REPO."""
import json, os, re, subprocess, sys, shutil, hashlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ALL = [c["property"] if "property" in c else c["id"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
AGG = ["C01", "C02", "C06", "C11", "C16", "C31"]
FIRST = {
    "src/check_aggregator_impl.cc": ["C09", "C32", "C08", "C07", "C10", "C17", "C38", "C39", "C34", "C15"] + AGG,
    "src/check_aggregator_impl.h": ["C09", "C10", "C39"] + AGG,
    "src/quota_aggregator_impl.cc": ["C12", "C32", "C13", "C14", "C07", "C39", "C34", "C38", "C23"] + AGG,
    "src/quota_aggregator_impl.h": ["C12", "C13", "C14", "C39"] + AGG,
    "src/report_aggregator_impl.cc": ["C10", "C32", "C08", "C07", "C39", "C34", "C18", "C17"] + AGG,
    "src/report_aggregator_impl.h": ["C10", "C39"] + AGG,
    "src/cache_removed_items_handler.h": ["C11", "C02", "C01", "C31", "C10"],
    "src/aggregator_interface.h": ["C11", "C31"],
    "src/money_utils.cc": ["C27", "C28", "C21"],
    "src/money_utils.h": ["C27", "C28"],
    "src/operation_aggregator.cc": ["C20", "C21", "C22", "C28"],
    "src/operation_aggregator.h": ["C20", "C21", "C22"],
    "src/quota_operation_aggregator.cc": ["C23", "C14"],
    "src/quota_operation_aggregator.h": ["C23"],
    "src/service_control_client_impl.cc": ["C03", "C04", "C05", "C15", "C29", "C30", "C32", "C33", "C06", "C14", "C13"],
    "src/service_control_client_impl.h": ["C03", "C15", "C29", "C32", "C33"],
    "src/service_control_client_factory_impl.h": ["C05"],
    "src/signature.cc": ["C17", "C18"],
    "utils/distribution_helper.cc": ["C24", "C25", "C26"],
    "utils/md5.cc": ["C19"],
    "utils/md5.h": ["C19"],
    "utils/simple_lru_cache_inl.h": ["C35", "C36", "C37", "C39", "C31"],
    "utils/simple_lru_cache.h": ["C35"],
    "include/aggregation_options.h": ["C34", "C33"],
    "include/service_control_client.h": ["C33", "C34", "C04"],
    "sample/transport/http_transport.cc": ["C40", "C44"],
    "utils/thread.h": ["C29"],
}

def blank(src):
    """Comments, strings and preprocessor lines replaced by spaces of the same length."""
    def sp(m): return re.sub(r"[^\n]", " ", m.group(0))
    src = re.sub(r"//[^\n]*|/\*.*?\*/", sp, src, flags=re.S)
    src = re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: '"' + " " * (len(m.group(0)) - 2) + '"', src)
    return re.sub(r"^[ \t]*#(?:[^\n]*\\\n)*[^\n]*", sp, src, flags=re.M)

def mutants(path):
    raw = open(os.path.join(REPO, path)).read(); b = blank(raw); out = []
    def add(op, i, j, new):
        if raw[i:j] != new: out.append((op, i, j, new))
    # statements
    depth = 0; start = None; par = 0; braces = []
    stm = []
    last = 0
    i = 0
    stack = []
    while i < len(b):
        c = b[i]
        if c == "(": par += 1
        elif c == ")": par -= 1
        elif par == 0 and c in "{}": last = i + 1
        elif par == 0 and c == ";":
            s = b[last:i + 1]; k = len(s) - len(s.lstrip()); t = s.strip()
            stm.append((last + k, i + 1, t)); last = i + 1
        i += 1
    for (i, j, t) in stm:
        u = re.sub(r"^(?:else\b|(?:if|for|while)\s*\([^;{}]*?\)\s*(?=[a-z_A-Z(*]))", "", t).strip()
        if re.match(r"(using|typedef|class|struct|friend|static|public|private|extern|template|namespace|enum|virtual|explicit|return\b.*\bnew)\b", t): continue
        if re.match(r"[\w:<>,\s&*]+?\s[&*]?\w+\s*(=[^=].*|\(.*\))?;$", t, re.S) and not re.match(r"(return|delete|else|if|goto|break|continue|\w+\s*(=|\+=|-=|\())", t) : continue
        if re.match(r"(if|while|for|switch|else|case|default|do)\b", t):
            # the guarded simple statement
            m = re.match(r"(?:else\s+)?if\s*\(", t)
            if m:
                k = m.end(); d = 1
                while k < len(t) and d: d += (t[k] == "(") - (t[k] == ")"); k += 1
                add("del-guarded", i + k, j, ";")
            elif t.startswith("else"): add("del-else", i + 4, j, ";")
            continue
        rare = "static int n_ = 0; if (++n_ %% 97 %s 0) "
        if t == "break;" or t == "continue;": add("del", i, j, ";"); add("rare", i, j, "{ " + rare % "!=" + raw[i:j] + " }"); continue
        if t.startswith("return"):
            add("del-return", i, j, ";")
            if t == "return;": add("rare", i, j, "{ " + rare % "!=" + raw[i:j] + " }")
            continue
        add("del", i, j, ";")
        add("rare", i, j, "{ " + rare % "!=" + raw[i:j] + " }")
        add("twice", i, j, "{ " + rare % "==" + "{ " + raw[i:j] + " } " + raw[i:j] + " }")
    # two neighbouring expression statements swapped
    for (a, c) in zip(stm, stm[1:]):
        ex = lambda t: re.match(r"[\w>.\-:()*+\[\]]+\s*(\(|=|\+=|\+\+)", t) and not re.match(r"(return|if|for|while|else|case|using|const|auto|delete\s)\b", t)
        if b[a[1]:c[0]].strip() == "" and ex(a[2]) and ex(c[2]): add("swap", a[0], c[1], raw[c[0]:c[1]] + " " + raw[a[0]:a[1]])
    # if conditions
    for m in re.finditer(r"\b(if|while)\s*\(", b):
        k = m.end(); d = 1
        while d: d += (b[k] == "(") - (b[k] == ")"); k += 1
        cond = raw[m.end():k - 1]
        if ";" in b[m.end():k - 1]: continue
        if m.group(1) == "if":
            add("true", m.end(), k - 1, "(" + cond + ") || true"); 
        add("false", m.end(), k - 1, "(" + cond + ") && false")
        # operands of && and ||
        cb = b[m.end():k - 1]; d = 0; cuts = []
        for p, ch in enumerate(cb):
            d += (ch == "(") - (ch == ")")
            if d == 0 and cb[p:p + 2] in ("&&", "||"): cuts.append(p)
        if cuts:
            op = cb[cuts[0]:cuts[0] + 2]; es = [0] + [c + 2 for c in cuts]; fs = cuts + [len(cb)]
            for x, y in zip(es, fs):
                add("drop-operand", m.end() + x, m.end() + y, " (" + ("true" if op == "&&" else "false") + ")")
    for rx, news in [(r"(?<![<>=!\-+*/&|])<(?![<=])(?= )", ["<="]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>(?= )", [">="]), (r"(?<= )>=(?= )", [">"]),
                     (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]),
                     (r"(?<= )\*(?= )", ["/"]), (r"(?<= )/(?= )", ["*"]), (r"\+=", ["-=", "="]), (r"(?<![\w])-=", ["+="]), (r"\+\+", ["--"]), (r"(?<![\w])--", ["++"]),
                     (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
                     (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"])]:
        for m in re.finditer(rx, b):
            for n in news: add("op " + m.group(0) + " " + n, m.start(), m.end(), n)
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", b):
        add("const", m.start(), m.end(), str(int(m.group(1)) + 1))
        if int(m.group(1)) > 1: add("const0", m.start(), m.end(), str(int(m.group(1)) - 1))
    # call arguments swapped
    for m in re.finditer(r"\(([\w.\->:&*]+(?:\(\))?), ([\w.\->:&*]+(?:\(\))?)(?=[,)])", b):
        if m.group(1) != m.group(2): add("args", m.start(1), m.end(2), raw[m.start(2):m.end(2)] + ", " + raw[m.start(1):m.end(1)])
    # one getter or member for its sibling
    sib = [("start_time", "end_time"), ("metric_value_sets", "metric_value_sets"), ("first", "second"), ("head_", "tail_"), ("next", "prev"), ("->lru_next", "->lru_prev"),
           ("minimum", "maximum"), ("int64_value", "double_value"), ("flush_interval_ms", "expiration_ms"), ("check_", "quota_"), ("quota_metrics", "quota_metrics"),
           ("send_report", "send_check"), ("units", "nanos"), ("seconds", "nanos"), ("mutable_start_time", "mutable_end_time"), ("has_start_time", "has_end_time"),
           ("StartAutomaticFlush", "Flush"), ("Insert", "InsertPinned"), ("Remove", "Release"), ("MergeFrom", "CopyFrom"), ("CopyFrom", "MergeFrom"), ("Swap", "CopyFrom"), ("push_back", "push_front"),
           ("FlushAll", "Flush"), ("LookupWithOptions", "Lookup"), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"), ("pop_front", "pop_back"), ("back", "front"), ("front", "back"), ("service_name", "service_config_id"), ("begin", "end")]
    for a, c in sib:
        if a == c: continue
        for x, y in ((a, c), (c, a)):
            for m in re.finditer(r"(?<![\w])" + re.escape(x) + r"(?![\w])", b): add("name", m.start(), m.end(), y)
    seen, res = set(), []
    for o in out:
        # only inside lines the repository had originally
        if (o[1], o[2], o[3]) in seen: continue
        seen.add((o[1], o[2], o[3])); res.append(o)
    return raw, sorted(res, key=lambda o: o[1])

def show(raw, o):
    ln = raw.count("\n", 0, o[1]) + 1
    old = " ".join(raw[o[1]:o[2]].split())
    l = raw.split("\n")[ln - 1].strip()
    return "%4d %-14s [%s] -> [%s]   | %s" % (ln, o[0], old[:60], " ".join(o[3].split())[:60], l[:90])

def run(path, part):
    raw, ms = mutants(path)
    n, m = part
    d = "/tmp/mut/w_%s_%d" % (re.sub(r"\W", "_", path), n)
    shutil.rmtree(d, ignore_errors=True); subprocess.run(["git", "clone", "-q", REPO, d], check=True)
    first = FIRST.get(path, []); order = first + ([] if os.environ.get("FIRST_ONLY") else [x for x in ALL if x not in first])
    only = os.environ.get("MUT_OPS")
    ms = [(k, o) for k, o in enumerate(ms) if not only or re.match(only, o[0])]
    for q, (k, o) in enumerate(ms):
        if q % m != n: continue
        open(os.path.join(d, path), "w").write(raw[:o[1]] + o[3] + raw[o[2]:])
        env = dict(os.environ, VERIF_REPO=d)
        res, noans, by = "MISSED", [], None
        for c in order:
            try: r = subprocess.run([sys.executable, "check.py", c], cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: noans.append(c + ":timeout"); continue
            if r.returncode == 1 and "VIOLATION" in r.stdout: res, by = "CAUGHT", c; break
            if r.returncode != 0:
                t = (r.stdout + r.stderr)
                if "NO ANSWER: BuildError" in t: res = "NOCOMPILE"; break
                noans.append(c + ":" + t.strip()[-120:].replace("\n", " "))
        if res == "MISSED" and noans: res = "NOANSWER"
        print(res, by or "", path, k, show(raw, o), "; ".join(noans)[:300] if res == "NOANSWER" else "", flush=True)
    shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1] == "list":
        fs = sys.argv[2:] or sorted(FIRST)
        for f in fs:
            raw, ms = mutants(f)
            print(f, len(ms))
            if sys.argv[2:]:
                for k, o in enumerate(ms): print(k, show(raw, o))
    elif sys.argv[1] == "diff":
        raw, ms = mutants(sys.argv[2]); o = ms[int(sys.argv[3])]
        import difflib
        new = raw[:o[1]] + o[3] + raw[o[2]:]
        sys.stdout.writelines(difflib.unified_diff(raw.splitlines(1), new.splitlines(1), "a/" + sys.argv[2], "b/" + sys.argv[2]))
    else:
        a, bb = (int(x) for x in (sys.argv[3] if len(sys.argv) > 3 else "0/1").split("/"))
        run(sys.argv[2], (a, bb))
