#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                       run a recorded counterexample against the real code again
Exit 0: held on everything explored.  Exit 1 (+ VIOLATION line): broken.  Exit 2: no answer (build or engine failure)."""
import sys, os, json, time, subprocess, tempfile, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build, props
B = build.B; T = B + "/t"
EV = os.environ.get("VERIF_EVIDENCE", V + "/evidence")
NATIVE = {"panic": ("panic",), "abort": ("panic",), "assert": ("assert",), "assert-failed": ("assert",), "deadlock": ("deadlock",), "hang": ("hang",), "memory": ("memory", "panic"), "alloc": ("memory", "panic", "hang")}

def native(entry, params, tape, alarm=10):
    """Run the real code (native build) on one concrete input tape."""
    with tempfile.TemporaryDirectory(prefix="rsym") as d:
        open(d + "/t", "w").write(" ".join(map(str, tape))); open(d + "/p", "w").write(" ".join(map(str, params)))
        env = dict(os.environ, RSYM_TAPE=d + "/t", RSYM_PARAMS=d + "/p", RSYM_ALARM=str(alarm))
        try: p = subprocess.run([T + "/harness", entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=alarm + 20, cwd=d)
        except subprocess.TimeoutExpired: return "hang", "no end within %ds" % (alarm + 20), []
        o = p.stdout.decode("utf8", "replace")
    g = lambda k: (re.findall(r"^%s ?(.*)$" % k, o, re.M) or [""])[-1]
    oc = g("OUTCOME")
    if not oc: oc = "panic" if p.returncode < 0 else "none"
    return oc, g("MSG") or o[-400:], [int(x) for x in g("TRACE").split()]

def engine(entry, params, o, jobs, left):
    out = tempfile.mktemp(prefix="rsym.", suffix=".json", dir=B)
    cmd = [build.ENGINE, T + "/h.ll", "--entry", entry, "--params", ",".join(map(str, params)), "--steps", str(o.get("steps", 4_000_000)), "--time", "%.1f" % min(o.get("time", 300), left), "--jobs", str(jobs), "--out", out, "--samples", str(o.get("samples", 4)), "--sample-every", str(o.get("every", 211)), "--max-viol", "3"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out):
        return None, "engine exit %d: %s" % (p.returncode, p.stdout[-1500:])
    d = json.load(open(out)); os.unlink(out)
    return d, None

def demangle(n):
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m: 
        r = re.match(r"_R[A-Za-z0-9_]*", n); return n
    s = m.group(1); out = []
    while s:
        k = re.match(r"(\d+)", s)
        if not k: break
        l = int(k.group(1)); s = s[len(k.group(1)):]; out.append(s[:l]); s = s[l:]
    t = "::".join(out)
    for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$C$", ","), ("$BP$", "*"), ("$u7b$", "{"), ("$u7d$", "}"), ("..", "::"), ("$LP$", "("), ("$RP$", ")"), ("$u5b$", "["), ("$u5d$", "]")): t = t.replace(a, b)
    return t

def known():
    r = []
    for l in open(V + "/known-findings.txt"):
        m = re.match(r"open: property=(\S+) entry=(\S+) match=/(.*)/ (.*)$", l.strip())
        if m: r.append(m.groups())
    return r

def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        r = json.load(open(a[1])); build.build()
        oc, msg, tr = native(r["entry"], r["params"], r["tape"], 20); print("OUTCOME", oc, "MSG", msg); return 0 if oc == "ok" else 1
    prop = a[0]; tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    try: bi = build.build()
    except build.BuildError as e: print("BUILD FAILED\n%s" % e); return 2
    P = props.PROPS[prop]; jobs = P["jobs"][tier] if isinstance(P["jobs"], dict) else P["jobs"]
    limit = 3000 if tier == "thorough" else 560
    ncpu = os.cpu_count() or 8
    viols, broken, per, fns, samples = [], [], [], {}, []
    tot = dict(states=0, transitions=0, paths=0, queries=0, cache_hits=0, sat=0, unsat=0, unknown=0, asserts=0, assert_q=0, solver_s=0.0, infeasible=0, branches=0)
    incomplete = []; validated = 0; kf = known(); kfseen = []
    nsample = 0
    for i, (entry, params, o) in enumerate(jobs):
        left = limit - (time.time() - t0)
        if left < 5: incomplete.append("%s%s not run: time budget used" % (entry, params)); continue
        d, err = engine(entry, params, o, ncpu, left)
        if err: broken.append("%s%s: %s" % (entry, params, err)); continue
        S = lambda k: sum(p[k] for p in d["parts"])
        errs = {}; reach = {}
        for p in d["parts"]:
            for k, v in p["errors"].items(): errs[k] = errs.get(k, 0) + v
            for k, v in p["reach"].items(): reach[int(k)] = reach.get(int(k), 0) + v
            for k, v in p["fns"].items(): fns[k] = fns.get(k, 0) + v
        vs = [v for p in d["parts"] for v in p["viol"]]
        confirmed = slow = 0
        for v in vs[:6]:
            if v["kind"] == "hang" and slow: slow += 1; continue
            oc, msg, tr = native(entry, params, v["tape"], 150 if v["kind"] == "hang" and o.get("steps") else 10)
            if v["kind"] == "hang" and oc in ("ok", "exit", "assume"):   # slow, not endless: the real code reaches its end on this input
                slow += 1; continue
            if oc in NATIVE.get(v["kind"], ()) or (oc not in ("ok", "assume", "none", "exit") and v["kind"] in ("hang", "memory", "alloc")):
                confirmed += 1
                m = next((k for k in kf if k[0] == prop and k[1] == entry and re.search(k[2], v["msg"] + " " + msg)), None)
                if m: kfseen.append(m[3])
                else: viols.append(dict(property=prop, entry=entry, params=params, tape=v["tape"], kind=v["kind"], what=v["msg"], at=v["loc"], stack=[demangle(x) for x in v["stack"][:12]], native_outcome=oc, native_message=msg[:400]))
            else: broken.append("%s%s: counterexample did not replay natively: engine %s %s, native %s %s tape %s" % (entry, params, v["kind"], v["msg"], oc, msg[:200], v["tape"][:40]))
        # paths that could not be followed to their end are not part of what was explored
        if errs: incomplete.append("%s%s: paths cut short: %s" % (entry, params, "; ".join("%s (x%d)" % (k[:600], n) for k, n in list(errs.items())[:3])))
        if d["crashed"]: broken.append("%s%s: %d engine processes crashed" % (entry, params, d["crashed"]))
        if slow: incomplete.append("%s%s: %d paths longer than the step limit (the native build ends on them without a complaint)" % (entry, params, slow))
        if S("unknown"): incomplete.append("%s%s: %d solver queries undecided" % (entry, params, S("unknown")))
        if d["timeout"]: incomplete.append("%s%s: stopped at the time limit after %d paths, %d states pending" % (entry, params, S("paths"), S("left")))
        if errs and not vs and not S("paths"): broken.append("%s%s: nothing could be explored" % (entry, params))
        if not vs and not d["timeout"] and not errs:
            miss = [m for m in o.get("reach", [1]) if not reach.get(m)]
            lost = [m for m in o.get("soft", []) if not reach.get(m)]
            if lost: incomplete.append("%s%s: what this code keeps its entries in is not observed here (markers %s not reached)" % (entry, params, lost))
            if miss: broken.append("%s%s: vacuous: reachability markers %s were not reached (reached %s)" % (entry, params, miss, reach))
        # sampled paths: the native build must agree with the symbolic run
        ss = [s for p in d["parts"] for s in p["samples"] if s["outcome"] in ("ok", "exit")]
        pick = ss[:: max(1, len(ss) // o.get("validate", 6))][: o.get("validate", 6)]
        for s in pick:
            oc, msg, tr = native(entry, params, s["tape"], 20)
            if oc != "ok" or tr != s["trace"]: broken.append("%s%s: a sampled path differs natively: %s %s vs trace %s / %s tape %s" % (entry, params, oc, msg[:200], s["trace"][:30], tr[:30], s["tape"][:40]))
            else: validated += 1
            if len(samples) < 12 and nsample < 2 * (i + 1): samples.append(dict(entry=entry, params=params, tape=s["tape"][:60], trace=s["trace"][:60], instructions=s["steps"])); nsample += 1
        per.append(dict(entry=entry, params=params, bound=o.get("bound", ""), paths=S("paths"), infeasible=S("infeasible"), instructions=S("insts"), branches=S("branches"), forks=S("forks"), assertions=S("asserts"), assertion_queries=S("assert_q"), queries=S("queries"), cache_hits=S("hits"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), solver_s=round(S("solver_s"), 2), wall_s=d["wall_s"], max_steps_per_path=max(p["max_steps"] for p in d["parts"]), step_limit=o.get("steps", 4_000_000), timeout=d["timeout"], reach=reach))
        tot["states"] += S("forks") + 1; tot["transitions"] += S("insts"); tot["paths"] += S("paths"); tot["queries"] += S("queries"); tot["cache_hits"] += S("hits"); tot["sat"] += S("sat"); tot["unsat"] += S("unsat"); tot["unknown"] += S("unknown"); tot["asserts"] += S("asserts"); tot["assert_q"] += S("assert_q"); tot["solver_s"] += S("solver_s"); tot["infeasible"] += S("infeasible"); tot["branches"] += S("branches")
        print("%s %s: %d paths, %d assertions, %d queries, solver %.1fs, wall %.1fs%s%s" % (entry, params, S("paths"), S("asserts"), S("queries"), S("solver_s"), d["wall_s"], " TIMEOUT" if d["timeout"] else "", " VIOLATIONS %d" % len(vs) if vs else ""), flush=True)
        if viols and tier == "quick": break
    tot["solver_s"] = round(tot["solver_s"], 2)
    mine = sorted({demangle(k): v for k, v in fns.items() if re.search(r"server|async_server", k)}.items(), key=lambda x: -x[1])
    others = len(fns) - len(mine)
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=validated, samples=samples,
        totals={k: v for k, v in tot.items() if k not in ("states", "transitions")}, runs=per, complete=not incomplete and not broken, incomplete=incomplete,
        functions_encoded=[k[:140] for k, _ in mine][:150], functions_encoded_repo=len(mine), functions_encoded_other=others, build=bi,
        explanation="states: symbolic states explored (forks+1 per run); transitions: LLVM instructions executed symbolically; each run explores every path of the real code over its symbolic inputs within the stated bound, every branch and assertion decided by Z3.")
    os.makedirs(EV, exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov, assumptions=P.get("assumptions", []) + props.TRUST, wall_s=round(time.time() - t0, 2), violations=len(viols)), open(EV + "/%s.json" % prop, "w"), indent=1)
    for k in sorted(set(kfseen)): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for l in incomplete: print("NOTE incomplete:", l)
    for l in broken: print("NOTE problem:", l[:1500])
    if viols:
        for i, v in enumerate(viols[:3]):
            f = EV + "/replay-%s-%d.json" % (prop, i); json.dump(v, open(f, "w"), indent=1)
            print("%s: %s (%s; native: %s %s) tape %s" % (v["entry"], v["what"], v["kind"], v["native_outcome"], v["native_message"][:200], v["tape"][:40]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if broken: return 2
    print("%s held: %d paths, %d assertions, %d solver queries (%.1fs), %d native replays agreed, %.1fs" % (prop, tot["paths"], tot["asserts"], tot["queries"], tot["solver_s"], validated, time.time() - t0))
    return 0
if __name__ == "__main__": sys.exit(main())
