#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of properties.jsonl on /repo's current tree (see DESIGN.md).
Tier and seed from VERIF_TIER / VERIF_SEED. Exit 0: held; 1: VIOLATION; 2: no answer."""
import json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from table import PROPS
V = build.V
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CORES = 8


def fail(msg):
    print("ERROR:", msg)
    sys.exit(2)


def expected_reach(crate):
    """reach!("..") witnesses of each harness, from the harness sources"""
    out = {}
    src = os.path.join(V, build.CRATES[crate]["dir"], "src")
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"): continue
            cur = None
            for line in open(os.path.join(root, f)):
                m = re.match(r'\s*pub extern "C" fn (\w+)\(', line)
                if m: cur = m.group(1); out.setdefault(cur, set())
                elif re.match(r'^(pub )?(unsafe )?fn ', line): cur = None
                if cur and not line.strip().startswith("//"):
                    for w in re.findall(r'reach!\("([^"]*)"\)', line): out[cur].add(w)
    return out


def run_harness(crate, h, o, workdir):
    art = build.artifacts(crate)
    res = []
    for solver in o["solvers"]:
        out = os.path.join(workdir, f"{h}.{solver}.json")
        for f in os.listdir(workdir):
            if f.startswith(os.path.basename(out)): os.remove(os.path.join(workdir, f))
        jobs = o["jobs"]
        cmd = [build.SYMEX, art["ll"], h, "--out", out, "--jobs", str(jobs), "--solver", solver, "--query-timeout", str(o["query_timeout"]),
               "--time", str(o["time"]), "--max-paths", str(o["max_paths"]), "--max-recs", str(max(4, o["recs"] // jobs)), "--enum", str(o["enum"])]
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=o["time"] + 120)
            err = p.stderr.decode(errors="replace")[-400:]
            code = p.returncode
        except subprocess.TimeoutExpired:
            err, code = "timeout", -1
        parts = [os.path.join(workdir, f) for f in sorted(os.listdir(workdir)) if f == os.path.basename(out) or f.startswith(os.path.basename(out) + ".")]
        r = merge([json.load(open(f)) for f in parts])
        if code != 0 or not parts: r["errors"]["symex ended with %s: %s" % (code, err.strip())] = 1
        r["solver"] = solver
        res.append(r)
    return res


def merge(rs):
    m = dict(paths={}, aborts={}, errors={}, nviol={}, reached=set(), violations=[], recs=[], covered={}, props=0, props_trivial=0, queries=0, sat=0, unsat=0, solver_s=0.0, forks=0, instrs=0, max_query_s=0.0)
    for r in rs:
        for k in ("paths", "aborts", "errors", "nviol"):
            for a, b in r[k].items(): m[k][a] = m[k].get(a, 0) + b
        for k in ("props", "props_trivial", "queries", "sat", "unsat", "solver_s", "forks", "instrs"): m[k] += r[k]
        m["max_query_s"] = max(m["max_query_s"], r["max_query_s"])
        m["reached"] |= set(r["reached"])
        m["violations"] += r["violations"]
        m["recs"] += r["recs"]
        for f, fs in r["covered"].items():
            for n, l in fs.items(): m["covered"].setdefault(f, {}).setdefault(n, set()).update(l)
    return m


def native(crate, items):
    """runs (harness, hex) natively; list of (outcome, hash, message)"""
    if not items: return []
    art = build.artifacts(crate)
    inp = "".join(f"{h} {x}\n" for h, x in items)
    p = subprocess.run([build.REPLAY, art["so"]], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600)
    out = []
    for l in p.stdout.decode().splitlines():
        a = l.split(" ", 2)
        out.append((a[0], a[1], a[2] if len(a) > 2 else ""))
    if len(out) != len(items): fail("native replay ended early")
    return out


def main():
    prop = sys.argv[1]
    P = PROPS[prop]
    t0 = time.time()
    workdir = os.path.join(V, "build", "run", prop)
    os.makedirs(workdir, exist_ok=True)
    ev = os.path.join(V, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev): os.remove(ev)
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == prop]
    work = []
    btime = 0
    for crate in P["crates"]:
        b0 = time.time()
        err = build.build(crate)
        btime += time.time() - b0
        if err: fail(f"the harness crate does not build against /repo:\n{err}")
        ll = open(build.artifacts(crate)["ll"], errors="replace").read()
        names = sorted(set(re.findall(r"^define [^\n]*@(%st?_\w+)\(" % prop.lower(), ll, re.M)))
        del ll
        reach = expected_reach(crate)
        for h in names:
            thorough_only = h.startswith(prop.lower() + "t_")
            if thorough_only and TIER != "thorough": continue
            o = dict(jobs=1, solvers=["z3"], query_timeout=200, time=600, max_paths=2000000, recs=48, enum=300)
            o.update(P.get("opts", {}).get(h, {}))
            if TIER == "thorough":
                o["solvers"] = o["solvers"] + [s for s in P.get("thorough_solvers", ["cvc5"]) if s not in o["solvers"]]
                o["time"] = 6000; o["query_timeout"] = 1200
                o["recs"] *= 4
            work.append((crate, h, o, reach.get(h, set())))
    if not work: fail("no harness found")
    # largest first, at most CORES workers at a time
    work.sort(key=lambda w: (-w[2]["jobs"], -w[2].get("weight", 0)))
    results = {}
    cv = threading.Condition()
    free = [CORES]

    def go(w):
        j = min(CORES, w[2]["jobs"])
        with cv:
            while free[0] < j: cv.wait()
            free[0] -= j
        try: results[w[1]] = run_harness(w[0], w[1], w[2], workdir)
        except Exception as e:
            results[w[1]] = None
            print("ERROR:", w[1], e)
        with cv:
            free[0] += j
            cv.notify_all()
    ths = [threading.Thread(target=go, args=(w,)) for w in work]
    for t in ths: t.start()
    for t in ths: t.join()

    problems, confirmed, knowns, validated, samples = [], [], {}, 0, []
    tot = merge([])
    crosscheck = {}
    for crate, h, o, reach in work:
        rs = results[h]
        if rs is None: problems.append(f"{h}: engine failure"); continue
        for r in rs:
            for e, n in r["errors"].items(): problems.append(f"{h} [{r['solver']}]: {e} (x{n})")
            if not r["errors"]:
                miss = reach - r["reached"]
                if miss: problems.append(f"{h}: nothing reaches {sorted(miss)}: the assertions there would be vacuous")
            vs = [v for v in r["violations"]]
            for v, n in zip(vs, native(crate, [(h, v["input"]) for v in vs])):
                if n[0] == "violated":
                    k = [k for k in known if k["harness"] == h and k["message"] == n[2]]
                    if k: knowns[k[0]["id"]] = k[0]
                    else: confirmed.append(dict(harness=h, crate=crate, message=n[2], input=v["input"]))
                else: problems.append(f"{h}: counterexample does not reproduce natively ({n[0]}): {v['msg']} {v['input'][:400]}")
            recs = r["recs"]
            for (oc, inp, hs), n in zip(recs, native(crate, [(h, x[1]) for x in recs])):
                if oc == n[0] and (oc == "abort" or hs == n[1]): validated += 1
                elif n[0] == "violated" and any(v["msg"] == n[2] for v in r["violations"]): pass
                else: problems.append(f"{h}: encoding and native run disagree on {inp[:400]}: {oc}/{hs} vs {n[0]}/{n[1]} {n[2]}")
            for x in recs[:2]: samples.append(dict(harness=h, input=x[1][:600], outcome=x[0]))
        crosscheck[h] = {r["solver"]: dict(paths=r["paths"], queries=r["queries"], sat=r["sat"], unsat=r["unsat"], assertions=r["props"], assertions_decided_syntactically=r["props_trivial"], forks=r["forks"], ir_instructions=r["instrs"], solver_s=round(r["solver_s"], 2), max_query_s=round(r["max_query_s"], 2)) for r in rs}
        m = merge(rs[:1])
        one = merge([tot_part(tot), tot_part(m)])
        tot = one
    fns = {}
    for f, d in tot["covered"].items():
        f = f.split("/repo/")[-1]
        for n, l in d.items(): fns.setdefault(f, {}).setdefault(n.split("<")[0], set()).update(l)
    evd = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", wall_s=round(time.time() - t0, 1),
        violations=len(confirmed),
        assumptions=P.get("assumptions", []) + ["LLVM 16 IR of the release profile (opt-level 2, for the proof verification 1 without inlining; no overflow checks) as the semantics of the code; the executor (/verif/symex), validated per run against native runs of the same build, and the SMT solver are trusted"],
        coverage=dict(
            states=sum(tot["paths"].values()), transitions=tot["forks"], traces_validated_against_impl=validated, samples=samples[:12],
            rule="states: explored paths (an equivalence class of inputs each, described by a path condition; together they cover every input within the bounds); transitions: feasible two-way splits of a path condition; traces_validated: paths whose solver model was executed natively with the same outcome and the same observed bytes",
            ir_instructions=tot["instrs"], assertions=tot["props"], queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], solver_s=round(tot["solver_s"], 2), build_s=round(btime, 1),
            bounds=P["bounds"], outside=P.get("outside", ""), aborting_paths=tot["aborts"],
            functions_encoded={f: {n: f"lines {min(l)}-{max(l)} ({len(l)} executed)" for n, l in sorted(d.items())} for f, d in sorted(fns.items())},
            harnesses=crosscheck, known_findings=sorted(knowns), errors=problems[:20]))
    json.dump(evd, open(ev, "w"), indent=1)
    for k in knowns.values(): print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
    if confirmed:
        d = os.path.join(V, "build", "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, c in enumerate(confirmed):
            key = (c["harness"], c["message"])
            if key in seen: continue
            seen.add(key)
            path = os.path.join(d, f"{prop}-{len(seen)}.json")
            c["replay_cmd"] = f"python3 {V}/tools/replay.py {path}"
            json.dump(c, open(path, "w"), indent=1)
            print(f"  {c['harness']}: {c['message']}  input {c['input'][:160]}")
            print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    if problems:
        for p in problems[:20]: print("ERROR:", p)
        sys.exit(2)
    print(f"{prop}: held on {sum(tot['paths'].values())} paths of {len(work)} harnesses, {tot['queries']} queries, solver {tot['solver_s']:.1f} s, build {btime:.1f} s, total {time.time()-t0:.1f} s, {validated} paths validated natively")


def tot_part(m):
    m = dict(m)
    m["reached"] = list(m["reached"])
    return m


main()
