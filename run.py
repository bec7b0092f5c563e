#!/usr/bin/env python3
"""Decide one property:  run.py C01 [--tier quick|thorough] [--case NAME] [--jobs N]
                replay:  run.py --replay replays/C01/xxx.json

Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Other: no answer.
"""
import argparse
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("SX_PYTHON", "/opt/venv/bin/python")
LEVEL = "model_checking"


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
    e.setdefault("VERIF_SEED", "1")
    return e


class Worker:
    def __init__(self, mode, module, tier):
        self.p = subprocess.Popen(
            [PY, os.path.join(VERIF, "sx", "worker.py"), mode, module, tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env(), cwd=VERIF)
        self.hello = None

    def ready(self):
        if self.hello is None:
            l = self.p.stdout.readline()
            self.hello = json.loads(l) if l else {"fatal": "worker died at start"}
        return self.hello

    def job(self, j):
        try:
            self.p.stdin.write(json.dumps(j) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            l = ""
        if not l:
            return None
        return json.loads(l)

    def stop(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


def pool(mode, module, tier, jobs, nproc, deadline, log):
    """Run jobs (list of dicts) on nproc workers; returns results in order."""
    results = [None] * len(jobs)
    q = queue.Queue()
    for i, j in enumerate(jobs):
        q.put((i, j))
    workers = []
    lock = threading.Lock()

    def loop():
        w = None
        while True:
            try:
                i, j = q.get_nowait()
            except queue.Empty:
                break
            if time.time() > deadline:
                results[i] = {"case": j["case"], "status": "inconclusive", "error": "run time limit"}
                continue
            if w is None or w.p.poll() is not None:
                w = Worker(mode, module, tier)
                with lock:
                    workers.append(w)
                h = w.ready()
                if "fatal" in h:
                    results[i] = {"case": j["case"], "status": "error", "error": h["fatal"]}
                    w.stop()
                    w = None
                    continue
            r = w.job(j)
            if r is None:
                r = {"case": j["case"], "status": "error", "error": "worker died"}
            results[i] = r
            log(r)
        if w is not None:
            w.stop()

    ts = [threading.Thread(target=loop, daemon=True) for _ in range(min(nproc, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(max(1, deadline + 30 - time.time()))
    for w in workers:
        w.stop()
    for i, j in enumerate(jobs):
        if results[i] is None:
            results[i] = {"case": j["case"], "status": "inconclusive", "error": "run time limit"}
    return results


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") != "fixed"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", action="append", help="only cases whose name matches this regexp")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    module = prop.lower()
    t0 = time.time()
    limit = a.limit or (700 if tier == "quick" else 6 * 3600)
    deadline = t0 + limit
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    w0 = Worker("conc", module, tier)
    hello = w0.ready()
    if "fatal" in hello:
        print("ERROR: cannot load the code under test or the harness:\n%s" % hello["fatal"])
        return 2
    names = hello["ready"]
    if a.case:
        names = [n for n in names if any(re.search(c, n) for c in a.case)]
    opts = {}
    if tier == "thorough":
        opts = {"mirror": "cvc5", "witnesses": 40, "time": 3000}

    def log(r):
        if a.v and "stats" in r:
            print("  %-50s %-8s paths %d(%d) nodes %d checks %d/%d queries %d wall %.1f %s"
                  % (r["case"], r["status"], r["stats"]["paths"], r["stats"]["paths_infeasible"],
                     r["stats"]["nodes"], r["stats"]["checks_solver"], r["stats"]["checks"],
                     r["solver"]["queries"], r["wall"],
                     " ".join(sorted({v["label"] for v in r["violations"]}))), flush=True)

    res = pool("sym", module, tier, [{"case": n, "opts": opts} for n in names], a.jobs, deadline, log)

    # ---- native replay of counterexamples and of path witnesses ---------------
    known = load_known(prop)
    errors = []
    confirmed = []
    unreproduced = []
    validated = 0
    for r in res:
        if r.get("status") in ("error", "inconclusive"):
            errors.append("%s: %s: %s" % (r["case"], r["status"], r.get("error")))
        if "violations" not in r:
            continue
        runs = [v["inputs"] for v in r["violations"]] + [w["inputs"] for w in r["witnesses"]]
        if not runs:
            continue
        if w0 is None or w0.p.poll() is not None:
            w0 = Worker("conc", module, tier)
            w0.ready()
        rr = w0.job({"case": r["case"], "runs": runs})
        if rr is None or "runs" not in rr:
            errors.append("%s: native replay failed: %s" % (r["case"], rr and rr.get("error")))
            continue
        nv = len(r["violations"])
        for v, c in zip(r["violations"], rr["runs"][:nv]):
            if c["error"]:
                errors.append("%s: harness error in native replay of %s: %s" % (r["case"], v["label"], c["tb"] or c["error"]))
            elif v["label"] in c["failed"]:
                confirmed.append((r["case"], v["label"], v["inputs"], c.get("tb") or v.get("info")))
            elif c["failed"]:
                confirmed.append((r["case"], c["failed"][0], v["inputs"], c.get("tb") or v.get("info")))
            else:
                unreproduced.append((r["case"], v["label"], v["inputs"], v.get("info")))
        for w, c in zip(r["witnesses"], rr["runs"][nv:]):
            if c["error"]:
                errors.append("%s: harness error in native validation: %s" % (r["case"], c["tb"] or c["error"]))
            elif c["failed"]:
                if r["violations"] and c["failed"][0] in [v["label"] for v in r["violations"]]:
                    continue  # same failure, already reported
                confirmed.append((r["case"], c["failed"][0], w["inputs"],
                                  "found by the native validation of a symbolic path\n%s" % (c.get("tb") or "")))
            elif c["assume"]:
                errors.append("%s: witness violates an assumption natively: %s" % (r["case"], w["inputs"]))
            elif c["obs"] != w["obs"]:
                d = [(x, y) for x, y in zip(w["obs"], c["obs"]) if x != y][:2] or (len(w["obs"]), len(c["obs"]))
                errors.append("%s: encoding mismatch: symbolic/native observations differ: %s inputs %s"
                              % (r["case"], str(d)[:600], w["inputs"]))
            else:
                validated += 1
        if r["missing"] and not r["violations"]:
            errors.append("%s: vacuity: never reached %s" % (r["case"], r["missing"]))
    w0.stop()

    # ---- verdict -----------------------------------------------------------------
    rdir = os.path.join(VERIF, "replays", prop)
    seen = set()
    nviol = 0
    kf = {}
    for case, label, inputs, info in confirmed:
        k = next((k for k in known if k["case"] == case and k["label"] == label), None)
        if k is not None:
            kf[(case, label)] = k
            continue
        if (case, label) in seen:
            continue
        seen.add((case, label))
        nviol += 1
        if nviol <= 20:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (re.sub(r"[^A-Za-z0-9_.-]+", "_", case)[:80], nviol))
            with open(path, "w") as f:
                json.dump({"property": prop, "module": module, "tier": tier, "case": case,
                           "label": label, "inputs": inputs, "info": info}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   case %s: %s" % (case, label))
            if info:
                print("   " + str(info).strip().replace("\n", "\n   ")[-800:])
    for (case, label), k in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for case, label, inputs, info in unreproduced:
        errors.append("%s: counterexample for %s does not reproduce natively: inputs %s %s" % (case, label, inputs, info))
    for e in errors[:30]:
        print("ERROR: %s" % e[:2500])

    wall = round(time.time() - t0, 2)
    if not a.case:
        write_evidence(prop, tier, seed, res, validated, nviol, wall, kf, errors, module)
    st = totals(res)
    print("%s %s: %d cases, %d paths, %d checks (%d by solver), %d queries, solver %.1f s, %d traces validated natively, "
          "%d violations, %d errors, %.1f s" % (prop, tier, len(res), st["paths"], st["checks"], st["checks_solver"],
                                               st["queries"], st["solver_time"], validated, nviol, len(errors), wall))
    if nviol:
        return 1
    return 2 if errors else 0


def totals(res):
    t = {k: 0 for k in ("paths", "paths_infeasible", "branches", "implied", "checks", "checks_solver",
                        "checks_simplified", "nodes", "queries", "mirror_queries")}
    t["solver_time"] = 0.0
    t["mirror_time"] = 0.0
    t["max_depth"] = 0
    t["max_query"] = 0.0
    t["sat"] = t["unsat"] = t["unknown"] = 0
    for r in res:
        if "stats" not in r:
            continue
        for k in ("paths", "paths_infeasible", "branches", "implied", "checks", "checks_solver",
                  "checks_simplified", "nodes"):
            t[k] += r["stats"][k]
        t["max_depth"] = max(t["max_depth"], r["stats"]["max_depth"])
        t["queries"] += r["solver"]["queries"]
        t["mirror_queries"] += r["solver"]["mirror_queries"]
        t["solver_time"] += r["solver"]["time"]
        t["mirror_time"] += r["solver"]["mirror_time"]
        t["max_query"] = max(t["max_query"], r["solver"]["max"])
        for k in ("sat", "unsat", "unknown"):
            t[k] += r["solver"]["results"][k]
    return t


def write_evidence(prop, tier, seed, res, validated, nviol, wall, kf, errors, module):
    t = totals(res)
    doc = json.loads(subprocess.run(
        [PY, "-c", "import ast,sys,json\nt=ast.parse(open(sys.argv[1]).read())\n"
         "d={}\n"
         "for n in t.body:\n"
         "  if isinstance(n,ast.Assign) and n.targets[0].id in('BOUNDS','ASSUMPTIONS'): d[n.targets[0].id]=ast.literal_eval(n.value)\n"
         "d['doc']=ast.get_docstring(t)\nprint(json.dumps(d))",
         os.path.join(VERIF, "checks", module + ".py")], stdout=subprocess.PIPE, text=True).stdout or "{}")
    ent = sorted({x for r in res for x in r.get("entered", [])})
    samples = []
    for r in res:
        if r.get("witnesses") and len(samples) < 6:
            w = r["witnesses"][0]
            samples.append({"case": r["case"], "inputs": dict(list(w["inputs"].items())[:24]),
                            "observed": str(w["obs"])[:600], "covered": w["cover"]})
    cases = [{"case": r["case"], "status": r.get("status"), "paths": r["stats"]["paths"],
              "checks": r["stats"]["checks"], "by_solver": r["stats"]["checks_solver"],
              "queries": r["solver"]["queries"], "symbolic_inputs": r.get("inputs"), "wall_s": r["wall"]}
             for r in res if "stats" in r]
    ncases = len(cases)
    cases = cases[:150]
    cov = {
        "states": t["nodes"], "transitions": t["branches"] + t["implied"],
        "traces_validated_against_impl": validated,
        "samples": samples or ["none"],
        "explanation": doc.get("doc", ""),
        "bounds": doc.get("BOUNDS", ""),
        "functions_encoded": ent,
        "paths": t["paths"], "paths_infeasible": t["paths_infeasible"], "max_path_depth": t["max_depth"],
        "assertions": t["checks"], "assertions_decided_by_solver": t["checks_solver"],
        "assertions_decided_by_term_normalisation": t["checks_simplified"],
        "solver_queries": t["queries"], "solver_answers": {k: t[k] for k in ("sat", "unsat", "unknown")},
        "solver_time_s": round(t["solver_time"], 2), "slowest_query_s": t["max_query"],
        "second_solver_queries": t["mirror_queries"], "second_solver_time_s": round(t["mirror_time"], 2),
        "cases_total": ncases, "cases": cases,
        "known_findings_seen": [k["what"] for k in kf.values()],
        "incomplete": [e[:300] for e in errors[:10]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": doc.get("ASSUMPTIONS", []), "wall_s": wall, "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov["cases"]:
        cov["cases"] = cov["cases"][: len(cov["cases"]) // 2]
        s = json.dumps(ev, indent=1)
    with open(p, "w") as f:
        f.write(s)


def replay(path):
    j = json.load(open(path))
    w = Worker("conc", j["module"], j["tier"])
    h = w.ready()
    if "fatal" in h:
        print(h["fatal"])
        return 2
    r = w.job({"case": j["case"], "runs": [j["inputs"]]})
    w.stop()
    c = r["runs"][0]
    print(json.dumps(c, indent=1))
    print("reproduced" if j["label"] in c["failed"] else "NOT reproduced", j["label"])
    return 1 if c["failed"] else 0


if __name__ == "__main__":
    sys.exit(main())
