#!/usr/bin/env python3-vt
"""run.py Cxx: decide one property on the current tree of /repo.

1. every contract of contracts/cXX.py: generate the obligations of the function from the current
   source and discharge them (z3, then cvc5);
2. finders/cXX.py: the executable form of the contracts against the real code (counterexample
   search and replay; the labelled bounded stand-in for what is not under contract);
3. verdict, replay files, evidence/<id>.json.
"""
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
PYPY = "/opt/pypyvenv/bin/python"
BASE = os.path.join(HERE, "baseline.json")       # contract -> digest of the functions as first verified
FINDERS = 4
KNOWN = os.path.join(HERE, "known-findings.txt")


def contract_list(prop):
    try:
        m = importlib.import_module("contracts." + prop.lower())
    except ModuleNotFoundError as e:
        if "contracts." + prop.lower() in str(e):
            return None, []
        raise
    return m, m.contracts()


def run_one(args):
    prop, idx, thorough = args
    from vc.verify import verify
    m, cs = contract_list(prop)
    c = cs[idx]
    kw = dict(contracts=c.uses() if hasattr(c, "uses") else {},
              schemas=c.schemas() if hasattr(c, "schemas") else {},
              ext=c.ext() if hasattr(c, "ext") else {})
    budget = getattr(c, "budget", 240) * (2 if thorough else 1)
    try:
        r = verify(c, repo=REPO, timeout=getattr(c, "timeout", 20000) * (2 if thorough else 1), budget=budget, **kw)
    except Exception as e:
        return dict(name=c.name, qual=c.qual, status="undecided", reason="verifier error: %r" % e, obligations=[],
                    inlined=[], models=[], used=[], assumptions=[], time=0.0, n=0, discharged=0, paths=0, digest="",
                    trusts=list(getattr(c, "trusts", ())))
    return dict(name=c.name, qual=c.qual, status=r.status, reason=r.reason, obligations=r.obligations,
                inlined=r.inlined, models=r.models, used=r.used, assumptions=r.assumptions, time=r.time, n=r.n,
                discharged=r.discharged, paths=r.paths, digest=digest([c.qual] + r.inlined),
                trusts=list(getattr(c, "trusts", ())))


def digest(quals):
    """identifies the text (comments and layout aside) of the functions"""
    from vc.program import Program
    prog = Program(REPO)
    h = hashlib.sha256()
    for q in sorted(set(quals)):
        try:
            f = prog.find(q)
            h.update((q + (ast.dump(f[2]) if f else "none")).encode())
        except Exception:
            h.update((q + "?").encode())
    return h.hexdigest()[:16]


def find(prop, seed, budget, out, known):
    """the search, in several processes with different seeds"""
    script = os.path.join(HERE, "finders", prop.lower() + ".py")
    if not os.path.exists(script):
        return None
    return [(find1(script, seed + 100000 * n, budget, "%s.%d" % (out, n), known), "%s.%d" % (out, n)) for n in range(FINDERS)]


def find1(script, seed, budget, out, known):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=REPO)
    return subprocess.Popen([PYPY, script, "--seed", str(seed), "--budget", str(budget), "--out", out,
                             "--known", "\x1f".join(known)], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, cwd=os.path.join(HERE, "finders"))


def finish(ps, limit):
    if ps is None:
        return None
    end = time.time() + limit
    res = [finish1(p, out, max(1.0, end - time.time())) for p, out in ps]
    d = dict(res[0], fails=[], known=[], error="")
    d["evaluations"] = sum(r.get("evaluations", 0) for r in res)
    seen = set()
    for r in res:
        for f in r.get("fails", []):
            if (f["scenario"], f["key"]) not in seen:
                seen.add((f["scenario"], f["key"]))
                d["fails"].append(f)
        d["known"] = sorted(set(d["known"]) | set(r.get("known", [])))
        d["error"] = d["error"] or r.get("error", "")
    per = {}
    for r in res:
        for k, n in r.get("per_scenario", {}).items():
            per[k] = per.get(k, 0) + n
    d["per_scenario"] = per
    return d


def finish1(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(error="the search did not end within %d s" % limit, fails=[], known=[], evaluations=0)
    try:
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
        return d
    except (OSError, ValueError):
        return dict(error=txt.decode("utf8", "replace")[-3000:], fails=[], known=[], evaluations=0)


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("KNOWN: property=%s " % prop):
                key, text = line.split(" ", 2)[2].split(" :: ", 1)
                out[key] = text
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    update = "--baseline" in sys.argv
    t0 = time.time()
    rep = os.path.join(HERE, "replays")
    os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    tmp = os.path.join(rep, ".%s.%d.json" % (prop, os.getpid()))
    fb = 150.0 if thorough else 15.0
    p = find(prop, seed, fb, tmp, known)
    m, cs = contract_list(prop)
    with mp.Pool(max(1, min(6, len(cs))), maxtasksperchild=1) as pool:
        results = pool.map(run_one, [(prop, i, thorough) for i in range(len(cs))], chunksize=1) if cs else []
    fr = finish(p, fb * 3 + 60) or dict(error="no executable contract", fails=[], known=[], evaluations=0)
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    failed, undecided, proved = [], [], []
    for r in results:
        if r["status"] == "proved":
            proved.append(r)
        elif r["status"] == "failed":
            failed.append(r)
        elif any(o["status"] == "timeout" for o in r["obligations"]) and \
                r["name"] in base and base[r["name"]] != r["digest"]:
            # an obligation that was discharged before is not any more after the text changed
            failed.append(r)
        else:
            undecided.append(r)
    changed = [r["name"] for r in results if r["name"] in base and base[r["name"]] != r["digest"]]
    if not fr.get("fails") and (failed or changed or undecided):
        # the functions changed, or an obligation fails: search longer for an input that shows it
        more = find(prop, seed + 1000, 60.0 if failed else 25.0, tmp, known)
        fr2 = finish(more, 240)
        if fr2:
            fr2["evaluations"] += fr.get("evaluations", 0)
            fr2["known"] = sorted(set(fr2.get("known", [])) | set(fr.get("known", [])))
            fr = fr2
    violations = []
    for f in fr.get("fails", [])[:5]:
        path = os.path.join(rep, "%s-%s-%s.json" % (prop, f["scenario"], f["case"]))
        with open(path, "w") as out:
            json.dump(dict(property=prop, failing=f,
                           replay="cd %s/finders && %s %s.py --replay %s" % (HERE, PYPY, prop.lower(), path),
                           failed_obligations=[dict(function=r["qual"], obligation=o["name"], where=o["where"],
                                                    solver=o["status"]) for r in failed for o in r["obligations"]
                                               if o["status"] not in ("proved", "skipped")]), out, indent=1)
        violations.append("VIOLATION property=%s replay=%s" % (prop, path))
    if not violations:
        for r in failed:
            path = os.path.join(rep, "%s-%s.json" % (prop, r["name"].replace(":", "_").replace("/", "_")))
            with open(path, "w") as out:
                json.dump(dict(property=prop, function=r["qual"],
                               failed=[o for o in r["obligations"] if o["status"] not in ("proved", "skipped")],
                               note="the obligation was generated from the current source of /repo; no failing input "
                                    "was found by the search over the executable contract",
                               reproduce="cd %s && python3-vt run.py %s" % (HERE, prop)), out, indent=1)
            violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    if update:
        for r in results:
            if r["status"] == "proved":
                base[r["name"]] = r["digest"]
            else:
                base.pop(r["name"], None)
        with open(BASE, "w") as f:
            json.dump(base, f, indent=1, sort_keys=True)
            f.write("\n")
    nobl = sum(r["n"] for r in results)
    ndis = sum(r["discharged"] for r in results)
    back = {}
    for r in results:
        for o in r["obligations"]:
            if o["status"] == "proved":
                back[o["backend"]] = back.get(o["backend"], 0) + 1
    trusted = ["z3 %s / cvc5 and the VC generator /verif/vc (path exploration, loop cutting, memory model)"
               % __import__("z3").get_version_string(),
               "Python ints are mathematical; floats are treated as mathematical reals",
               "dependency models used: " + ", ".join(sorted({x for r in results for x in r["models"]}) or ["none"])]
    for r in results:
        for x in r["assumptions"]:
            trusted.append("%s: %s" % (r["qual"], x))
        for x in r["used"]:
            trusted.append("%s is used through its contract in %s" % (x, r["qual"]))
        for x in r["trusts"]:
            trusted.append("%s: %s" % (r["qual"], x))
    slow = sorted(((o["time"], r["qual"], o["name"]) for r in results for o in r["obligations"]), reverse=True)[:3]
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(m, "LEVEL", "proof"), wall_s=round(time.time() - t0, 2),
              violations=len(violations),
              assumptions=sorted(set(trusted[1:] + list(getattr(m, "ASSUMES", ())))),
              coverage=dict(
                  obligations=nobl, discharged=ndis, checker_cmd="python3-vt run.py %s" % prop,
                  trusted_base=sorted(set(trusted)),
                  functions_under_contract=[dict(function=r["qual"], contract=r["name"], status=r["status"],
                                                 obligations=r["n"], discharged=r["discharged"], paths=r["paths"],
                                                 inlined=r["inlined"], seconds=round(r["time"], 2),
                                                 reason=r["reason"]) for r in results],
                  backends=back, solver_seconds=round(sum(o["time"] for r in results for o in r["obligations"]), 2),
                  slowest=[dict(seconds=round(a, 2), function=b, obligation=c) for a, b, c in slow],
                  undecided=[dict(function=r["qual"], reason=r["reason"]) for r in undecided],
                  extraction="none: the obligations are generated from the ast of the file in /repo on every run; "
                             "docstrings, comments and logging calls have no effect in the semantics",
                  bounded_stand_in=dict(
                      what="executable contract against the real code (labelled bounded, never counted as proved)",
                      evaluations=fr.get("evaluations", 0), per_scenario=fr.get("per_scenario", {}),
                      decides=list(getattr(m, "BOUNDED", ())), error=fr.get("error", ""))))
    if m is None:
        ev["level"] = "other"
        ev["coverage"]["explanation"] = "bounded stand-in only: no contract within reach"
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in results:
        print("%-9s %4d/%-4d %6.1fs %s %s" % (r["status"], r["discharged"], r["n"], r["time"], r["name"], r["reason"]))
        for o in r["obligations"]:
            if o["status"] not in ("proved", "skipped"):
                print("   failed obligation: %s (%s) %s" % (o["name"], o["status"], o["where"]))
    print("bounded stand-in: %s evaluations %s" % (fr.get("evaluations"), fr.get("error", "")[-1500:]))
    for f in fr.get("fails", []):
        print("   failing input: %s case %s: %s" % (f["scenario"], f["case"], f["what"]))
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    for x in violations:
        print(x)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
