"""C23: runs the symbolic execution of the Python wrapper and replays counterexamples."""
import os, sys, json, time, subprocess, tempfile, shutil, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/veriftools/pyvenv/bin/python3"
ENV = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
CFG = {"quick": [("one_object_5", 5, 1, 60), ("one_object_6", 6, 1, 120), ("two_objects_4", 4, 2, 60)],
       "thorough": [("one_object_7", 7, 1, 400), ("two_objects_5", 5, 2, 400)]}


def main(pid, tier, verbose):
    t0 = time.time()
    wrapper = os.path.join(REPO, "py", "conserveInterp2D.py")
    tmp = tempfile.mkdtemp(prefix="sgv_%s_" % pid)
    try:
        return work(pid, tier, verbose, t0, wrapper, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def work(pid, tier, verbose, t0, wrapper, tmp):
    import glob
    lib = os.path.join(tmp, "libsg.so")
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-shared", "-fPIC", "-I" + os.path.join(REPO, "cpp"), "-o", lib] + sorted(glob.glob(os.path.join(REPO, "cpp", "*.cpp"))) + ["-llapack", "-lblas"], stderr=subprocess.PIPE)
    if r.returncode:
        print(r.stderr.decode()[-2000:], file=sys.stderr)
        return 2
    confs = CFG["quick"] + (CFG["thorough"] if tier == "thorough" else [])
    allv, samples, rows = [], [], []
    for name, k, nobj, budget in confs:
        t = time.time()
        r = subprocess.run([PY, os.path.join(HERE, "harness", "pywrap_sym.py"), wrapper, str(k), str(nobj), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=budget + 200)
        if r.returncode:
            print(r.stderr.decode()[-3000:], file=sys.stderr)
            return 2
        res = json.loads(r.stdout)
        S = lambda f: sum(x["stats"].get(f, 0) for x in res)
        lim = {}
        for x in res:
            for a, b in x["stats"]["limits"].items():
                lim[a] = lim.get(a, 0) + b
        row = {"name": name, "calls_per_sequence": k, "objects": nobj, "paths": S("paths"), "queries": S("queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "asserts": S("asserts"), "decided_by_simplification": S("trivial"), "unproved": S("unproved"), "solver_s": round(S("seconds"), 2), "complete": all(x["stats"]["complete"] for x in res), "limits": lim, "wall_s": round(time.time() - t, 2)}
        rows.append(row)
        if verbose:
            print(row, file=sys.stderr)
        allv += [(name, v) for x in res for v in x["violations"]]
        samples += [(name, m) for x in res for m in x["samples"][:12]]
        if allv:
            break

    def native(seq):
        f = os.path.join(tmp, "seq.json")
        json.dump(seq, open(f, "w"))
        try:
            r = subprocess.run([PY, os.path.join(HERE, "harness", "pywrap_run.py"), lib, wrapper, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(ENV, OPENBLAS_NUM_THREADS="1", MALLOC_CHECK_="3", MALLOC_PERTURB_="165"), timeout=60)
            return r.returncode, r.stdout.decode(errors="replace")[-1500:], r.stderr.decode(errors="replace")[-1500:]
        except subprocess.TimeoutExpired:
            return 124, "", "timeout"
    viol, unrep, seen, tries = [], [], {}, {}
    for name, v in sorted(allv, key=lambda x: len(x[1]["ops"])):
        if seen.get(v["msg"]) or tries.get(v["msg"], 0) >= 25:
            continue
        tries[v["msg"]] = tries.get(v["msg"], 0) + 1
        rc, out, err = native(v["ops"])
        if rc != 0:
            seen[v["msg"]] = True
            d = os.path.join(HERE, "build", "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s_%d.json" % (pid, len(viol)))
            json.dump({"property": pid, "config": name, "message": v["msg"], "calls": v["ops"], "exit": rc, "stdout": out, "stderr": err}, open(p, "w"), indent=1)
            viol.append((p, v["msg"], out))
        else:
            unrep.append(v)
            if verbose:
                print("unreproduced", v, file=sys.stderr)
    ok = bad = 0
    mism = []
    for name, m in samples[:40]:
        rc, out, err = native(m)
        if rc == 0:
            ok += 1
        else:
            bad += 1
            mism.append({"config": name, "calls": m, "exit": rc, "stdout": out})
            if rc == 66 and not viol:  # the real code fails an assertion on a path sample
                d = os.path.join(HERE, "build", "replay")
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, "%s_sample.json" % pid)
                json.dump({"property": pid, "config": name, "calls": m, "exit": rc, "stdout": out}, open(p, "w"), indent=1)
                viol.append((p, "path sample", out))
    import configs
    S = lambda f: sum(r[f] for r in rows)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": int(S("paths")), "transitions": int(sum(r["paths"] * r["calls_per_sequence"] for r in rows)), "traces_validated_against_impl": ok,
                       "samples": [{"config": n, "calls": m} for n, m in samples[:4]], "exhaustive": all(r["complete"] for r in rows),
                       "explanation": "states = call sequences (symbolic paths of the wrapper, each for all grid sizes, contents, types and layouts); transitions = calls executed; traces validated = sequences executed by the real wrapper and library with the same outcome",
                       "functions_encoded": ["ConserveInterp2D.__init__", "ConserveInterp2D.__del__", "ConserveInterp2D.setDstGrid", "ConserveInterp2D.setSrcGrid", "ConserveInterp2D.computeWeights", "ConserveInterp2D.apply"],
                       "bounds": configs.BOUNDS.get(pid, ""), "configs": rows, "queries_discharged": int(S("sat") + S("unsat")), "queries_unknown": int(S("unknown")), "solver_seconds": round(S("solver_s"), 2),
                       "assertions_checked": int(S("asserts")), "decided_by_simplification": int(S("decided_by_simplification")), "witness_mismatches": bad, "witness_mismatch_samples": mism[:3], "counterexamples_not_reproduced_natively": unrep[:10]},
          "assumptions": ["the library functions behave as their contract: weights and results depend on the grids and data passed, apply writes the cells with weights only (C08, C09 decide this)", "numpy and ctypes behave as the stand-ins in harness/pywrap_sym.py; counterexamples and path samples are run with the real ones"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    for path, msg, out in viol:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  " + msg + ": " + out.strip()[-300:])
    if viol:
        return 1
    if not sum(r["paths"] for r in rows):
        print("no path could be executed: %s" % rows, file=sys.stderr)
        return 2
    print("OK property=%s configs=%d paths=%d complete=%d validated=%d wall=%.1fs" % (pid, len(rows), S("paths"), sum(r["complete"] for r in rows), ok, time.time() - t0))
    return 0
