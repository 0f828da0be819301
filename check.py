#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current tree.

usage: check.py <property id> [--tier quick|thorough] [-v] [--only CONFIG]

Exit 0: the property held on everything explored; exit 1: a counterexample found
by the solver was reproduced by running the real code (VIOLATION line); exit 2:
the check itself could not run.
"""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, re, math, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENG = os.path.join(HERE, "engine")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "harness"))
CLANG = "/usr/bin/clang++-18"
INC = ["-I" + ENG, "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "cpp"), "-I" + os.path.join(REPO, "utils")]
def unlink(f):
    if os.path.exists(f):
        os.remove(f)


SYMF = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"]
NATF = ["-std=c++17", "-gline-tables-only", "-O1", "-w", "-ffp-contract=off"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def ensure_engine():
    exe = os.path.join(BUILD, "sgsym")
    srcs = [os.path.join(ENG, f) for f in ("sgsym.cpp", "exec.inc", "load.inc", "poly.h", "sym.h", "solver.h")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()
    stamp = os.path.join(BUILD, "sgsym.stamp")
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(BUILD, exist_ok=True)
        r = run([os.path.join(ENG, "build.sh"), BUILD], 600)
        if r.returncode:
            log(r.stderr.decode()[-3000:])
            raise SystemExit(2)
        open(stamp, "w").write(h)
    return exe


def known_findings(pid):
    """lines 'finding: property=<id> key=<config-regex>|<kind>|<message-regex> <text>' """
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+config=(\S+)\s+kind=(\S+)\s+msg=\"([^\"]*)\"\s+(.*)", l.strip())
            if m and m.group(1) == pid:
                out.append({"config": m.group(2), "kind": m.group(3), "msg": m.group(4), "text": m.group(5), "hit": False})
    return out


class Check:
    def __init__(self, pid, tier, verbose, only):
        self.pid, self.tier, self.verbose, self.only = pid, tier, verbose, only
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="sgv_%s_" % pid)
        self.violations = []
        self.known = known_findings(pid)
        self.unrepro = []
        self.native_cache = {}
        self.lib_err = []

    # ------------------------------------------------------------ building
    def lib_sources(self, src):
        """the sources of the library, and of the utilities for the checks of those"""
        import configs
        s = sorted(glob.glob(os.path.join(REPO, "cpp", "*.cpp")))
        extra = configs.UTILS.get(os.path.basename(src))
        return s if not extra else [os.path.join(REPO, "utils", f) for f in extra]

    def build_libs(self, srcs):
        """compiles the library once, as IR and natively"""
        todo = sorted({f for src in srcs for f in self.lib_sources(src)})

        def one(j):
            f, san = j
            o = os.path.join(self.tmp, os.path.basename(f) + "." + san)
            if os.path.exists(o):
                return
            fl = self.symf() if san == "bc" else NATF + ["-c"] + (ASAN if san == "asan" else [])
            r = run([CLANG] + fl + INC + [f, "-o", o + ".t"], 300)
            if r.returncode:
                if san == "bc" and self.streams:
                    self.streams_err = True
                    return
                self.lib_err.append("%s: %s" % (f, r.stderr.decode()[-1500:]))
                log("%s does not compile: %s" % (f, r.stderr.decode()[-1500:]))
                return
            os.rename(o + ".t", o)
        self.lib_one = one
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, [(f, "bc") for f in todo] + [(f, "plain") for f in todo]))
            if self.streams_err:  # the sources use more of the stream headers than engine/stream has
                log("built with the original stream headers")
                self.streams = False
                list(ex.map(one, [(f, "bc") for f in todo if not unlink(os.path.join(self.tmp, os.path.basename(f) + ".bc"))]))
        for src in srcs:
            self.lib_bc(src, True)

    streams, streams_err = True, False

    def symf(self):
        return SYMF + (["-I" + os.path.join(ENG, "stream")] if self.streams else [])

    def lib_bc(self, src, build=False):
        fs = self.lib_sources(src)
        out = os.path.join(self.tmp, "lib" + hashlib.sha256(" ".join(fs).encode()).hexdigest()[:8] + ".bc")
        if build and not os.path.exists(out):
            r = run(["llvm-link-18"] + [o for o in (os.path.join(self.tmp, os.path.basename(f) + ".bc") for f in fs) if os.path.exists(o)] + ["-o", out], 300)
            if r.returncode:
                log(r.stderr.decode()[-3000:])
                raise SystemExit(2)
        return out

    def lib_objects(self, src, san):
        fs = self.lib_sources(src)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(self.lib_one, [(f, san) for f in fs]))
        return [o for o in (os.path.join(self.tmp, os.path.basename(f) + "." + san) for f in fs) if os.path.exists(o)]

    def compile(self, src, defs):
        key = hashlib.sha256((src + " ".join(defs)).encode()).hexdigest()[:10]
        base = os.path.join(self.tmp, os.path.basename(src) + "." + key)
        bc = base + ".bc"
        r = run([CLANG] + self.symf() + INC + defs + [src, "-o", bc], 300)
        if r.returncode:
            log("harness does not compile against the current tree:\n" + r.stderr.decode()[-3000:])
            raise SystemExit(2)
        r = run(["llvm-link-18", "--only-needed", bc, self.lib_bc(src), "-o", base + ".o.bc"], 300)
        if r.returncode == 0:
            r = run(["llvm-link-18", base + ".o.bc", os.path.join(self.tmp, "models.bc"), "-o", base + ".l.bc"], 300)
        if r.returncode:
            log(r.stderr.decode()[-3000:])
            raise SystemExit(2)
        return base + ".l.bc"

    def native(self, src, defs, san):
        key = (src, tuple(defs), san)
        if key in self.native_cache:
            return self.native_cache[key]
        exe = os.path.join(self.tmp, os.path.basename(src) + hashlib.sha256(repr(key).encode()).hexdigest()[:10])
        fl = NATF + (ASAN if san == "asan" else [])
        objs = self.lib_objects(src, san)
        r = run([CLANG] + INC + fl + defs + [src, os.path.join(ENG, "replay.cpp"), ] + objs + ["-o", exe, "-llapack", "-lblas"], 300)
        if r.returncode:
            log("native replay program does not build:\n" + r.stderr.decode()[-3000:])
            raise SystemExit(2)
        self.native_cache[key] = exe
        return exe

    def run_native(self, exe, cfg, model, valgrind=False, tag=""):
        f = tempfile.NamedTemporaryFile("w", delete=False, dir=self.tmp, suffix=".vals")
        for k, v in model.items():
            f.write("%s=%s\n" % (k, v))
        f.close()
        cmd = [exe] + ["-p%s=%d" % kv for kv in cfg.get("params", {}).items()] + [f.name]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=65", "--track-origins=no", "--show-mismatched-frees=no"] + cmd
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=67:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=68", OPENBLAS_NUM_THREADS="1")
        try:
            r = run(cmd, 60, env=env)
            return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), cmd
        except subprocess.TimeoutExpired:
            return 124, "", "timeout", cmd

    # ------------------------------------------------------------ replay
    def reproduce(self, cfg, src, defs, v):
        """run the real code on the solver's counterexample"""
        seen = set()
        for m in v["models"][:14]:
            key = tuple(sorted(m.items()))
            if key in seen:
                continue
            seen.add(key)
            exe = self.native(src, defs, "asan")
            rc, out, err, cmd = self.run_native(exe, cfg, m)
            how = None
            if rc in (66, 67, 68, 124) or rc < 0 or rc == 134:
                how = "asan/ubsan build"
                if rc == 66 and v["kind"] == "assert" and ("SG_ASSERT_FAILED " + v["msg"]) not in out:
                    pass  # another assertion of the same property fails: still a violation
            elif v["kind"] == "uninit" or (v["kind"] == "memory" and rc == 0):
                exe = self.native(src, defs, "plain")
                rc, out, err, cmd = self.run_native(exe, cfg, m, valgrind=True)
                if rc == 66 or rc < 0 or (rc == 65 and re.search("ninitialised" if v["kind"] == "uninit" else "Invalid|ninitialised", err)):
                    how = "valgrind"
            if how:
                return {"model": m, "rc": rc, "how": how, "stdout": out[-1500:], "stderr": err[-2500:]}
        return None

    def write_replay(self, cfg, src, defs, v, rep):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(d, "%s_%s_%d.json" % (self.pid, re.sub(r"\W", "_", cfg["name"]), n))
        json.dump({"property": self.pid, "config": cfg["name"], "harness": src, "defines": defs, "params": cfg.get("params", {}),
                   "kind": v["kind"], "message": v["msg"], "where": v["where"], "input": rep["model"], "input_decimal": {k: dec(x) for k, x in rep["model"].items()},
                   "reproduced_by": rep["how"], "exit": rep["rc"], "stdout": rep["stdout"], "stderr": rep["stderr"]}, open(path, "w"), indent=1)
        return path

    # ------------------------------------------------------------ one configuration
    def config(self, exe, cfg):
        src = os.path.join(HERE, "harness", cfg["file"])
        defs = list(cfg.get("defs", []))
        bc = self.bcs[(src, tuple(defs))]
        out = os.path.join(self.tmp, cfg["name"] + ".json")
        budget = cfg.get("time", 60)
        cmd = [exe, bc, "--out", out, "--time", str(budget), "--threads", str(cfg.get("threads", 2)),
               "--branch-timeout", str(cfg.get("branch_timeout", 2000)), "--assert-timeout", str(cfg.get("assert_timeout", 8000)),
               "--samples", str(cfg.get("samples", 8))]
        for k, v in cfg.get("params", {}).items():
            cmd += ["--param", "%s=%d" % (k, v)]
        cmd += cfg.get("opts", [])
        t = time.time()
        try:
            r = run(cmd, budget * 1.5 + 120)
            if r.returncode or not os.path.exists(out):
                return cfg, None, "engine failed (%s): %s" % (r.returncode, r.stderr.decode(errors="replace")[-1500:])
        except subprocess.TimeoutExpired:
            return cfg, None, "engine timed out"
        try:
            res = json.load(open(out))
        except Exception as e:
            return cfg, None, "engine output unreadable: %s" % e
        res["t"] = time.time() - t
        return cfg, res, None

    def main(self):
        import configs
        allc = configs.CONFIGS[self.pid]
        cfgs = []
        for c in allc:
            if c.get("tier", "quick") == "thorough" and self.tier != "thorough":
                continue
            c = dict(c)
            if self.tier == "thorough":
                c["time"] = c.get("thorough_time", 4 * c.get("time", 60))
                c["assert_timeout"] = 4 * c.get("assert_timeout", 8000)
                c["branch_timeout"] = 4 * c.get("branch_timeout", 2000)
                c["samples"] = 24
            if self.only and not re.search(self.only, c["name"]):
                continue
            cfgs.append(c)
        exe = ensure_engine()
        keys = sorted({(os.path.join(HERE, "harness", c["file"]), tuple(c.get("defs", []))) for c in cfgs})
        self.compile_models()
        self.build_libs([k[0] for k in keys])
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda k: self.compile(k[0], list(k[1])), keys))
            list(ex.map(lambda k: self.native(k[0], list(k[1]), "plain"), keys))
        self.bcs = dict(zip(keys, bcs))
        cfgs.sort(key=lambda c: -c.get("weight", c.get("time", 60)))
        width = max(1, 8 // max(c.get("threads", 2) for c in cfgs)) if cfgs else 1
        results, errors = [], []
        with ThreadPoolExecutor(width) as ex:
            for cfg, res, err in ex.map(lambda c: self.config(exe, c), cfgs):
                if err:
                    errors.append((cfg["name"], err))
                    log("ERROR %s: %s" % (cfg["name"], err))
                    continue
                results.append((cfg, res))
        for cfg, res in results:
            self.handle(cfg, res)
        validated, mismatched, mism = self.validate(results)
        self.evidence(results, errors, validated, mismatched, mism)
        for k in self.known:
            if k["hit"]:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        for path, v in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  %s: %s @ %s" % (v["kind"], v["msg"], v["where"]))
        if self.violations:
            return 1
        if not errors and results and not any(r["paths"]["completed"] + r["paths"]["violating"] for _, r in results):
            log("no path could be executed to its end: " + json.dumps([r["limits"] for _, r in results])[:500])
            return 2
        if errors or not results:
            return 2
        print("OK property=%s configs=%d paths=%d complete=%d unconfirmed=%d witnesses=%d/%d wall=%.1fs" % (self.pid, len(results), sum(r["paths"]["completed"] for _, r in results), sum(1 for _, r in results if r["complete"]), len(self.unrepro), validated, validated + mismatched, time.time() - self.t0))
        return 0

    def compile_models(self):
        mo = os.path.join(self.tmp, "models.bc")
        r = run([CLANG] + INC + SYMF + [os.path.join(ENG, "models.cpp"), "-o", mo], 300)
        if r.returncode:
            log(r.stderr.decode()[-3000:])
            raise SystemExit(2)

    def handle(self, cfg, res):
        src = os.path.join(HERE, "harness", cfg["file"])
        defs = list(cfg.get("defs", []))
        if self.verbose:
            log("%-28s complete=%s paths=%s asserts=%s solver=%s/%ss unk=%s limits=%s viol=%d t=%.1f" % (cfg["name"], res["complete"], res["paths"], res["asserts"], res["solver"]["queries"], res["solver"]["seconds"], res["solver"]["unknown"], res["limits"], len(res["violations"]), res["t"]))
        done = {}
        for v in res["violations"]:
            key = (v["kind"], v["msg"])
            if done.get(key):
                continue
            rep = self.reproduce(cfg, src, defs, v)
            if rep is None:
                res["complete"] = False
                self.unrepro.append({"config": cfg["name"], "kind": v["kind"], "msg": v["msg"], "where": v["where"], "model": v["models"][0] if v["models"] else {}})
                if self.verbose:
                    log("   unreproduced %s: %s @ %s %s" % (v["kind"], v["msg"], v["where"], {k: dec(x) for k, x in (v["models"][0] if v["models"] else {}).items()}))
                continue
            done[key] = True
            kf = next((k for k in self.known if re.fullmatch(k["config"], cfg["name"]) and k["kind"] == v["kind"] and k["msg"] == v["msg"]), None)
            if kf:
                kf["hit"] = True
                continue
            path = self.write_replay(cfg, src, defs, v, rep)
            self.violations.append((path, v))
            if self.verbose:
                log("   REPRODUCED %s: %s @ %s %s\n      %s" % (v["kind"], v["msg"], v["where"], {k: dec(x) for k, x in rep["model"].items()}, rep["stdout"][-300:] + rep["stderr"][:600]))

    def validate(self, results):
        """replay path witnesses natively and compare the outputs the engine computed"""
        jobs = []
        for cfg, res in results:
            if cfg.get("no_validate"):
                continue
            src = os.path.join(HERE, "harness", cfg["file"])
            exe = self.native_cache[(src, tuple(cfg.get("defs", [])), "plain")]
            for s in res["samples"][:cfg.get("samples", 8)]:
                jobs.append((cfg, exe, s))

        def one(j):
            cfg, exe, s = j
            rc, out, err, cmd = self.run_native(exe, cfg, s["model"])
            if rc == 77:
                return None, None
            if rc != 0:
                return False, {"config": cfg["name"], "model": s["model"], "rc": rc, "out": out[-400:]}
            got = re.findall(r"SG_OUT (\S+) (\S+)", out)
            if len(got) != len(s["outs"]):
                return False, {"config": cfg["name"], "model": s["model"], "outs": len(got), "expected": len(s["outs"])}
            for (n, v), (m, w) in zip(got, s["outs"]):
                a, b = float(v), float(w)
                if n != m or not (a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) or (a != a and b != b)):
                    return False, {"config": cfg["name"], "model": s["model"], "name": n, "native": v, "engine": w}
            return True, None
        ok = bad = 0
        mism = []
        with ThreadPoolExecutor(8) as ex:
            for r, m in ex.map(one, jobs):
                if r is True:
                    ok += 1
                elif r is False:
                    bad += 1
                    mism.append(m)
                    if self.verbose:
                        log("   path witness differs natively: %s" % json.dumps({**m, "model": {k: dec(x) for k, x in m["model"].items()}}))
        return ok, bad, mism

    def evidence(self, results, errors, validated, mismatched, mism):
        import configs
        S = lambda f: sum(f(r) for _, r in results)
        own = sorted({f for _, r in results for f in r["functions"] if re.search(r"\bSg[A-Z]|CmdLine|createGrid|create[A-Z]\w+Grid", f)})
        samples = []
        for cfg, r in results[:6]:
            for s in r["samples"][:2]:
                samples.append({"config": cfg["name"], "input": {k: dec(x) for k, x in s["model"].items()}, "outputs": s["outs"][:12]})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
            "coverage": {
                "states": int(S(lambda r: r["paths"]["completed"] + r["paths"]["violating"])),
                "transitions": int(S(lambda r: r["decisions"] + r["asserts"]["checked"])),
                "traces_validated_against_impl": validated,
                "samples": samples,
                "exhaustive": bool(results) and not errors and all(r["complete"] for _, r in results),
                "explanation": "states = symbolic execution paths of the real code explored to the end, each standing for all inputs satisfying its path condition; transitions = branch decisions and assertions put to the solver; traces validated = path witnesses executed by the compiled code with matching outputs",
                "functions_encoded": own,
                "bounds": configs.BOUNDS.get(self.pid, ""),
                "configs": [{"name": c["name"], "params": c.get("params", {}), "complete": r["complete"], "paths": r["paths"], "pending": r["pending"], "asserts": r["asserts"], "assert_sites": r["assert_sites"], "reach": r["reach"], "limits": r["limits"], "unknown_branches": r["unknown_branches"], "solver": r["solver"], "wall_s": round(r["t"], 2)} for c, r in results],
                "queries_discharged": int(S(lambda r: r["solver"]["sat"] + r["solver"]["unsat"])),
                "queries_unknown": int(S(lambda r: r["solver"]["unknown"])),
                "solver_seconds": round(S(lambda r: r["solver"]["seconds"]), 2),
                "assertions_proved": int(S(lambda r: r["asserts"]["proved"])),
                "assertions_checked": int(S(lambda r: r["asserts"]["checked"])),
                "witness_mismatches": mismatched, "witness_mismatch_samples": mism[:5],
                "counterexamples_not_reproduced_natively": self.unrepro[:20],
                "errors": [list(e) for e in errors],
            },
            "assumptions": configs.ASSUMPTIONS + configs.EXTRA_ASSUMPTIONS.get(self.pid, []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        p = os.path.join(HERE, "evidence", self.pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)


def dec(x):
    try:
        return float.fromhex(x) if "x" in x else x
    except Exception:
        return x


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    v = False
    pid = None
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "-v":
            v = True
        elif x == "--stamp":
            ensure_engine()
            return 0
        else:
            pid = x
    import configs
    if pid in getattr(configs, "PYTHON_CHECKS", {}):
        import importlib
        mod = importlib.import_module(configs.PYTHON_CHECKS[pid])
        return mod.main(pid, tier, v)
    c = Check(pid, tier, v, only)
    try:
        return c.main()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
