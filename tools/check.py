#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SUBSTR] [--keep] : decide one property with the symbolic executor.

Compiles harness/<ID>*.cpp against /repo's current headers to LLVM IR (one module per "@unit" line of the
source), executes every vp_harness_* function symbolically (engine/symex, Z3), replays every counterexample
natively against the real code, writes evidence/<ID>.json.
Exit: 0 property held on everything explored, 1 VIOLATION, 2 no answer (compile/engine/solver problem)."""
import sys, os, re, json, subprocess, time, hashlib, shutil, fcntl, argparse, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
NPROC = os.cpu_count() or 8
T0 = time.time()

IRFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fwrapv", "-fno-exceptions", "-ffp-contract=off", "-fno-math-errno",
           "-gline-tables-only", "-fsanitize=unreachable", "-fsanitize-trap=unreachable", "-fno-discard-value-names", "-w", "-emit-llvm", "-c"]
PASSES = "function(sroa,early-cse,mergereturn)"


def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = -9
        r.stdout = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
        r.stderr = "TIMEOUT"
        return r


def build_engine():
    os.makedirs(B, exist_ok=True)
    h = hashlib.sha256()
    for f in ("symex.cpp", "expr.h", "intrin.inc", "build.sh"):
        h.update(open(os.path.join(V, "engine", f), "rb").read())
    dig = h.hexdigest()
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(B, "symex.sha")
        if os.path.exists(os.path.join(B, "symex")) and os.path.exists(stamp) and open(stamp).read() == dig:
            return
        r = sh(["bash", os.path.join(V, "engine", "build.sh"), os.path.join(B, "symex")])
        if r.returncode:
            print("engine build failed\n" + r.stdout + r.stderr)
            sys.exit(2)
        open(stamp, "w").write(dig)


class Unit:
    def __init__(self, src, kv):
        self.src = src
        self.name = kv["name"]
        self.std = kv.get("std", "gnu++20")
        self.march = kv.get("march", "x86-64-v3")
        self.cfg = kv.get("cfg", "fallback")
        self.tier = kv.get("tier", "quick")
        self.only_tier = kv.get("only", "")
        self.flags = kv.get("flags", "").replace("~", " ").split()
        self.defs = ["-D" + d for d in kv.get("defs", "").split(",") if d]
        self.limit = float(kv.get("limit", os.environ.get("VP_LIMIT", 300)))
        self.lazy = kv.get("lazy", "34")
        self.xt = kv.get("xt", "30000")

    def common(self, tier):
        a = ["-std=" + self.std, "-march=" + self.march, "-I" + REPO, "-I" + os.path.join(V, "harness"), "-DVP_TIER=%d" % (2 if tier == "thorough" else 1)]
        if self.cfg == "fallback":
            a.append("-DVIR_DISABLE_STDX_SIMD")
        return a + self.defs + self.flags


def units_of(pid, tier):
    res = []
    for f in sorted(os.listdir(os.path.join(V, "harness"))):
        if re.match(re.escape(pid) + r"(_\w+)?\.cpp$", f):
            p = os.path.join(V, "harness", f)
            for line in open(p):
                m = re.match(r"//\s*@unit\s+(.*)", line)
                if m:
                    kv = dict(x.split("=", 1) for x in m[1].split())
                    u = Unit(p, kv)
                    if u.only_tier and u.only_tier != tier:
                        continue
                    if u.tier == "thorough" and tier != "thorough":
                        continue
                    res.append(u)
    return res


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for i in inputs:
            f.write("%s %d %d %s\n" % (i["name"].replace(" ", "_") or "_", i["size"], 1 if i["fork"] else 0, " ".join(i["hex"])))


class Check:
    def __init__(self, pid, tier, only, keep):
        self.pid, self.tier, self.only = pid, tier, only
        os.makedirs(os.path.join(B, "work"), exist_ok=True)
        self.wd = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(B, "work"))
        self.keep = keep
        self.results = []      # (unit, json)
        self.problems = []
        self.violations = []
        self.known = []
        self.compile_fail = []
        self.natives = {}
        self.validated = 0
        self.deadline = T0 + (840 if tier == "quick" else 7200)
        try:
            self.kf = json.load(open(os.path.join(V, "known-findings.json")))
        except Exception:
            self.kf = {"findings": []}

    def compile(self, u):
        bc = os.path.join(self.wd, u.name + ".bc")
        t = time.time()
        r = sh(["clang++-18"] + u.common(self.tier) + IRFLAGS + [u.src, "-o", bc + ".0"], timeout=600)
        if r.returncode:
            return u, None, r.stderr, time.time() - t
        r = sh(["opt-18", "-passes=" + PASSES, bc + ".0", "-o", bc], timeout=300)
        if r.returncode:
            return u, None, "opt: " + r.stderr, time.time() - t
        os.remove(bc + ".0")
        l = sh([os.path.join(B, "symex"), bc, "--list"])
        names = [x for x in l.stdout.split() if not self.only or self.only in x]
        return u, (bc, names), "", time.time() - t

    def run_chunk(self, u, bc, names):
        lim = max(5.0, min(u.limit, self.deadline - time.time()))
        if self.tier == "thorough":
            lim = max(lim, min(1500.0, self.deadline - time.time()))
        cmd = [os.path.join(B, "symex"), bc, "--limit", str(lim), "--lazy", u.lazy, "--xt", u.xt]
        out = []
        todo = list(names)
        while todo:
            batch = todo
            r = sh(cmd + ["--only", ",".join(batch)], timeout=lim * len(batch) + 60)
            got = []
            for x in r.stdout.splitlines():
                if x.startswith("{"):
                    try:
                        got.append(json.loads(x))
                    except ValueError:
                        pass
            out += got
            done = {g["harness"] for g in got}
            todo = [n for n in todo if n not in done]
            if todo:  # the engine ended early: the first missing one is the culprit
                out.append({"harness": todo[0], "status": "error", "msg": "engine rc=%s %s" % (r.returncode, r.stderr[-300:])})
                todo = todo[1:]
        return u, out

    def native(self, u, san):
        key = (u.name, san)
        if key in self.natives:
            return self.natives[key]
        out = os.path.join(self.wd, u.name + ("-asan" if san else "-nat"))
        rt = os.path.join(V, "harness", "native.cpp")
        if san:
            cmd = ["clang++-18"] + u.common(self.tier) + ["-O1", "-g1", "-w", "-DVP_NATIVE", "-DVP_ASAN", "-fwrapv", "-ffp-contract=off",
                   "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow", u.src, rt, "-o", out]
        else:
            cmd = ["g++"] + u.common(self.tier) + ["-O2", "-w", "-DVP_NATIVE", "-fwrapv", "-ffp-contract=off", u.src, rt, "-o", out]
        r = sh(cmd, timeout=600)
        if r.returncode:
            self.problems.append("native build failed (%s): %s" % (u.name, r.stderr[-500:]))
            out = None
        self.natives[key] = out
        return out

    def replay(self, u, h, v):
        """returns (reproduced?, how, output)"""
        f = os.path.join(self.wd, h + ".in")
        write_inputs(f, v["inputs"])
        memkind = v["kind"] in ("oob", "misaligned", "unreachable", "assume")
        order = [True, False] if memkind else [False, True]
        logs = ""
        for san in order:
            b = self.native(u, san)
            if not b:
                continue
            env = dict(os.environ, UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=7")
            r = sh([b, h, f], timeout=120, env=env)
            logs += "[%s] exit %s\n%s%s" % ("clang ASan/UBSan" if san else "g++ -O2", r.returncode, r.stdout[-1500:], r.stderr[-2500:])
            if r.returncode == 3 or r.returncode == 4:
                continue
            if r.returncode != 0:
                return True, "clang++ -fsanitize=address,undefined" if san else "g++ -O2", logs, f
        b = self.native(u, False)
        if b and not memkind:
            r = sh([b, h, f, "400000", os.environ.get("VERIF_SEED", "1")], timeout=120)
            logs += "[search with the counterexample's case split] exit %s\n%s" % (r.returncode, r.stderr[-3000:])
            if r.returncode == 1:
                with open(f, "w") as o:
                    for l in r.stderr.splitlines():
                        if l.startswith("INPUT "):
                            o.write(l[6:] + "\n")
                return True, "g++ -O2 (solver's case, inputs concretised)", logs, f
        return False, "", logs, f

    def report_violation(self, u, h, kind, label, where, how, logs, infile):
        rd = os.path.join(V, "evidence", "replay", self.pid)
        os.makedirs(rd, exist_ok=True)
        base = os.path.join(rd, h + "." + u.name)
        if infile:
            shutil.copy(infile, base + ".in")
        with open(base + ".sh", "w") as f:
            f.write("#!/bin/bash\n# property %s: %s: %s\n# at %s\n# reproduced with %s\nT=$(mktemp -d); trap 'rm -rf \"$T\"' EXIT\n" % (self.pid, kind, label, where, how))
            if infile:
                comp = "clang++-18" if "clang" in how else "g++"
                ex = ["-O1", "-g1", "-DVP_ASAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow"] if "clang" in how else ["-O2"]
                f.write(" ".join([comp] + u.common(self.tier) + ex + ["-w", "-DVP_NATIVE", "-fwrapv", "-ffp-contract=off", u.src, os.path.join(V, "harness", "native.cpp"), "-o", "$T/a"]) + " && $T/a %s %s\n" % (h, base + ".in"))
            else:
                f.write(" ".join(["g++"] + u.common(self.tier) + ["-w", "-fsyntax-only", u.src]) + "\n")
        with open(base + ".log", "w") as f:
            f.write("%s: %s\n%s\n%s\n" % (kind, label, where, logs))
        self.violations.append({"unit": u.name, "harness": h, "kind": kind, "label": label, "where": where, "replay": base + ".sh", "how": how})

    def is_known(self, u, h, v):
        for k in self.kf.get("findings", []):
            if k.get("status") == "known" and k["property"] == self.pid and k["harness"] == h and k.get("unit", u.name) == u.name and k["label"] == v["label"]:
                return k
        return None

    def go(self):
        us = units_of(self.pid, self.tier)
        if not us:
            print("no units for", self.pid)
            return 2
        pool = ThreadPoolExecutor(NPROC)
        futs = [pool.submit(self.compile, u) for u in us]
        runs = []
        comp_s = 0
        for f in as_completed(futs):
            u, r, err, t = f.result()
            comp_s = max(comp_s, t)
            if r is None:
                self.compile_fail.append((u, err))
                continue
            bc, names = r
            if not names and not self.only:
                self.problems.append("no harness in " + u.name)
            k = max(1, min(len(names), 6 * NPROC // max(1, len(us)) + 1))
            for i in range(k):
                part = names[i::k]
                if part:
                    runs.append(pool.submit(self.run_chunk, u, bc, part))
        for f in as_completed(runs):
            u, out = f.result()
            for j in out:
                self.results.append((u, j))
        if os.environ.get('VP_STATS'):
            for u, j in sorted(self.results, key=lambda x: -x[1].get('wall_s', 0))[:25]:
                print('  stat %-40s %-8s %-9s wall %.2f solver %.2f q %d paths %d insts %d' % (j['harness'], u.name, j['status'], j.get('wall_s', 0), j.get('solver_s', 0), j.get('queries', 0), j.get('paths', 0), j.get('insts', 0)))
        # --- compile failures: the public API the harness uses does not compile any more ---
        for u, err in self.compile_fail:
            g = sh(["g++"] + u.common(self.tier) + ["-w", "-fsyntax-only", u.src], timeout=600)
            if g.returncode:
                errs = [l for l in g.stderr.splitlines() if "error" in l][:8]
                self.report_violation(u, "compile", "compile", "code using the documented API does not compile", "", "g++ and clang++", err[-3000:] + "\n" + g.stderr[:6000], None)
                print("compile failure in unit %s (clang and g++):\n  %s" % (u.name, "\n  ".join(errs)))
            else:
                self.problems.append("clang cannot compile %s: %s" % (u.name, "\n".join([l for l in err.splitlines() if "error" in l][:5])))
        # --- counterexamples ---
        nrep = 0
        for u, j in sorted(self.results, key=lambda x: x[1]["harness"]):
            h = j["harness"]
            if j["status"] == "violation":
                v = j["violations"][-1]
                k = self.is_known(u, h, v)
                if k:
                    self.known.append(k)
                    continue
                if nrep >= 4 and self.violations:
                    continue
                nrep += 1
                ok, how, logs, f = self.replay(u, h, v)
                if ok:
                    self.report_violation(u, h, v["kind"], v["label"], v["where"], how, logs, f)
                else:
                    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
                    with open(os.path.join(V, "evidence", self.pid + ".unreproduced.log"), "a") as o:
                        o.write("%s %s %s %s\n%s\n" % (u.name, h, v["kind"], v["label"], json.dumps(v)) + logs + "\n")
                    self.problems.append("counterexample of %s (%s) did not reproduce: %s: %s at %s" % (h, u.name, v["kind"], v["label"], v["where"]))
            elif j["status"] != "holds":
                self.problems.append("%s (%s): %s %s" % (h, u.name, j["status"], j["msg"]))
            elif j["paths"] + j["trap_paths"] == 0 or j["asserts_folded"] + j["asserts_solved"] + j["trap_paths"] == 0:
                self.problems.append("%s (%s): vacuous (no complete path or no assertion)" % (h, u.name))
        # --- validation of the encoding: replay the solver's witness of each harness natively ---
        if self.tier == "thorough" or os.environ.get("VP_VALIDATE"):
            self.validate(pool)
        pool.shutdown()
        self.evidence(us, comp_s)
        seen = set()
        for k in self.known:
            s = "KNOWN-FINDING: property=%s %s" % (self.pid, k["what"])
            if s not in seen:
                print(s); seen.add(s)
        if self.violations:
            for v in self.violations:
                print("%s in %s: %s (%s) at %s; reproduced with %s" % (v["kind"], v["harness"], v["label"], v["unit"], v["where"], v["how"]))
            for p in self.problems[:10]:
                print("note:", p)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]["replay"]))
            return 1
        if self.problems:
            for p in self.problems[:20]:
                print("NO ANSWER:", p)
            return 2
        nh = len(self.results)
        print("property=%s holds: %d harnesses, %d solver queries, %.1f s solver, %.1f s wall" % (self.pid, nh, sum(j.get("queries", 0) for _, j in self.results), sum(j.get("solver_s", 0) for _, j in self.results), time.time() - T0))
        return 0

    def validate(self, pool):
        byu = {}
        for u, j in self.results:
            if j["status"] == "holds" and j.get("witness") is not None:
                byu.setdefault(u.name, (u, []))[1].append(j)
        def one(u, js):
            b = self.native(u, False)
            n = 0
            bad = []
            for j in js:
                if not b:
                    break
                f = os.path.join(self.wd, u.name + "." + j["harness"] + ".w")
                write_inputs(f, j["witness"])
                r = sh([b, j["harness"], f], timeout=60)
                if r.returncode == 0:
                    n += 1
                else:
                    bad.append("%s (%s): witness run natively gives exit %s %s" % (j["harness"], u.name, r.returncode, r.stderr[-200:]))
            return n, bad
        for f in [pool.submit(one, u, js) for u, js in byu.values()]:
            n, bad = f.result()
            self.validated += n
            self.problems += bad

    def evidence(self, us, comp_s):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        R = [j for _, j in self.results if "paths" in j]
        fn = sorted({f for j in R for f in j["functions"]})
        tot = lambda k: sum(j.get(k, 0) for j in R)
        samples = []
        for u, j in sorted(self.results, key=lambda x: x[1]["harness"])[:400:max(1, len(self.results) // 4)]:
            if "paths" in j:
                samples.append({"unit": u.name, "harness": j["harness"], "status": j["status"], "paths": j["paths"], "queries": j["queries"], "solver_s": j["solver_s"], "witness": (j.get("witness") or [])[:4]})
        doc = ""
        for l in open(us[0].src):
            if l.startswith("// @bound"):
                doc += l[len("// @bound"):].strip() + " "
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": {
                  "explanation": "Symbolic execution of the LLVM IR that clang generates from /repo's current headers; each assertion is decided by Z3 for every value of the symbolic inputs within the stated bounds.",
                  "bounds": doc.strip() or "see harness source",
                  "units": [{"name": u.name, "source": os.path.basename(u.src), "config": u.cfg, "std": u.std, "march": u.march} for u in us],
                  "harnesses": len(R), "harnesses_holding": sum(j["status"] == "holds" for j in R),
                  "obligations": tot("asserts_folded") + tot("asserts_solved"),
                  "assertions_folded_by_rewriting": tot("asserts_folded"), "assertions_sent_to_solver": tot("asserts_solved"),
                  "solver_queries": tot("queries"), "unsat": tot("unsat"), "sat_feasibility": tot("sat"), "exact_floating_point_queries": tot("exact_fp"),
                  "solver_s": round(tot("solver_s"), 3), "symbolic_paths": tot("paths"), "symbolic_branches": tot("forks"), "state_merges": tot("merges"),
                  "ir_instructions_executed": tot("insts"), "trapping_paths": tot("trap_paths"),
                  "functions_encoded_count": len(fn), "functions_encoded": fn[:600],
                  "witnesses_replayed_natively": self.validated,
                  "compile_s_max": round(comp_s, 1),
                  "samples": samples, "known_findings": [k["what"] for k in self.known], "no_answer": self.problems[:20]},
              "assumptions": ["clang 18 -O0-equivalent IR of the headers (front end trusted); signed integer arithmetic wraps (-fwrapv)",
                              "floating-point +,-,*,/ and conversions: first as uninterpreted functions, exact IEEE-754 (round to nearest) where that does not decide; libm functions are arbitrary functions of their arguments",
                              "element types, ABIs, sizes and algorithms' range lengths are the instantiations listed in the harness source; others are outside the claim"],
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        if self.violations:
            ev["coverage"]["violation_details"] = self.violations
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.wd, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    build_engine()
    if a.id == "build":
        return
    c = Check(a.id, a.tier, a.only, a.keep)
    try:
        rc = c.go()
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
