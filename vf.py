#!/usr/bin/env python3
"""Check driver.  vf.py check ID [--tier quick|thorough] | build GROUP | run ENTRY ... (development)

A check translates the current source of /repo to LLVM IR (after link-time optimisation, with the
harness), executes it symbolically with symex, replays every counterexample on the natively compiled
code, and writes /verif/evidence/<ID>.json.
"""
import sys, os, re, json, subprocess, time, fcntl, shutil, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
sys.path.insert(0, VERIF)
import jobs as J

class Fail(Exception):
    pass

def sh(cmd, cwd=None, env=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace")

def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        if open(path, "rb").read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "wb").write(data)

class lock:
    def __init__(self, name):
        self.name = name
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, self.name + ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

def subst(s):
    return s.replace("@REPO@", REPO).replace("@VERIF@", VERIF)

def build_symex():
    with lock("symex"):
        r = sh(["cargo", "build", "--release", "--offline", "-q", "--target-dir", BUILD + "/symex-target"], cwd=VERIF + "/symex")
        if r.returncode:
            raise Fail("symex does not build:\n" + r.stdout[-4000:])
    return BUILD + "/symex-target/release/symex"

def entries(group):
    g = J.GROUPS[group]
    out = []
    for h in g["attach"].values():
        src = open(os.path.join(VERIF, "h", "core", "vh", h)).read()
        out += re.findall(r"^\s*(h_\w+)\s*=>", src, re.M)
    return out

def lay_out(group):
    """the crate that compiles /repo's current bfffs-core together with a group of harnesses"""
    g = J.GROUPS[group]
    d = os.path.join(BUILD, "core-" + group)
    src = os.path.join(REPO, "bfffs-core", "src")
    attach = {a: h for a, h in g["attach"].items()}
    seen = set()
    for root, _, files in os.walk(src):
        for f in files:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            data = open(p, encoding="utf-8", errors="surrogateescape").read()
            if rel in attach:
                data += '\n#[path="%s"] pub mod vh_%s;\n' % (os.path.join(VERIF, "h/core/vh", attach[rel]), g.get("mod", group))
            if rel == "lib.rs":
                data += '\n#[path="%s"] pub mod vh;\n' % os.path.join(d, "src", "vh.rs")
            if rel in g.get("head", {}):
                ls = data.split("\n")
                i = 0
                while i < len(ls) and (not ls[i].strip() or ls[i].startswith(("//", "#!["))):
                    i += 1
                data = "\n".join(ls[:i] + [g["head"][rel]] + ls[i:])
            for a, b in g.get("prepend", {}).get(rel, []):
                if a not in data:
                    raise Fail("layout: %s has no %r" % (rel, a))
                data = data.replace(a, b, 1)
            put(os.path.join(d, "src", rel), data.encode(errors="surrogateescape"))
            seen.add(rel)
    for a in attach:
        if a not in seen:
            raise Fail("layout: /repo has no bfffs-core/src/" + a)
    for root, _, files in os.walk(os.path.join(d, "src")):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, os.path.join(d, "src"))
            if rel not in seen and rel not in ("vh.rs", "replay.rs"):
                os.unlink(p)
    es = entries(group)
    vh = "extern \"C\" {\n" + "".join("    fn %s();\n" % e for e in es) + "}\n"
    vh = "#[cfg(feature = \"native\")]\nmod imp {\n" + vh + "pub fn replay() { symrt::replay_main(&[" + \
         ", ".join("(\"%s\", { extern \"C\" fn f() { unsafe { %s() } } f as extern \"C\" fn() })" % (e, e) for e in es) + "]) }\n}\n" + \
         "#[cfg(feature = \"native\")] pub use imp::replay;\n"
    put(os.path.join(d, "src", "vh.rs"), vh)
    put(os.path.join(d, "src", "replay.rs"), open(VERIF + "/h/core/replay.rs").read())
    t = subst(open(VERIF + "/h/core/Cargo.toml.in").read())
    for a, b in g.get("toml", []):
        if a not in t:
            raise Fail("layout: Cargo.toml.in has no " + a)
        t = t.replace(a, subst(b))
    put(os.path.join(d, "Cargo.toml"), t)
    put(os.path.join(d, "Cargo.lock"), open(VERIF + "/h/core/Cargo.lock").read())
    return d

def build_ir(group):
    d = lay_out(group)
    ll = os.path.join(d, "out.ll")
    with lock("core"):
        r = sh(["cargo", "rustc", "--offline", "--release", "--lib", "-q", "--crate-type", "staticlib",
                "--target-dir", BUILD + "/core-target", "--",
                "--emit=llvm-ir=" + ll, "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "debuginfo=1",
                "-A", "warnings", "--remap-path-prefix", d + "/src=/repo/bfffs-core/src"], cwd=d)
        if r.returncode or not os.path.exists(ll):
            raise Fail("the harness for %s does not build against the current tree:\n%s" % (group, r.stdout[-6000:]))
    return ll

def build_replay(group):
    d = lay_out(group)
    with lock("replay"):
        r = sh(["cargo", "build", "--offline", "-q", "--features", "native", "--bin", "replay",
                "--target-dir", BUILD + "/replay-target"], cwd=d,
               env=dict(ENV, RUSTFLAGS="-A warnings --cap-lints allow --remap-path-prefix %s/src=/repo/bfffs-core/src" % d))
        if r.returncode:
            raise Fail("the replay binary for %s does not build:\n%s" % (group, r.stdout[-6000:]))
        b = os.path.join(BUILD, "replay-" + group)
        shutil.copy(BUILD + "/replay-target/debug/replay", b)
    return b

def run_job(symex, ll, job, outdir, i):
    out = os.path.join(outdir, "job%03d.json" % i)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [symex, ll, "--entry", job["entry"], "--time", str(job["time"]), "--out", out, "--src", "/repo/",
           "--params", ",".join(map(str, job["params"])), "--preempt", str(job.get("preempt", 0)),
           "--max-viol", str(job.get("max_viol", 4)), "--max-insts", str(job.get("max_insts", 20_000_000_000)),
           "--budget", str(job.get("budget", 60)), "--fuel", str(job.get("fuel", 20_000_000))]
    t0 = time.time()
    try:
        r = sh(cmd, timeout=job["time"] + 120)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, log = 2, "timeout"
    try:
        res = json.load(open(out))
    except Exception:
        res = {"crash": log[-3000:]}
    res["rc"] = rc
    res["wall"] = time.time() - t0
    return res

def replay(binary, job, v, path):
    vals = [str(int(x[2])) for x in v["inputs"]]
    put(path + ".in", "\n".join(vals) + "\n")
    cmd = [binary, job["entry"], str(job.get("preempt", 0)), ",".join(map(str, job["params"])) or "-", "@" + path + ".in"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20, text=True, errors="replace",
                           cwd=os.path.dirname(path), env=ENV)
        rc, log = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, log = 1, "REPLAY-VIOLATION does not terminate within 20 s"
    bad = "REPLAY-VIOLATION" in log or rc < 0 or (rc not in (0, 1, 3))
    put(path, json.dumps({"command": cmd, "violation": v, "replay_rc": rc, "replay_output": log[-4000:]}, indent=1))
    return bad, log

def known_findings():
    try:
        ls = open(os.path.join(VERIF, "known_findings.jsonl")).read().splitlines()
    except OSError:
        return []
    return [json.loads(l) for l in ls if l.strip() and not l.startswith("#") and not l.startswith("fixed:")]

def check(pid, tier):
    t0 = time.time()
    spec = J.CHECKS[pid]
    group = spec["group"]
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or j.get("tier", "quick") == "quick"]
    for j in jobs:
        j["time"] = j.get("time_thorough", j["time"] * 4) if tier == "thorough" else j["time"]
        if tier == "thorough" and "preempt_thorough" in j:
            j["preempt"] = j["preempt_thorough"]
    outdir = os.path.join(BUILD, "runs", pid)
    os.makedirs(outdir, exist_ok=True)
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(build_symex)
        b = ex.submit(build_ir, group)
        symex, ll = a.result(), b.result()
    tb = time.time() - t0
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("cost", jobs[i]["time"]))
    results = [None] * len(jobs)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(run_job, symex, ll, jobs[i], outdir, i): i for i in order}
        for f in cf.as_completed(fs):
            results[fs[f]] = f.result()
    kf = [k for k in known_findings() if k["property"] == pid]
    kf_hit = {}
    problems, viols, notrep = [], [], []
    binary = None
    for i, (j, r) in enumerate(zip(jobs, results)):
        tag = "%s(%s)" % (j["entry"], ",".join(map(str, j["params"])))
        if "crash" in r:
            problems.append("%s: symex failed: %s" % (tag, r["crash"]))
            continue
        for n, v in enumerate(r["violations"]):
            if len(viols) >= 5:
                continue
            if binary is None:
                binary = build_replay(group)
            path = os.path.join(outdir, "cex-%03d-%d.json" % (i, n))
            bad, log = replay(binary, j, v, path)
            if not bad and j.get("replay") != "symbolic-only":
                notrep.append((tag, v["kind"], v["msg"], log[-300:], path))
                continue
            line = re.search(r"REPLAY-VIOLATION.*", log)
            what = "%s: %s: %s" % (tag, v["kind"], line.group(0)[17:] if line else v["msg"])
            for k in kf:
                if k["entry"] == j["entry"] and (k["match"] in what or k["match"] in v["msg"]) and ("params" not in k or k["params"] == list(j["params"])):
                    kf_hit.setdefault(k["what"], what)
                    break
            else:
                viols.append((what, path))
        for k in r["incomplete"]:
            # paths beyond an already reported violation are cut; nothing else may be
            problems.append("%s: not fully explored: %s x%d" % (tag, k, r["incomplete"][k]))
        if not r["violations"]:
            for m in j.get("reach", []):
                if not r["reach"].get(str(m)):
                    problems.append("%s: harness point %s was not reached" % (tag, m))
    for t in notrep:
        problems.append("%s: counterexample of symex does not reproduce natively (%s %s) %s -> %s" % t)
    evidence(pid, spec, tier, jobs, results, viols, kf_hit, time.time() - t0, tb)
    for w in kf_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for w, p in viols[:10]:
        print("  " + w)
        print("VIOLATION property=%s replay=%s" % (pid, p))
    ok = sum(1 for r in results if r.get("rc") == 0)
    print("%s %s: %d/%d jobs discharged, %d paths, %d solver queries, %.1f s (build %.1f s)" % (
        pid, tier, ok, len(jobs), sum(r.get("paths", 0) for r in results),
        sum(r.get("solver", {}).get("queries", 0) for r in results), time.time() - t0, tb))
    if viols:
        return 1
    if problems:
        for p in problems[:20]:
            print("NO-ANSWER " + p)
        return 2
    return 0

def evidence(pid, spec, tier, jobs, results, viols, kf_hit, wall, tb):
    rs = [r for r in results if "paths" in r]
    s = lambda k: sum(r.get(k, 0) for r in rs)
    q = lambda k: sum(r["solver"][k] for r in rs)
    fns = {}
    for r in rs:
        for f in r["functions"]:
            key = (f["file"].split("/repo/", 1)[-1], f["fn"])
            fns[key] = max(fns.get(key, 0), f["lines"])
    samples = []
    for j, r in zip(jobs, results):
        for x in r.get("samples", [])[:1]:
            samples.append({"entry": j["entry"], "params": list(j["params"]), "model_of_one_path": dict(list(x.items())[:24])})
    cov = {
        "explanation": spec["explain"],
        "functions_encoded": [{"file": f, "function": n, "source_lines": l} for (f, n), l in sorted(fns.items())],
        "bounds": spec["bounds"],
        "outside": spec.get("outside", ""),
        "jobs": [{"entry": j["entry"], "params": list(j["params"]), "paths": r.get("paths"), "checks": r.get("checks"),
                  "sched_points": r.get("sched_points"), "result": {0: "holds", 1: "violated", 2: "incomplete"}.get(r.get("rc"), "failed"),
                  "wall_s": round(r["wall"], 2)} for j, r in zip(jobs, results)],
        "evaluations": s("paths"),
        "paths_feasible": s("paths_ok"),
        "paths_cut_by_assumptions": s("paths_assumed_out"),
        "paths_infeasible": s("paths_infeasible"),
        "assertions_evaluated": s("checks"),
        "assertions_decided_by_solver": s("checks_solver"),
        "ir_instructions_executed": s("insts"),
        "longest_path_instructions": max([r.get("longest_path", 0) for r in rs] or [0]),
        "solver": {"queries": q("queries"), "sat": q("sat"), "unsat": q("unsat"), "unknown": q("unknown"), "seconds": round(q("secs"), 2)},
        "build_s": round(tb, 1),
        "samples": samples[:6],
        "known_findings": kf_hit,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.get("level", "other"),
          "coverage": cov, "assumptions": spec.get("assumptions", []) + J.COMMON_ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(viols)}
    put(os.path.join(VERIF, "evidence", pid + ".json"), json.dumps(ev, indent=1))

def main():
    a = sys.argv[1:]
    try:
        if a[0] == "check":
            tier = "thorough" if "thorough" in a[2:] else "quick"
            sys.exit(check(a[1], tier))
        if a[0] == "build":
            print(build_symex()); print(build_ir(a[1])); sys.exit(0)
        if a[0] == "setup":
            build_symex(); sys.exit(0)
        if a[0] == "replay":     # replay GROUP ENTRY PREEMPT PARAMS INPUTS...
            b = build_replay(a[1]); sys.exit(subprocess.call([b] + a[2:]))
        if a[0] == "run":        # run GROUP ENTRY PARAMS [symex options]
            sx = build_symex(); ll = build_ir(a[1])
            p = ["--params", a[3]] if len(a) > 3 and a[3] != "-" else []
            sys.exit(subprocess.call([sx, ll, "--entry", a[2]] + p + a[4:]))
    except Fail as e:
        print("NO-ANSWER " + str(e))
        sys.exit(2)

if __name__ == "__main__":
    main()
