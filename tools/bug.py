#!/usr/bin/env python3
"""bug.py add ID PROPERTY FILE < json   : development helper, plants a bug from (old,new) pairs
   bug.py test ID [check...]  : confirm demo/tests with and without the patch in /repo, run checks; always undoes the patch"""
import sys, os, json, subprocess, shutil, time
S = "/verif/seeded"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def add(bid, prop, needs, breaks, edits, demo, kind="base"):
    d = f"{S}/{bid}"; os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    try:
        for f, old, new in edits:
            p = "/repo/" + f; t = open(p).read(); assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally:
        sh("git -C /repo checkout -- .")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if kind == "base":
        shutil.copy("/verif/tools/demo_base.sh", d + "/demo.sh")
        open(d + "/demo.rs", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
def test(bid, checks=None, base=True):
    d = f"{S}/{bid}"; m = json.load(open(d + "/meta.json"))
    assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
    if base:
        sh("bash /opt/vp/build.sh")
        r = sh(f"cd /repo && bash {d}/demo.sh", timeout=400)
        print(bid, "demo unchanged:", r.returncode, r.stdout[-300:] if r.returncode else "")
    try:
        r = sh(f"git -C /repo apply {d}/patch.diff"); assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/build.sh"); print(bid, "build:", r.returncode, r.stdout[-1500:] if r.returncode else "")
        r = sh("bash /opt/vp/test.sh /tmp/bug.json"); o = json.load(open("/tmp/bug.json"))
        base_ = set(json.load(open("/opt/vp/BASELINE.json")).get("tests") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
        print(bid, "tests:", {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in o.items()}, o.get("failed"))
        r = sh(f"cd /repo && bash {d}/demo.sh", timeout=400)
        print(bid, "demo patched:", r.returncode, r.stdout[-300:].replace("\n", " | "))
        for c in checks or [m["property"]]:
            t0 = time.time()
            r = sh(f"cd /verif && python3 vf.py check {c} --tier quick")
            print(bid, "check", c, "->", r.returncode, "%.0fs" % (time.time() - t0), [l for l in r.stdout.splitlines() if "VIOL" in l or "NO-ANS" in l or "error" in l][:3])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
if __name__ == "__main__":
    if sys.argv[1] == "test":
        test(sys.argv[2], sys.argv[3:])
    else:
        for f in sys.argv[2:]:
            exec(open(f).read())
