#!/usr/bin/env python3
"""plant.py ID [check ...]: validate seeded/ID in a scratch copy of /repo (applies, builds, stable tests pass, demo passes
without and fails with the patch) and run the given checks (default: the property's own) against the changed tree."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): r = subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k); return r.returncode, r.stdout
def tree(dst):
    sh(["cp", "-a", "/repo", dst]); shutil.rmtree(dst + "/_build", ignore_errors=True); sh("git checkout -q -- . && git clean -fdq", cwd=dst)
def build(dst, tests):
    rc, o = sh("cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_PROJECT_INCLUDE=/opt/vp/cases.cmake && ninja -C %s/_build %s" % (dst, dst, dst, "all vp_cases" if tests else "bls12-381"), env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
    return rc, o
def main():
    bid = sys.argv[1]; d = os.path.join(V, "seeded", bid); meta = json.load(open(d + "/meta.json")); root = "/tmp/seed"; os.makedirs(root, exist_ok=True)
    clean = root + "/clean"; head = sh("git -C /repo rev-parse HEAD")[1].strip()
    if not os.path.exists(clean) or sh("git -C %s rev-parse HEAD" % clean)[1].strip() != head or not os.path.exists(clean + "/_build/libbls12-381.a"):
        shutil.rmtree(clean, ignore_errors=True); tree(clean); rc, o = build(clean, False)
        if rc: print(o[-2000:]); return 1
    t = root + "/" + bid; shutil.rmtree(t, ignore_errors=True); tree(t)
    rc, o = sh("git apply %s/patch.diff" % d, cwd=t)
    if rc: print("apply failed", o); return 1
    rc, o = build(t, True)
    if rc: print("build failed", o[-3000:]); return 1
    res = {}
    if "--notest" not in sys.argv:
        rc, o = sh("rm -f %s/_build/ctest.xml; ctest --test-dir %s/_build -j8 --timeout 60 --output-junit %s/_build/ctest.xml; python3 /opt/vp/results.py %s/o.json junit:%s/_build/ctest.xml" % (t, t, t, t, t))
        r = json.load(open(t + "/o.json")); base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("stable") or base.get("passed") or base
        bad = [x for x in stable if x not in r["passed"]]; print("tests: passed %d, stable not passing: %s" % (len(r["passed"]), bad[:5])); res["tests"] = not bad
    for nm, dr in (("clean", clean), ("patched", t)):
        dd = tempfile.mkdtemp(prefix="demo-"); 
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(os.path.join(d, f), dd)
        rc, o = sh("timeout 300 bash %s/demo.sh" % dd, cwd=dr); print("demo on %s: exit %d %s" % (nm, rc, o.strip()[-200:])); res[nm] = rc; shutil.rmtree(dd)
    print("COUNTS" if res.get("tests", True) and res["clean"] == 0 and res["patched"] != 0 else "DOES NOT COUNT")
    for c in [a for a in sys.argv[2:] if not a.startswith("--")] or [meta["property"]]:
        rc, o = sh("python3 run.py check %s --tier quick" % c, cwd=V, env=dict(os.environ, VERIF_REPO=t)); print("check %s: exit %d" % (c, rc), [l[:260] for l in o.splitlines() if l.startswith(("VIOLATION", "counterexample", "ERROR", "note"))][:3], o.strip().splitlines()[-1][:200] if o.strip() else "")
    shutil.rmtree(t, ignore_errors=True); return 0
sys.exit(main())
