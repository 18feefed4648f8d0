#!/usr/bin/env python3
"""seedtest.py <seed id> [--notests] [--checks C01,C02|all|own]: validates a planted bug in a scratch copy of /repo and runs checks
against that copy. Development tool only; no check uses it."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    sid = sys.argv[1]
    notests = "--notests" in sys.argv
    checks = sys.argv[sys.argv.index("--checks") + 1] if "--checks" in sys.argv else "own"
    seed = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(os.path.join(seed, "meta.json")))
    base = "/tmp/seed/" + sid
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/vp")
    repo = base + "/repo"
    sh("git clone -q /repo %s" % repo)
    for f in os.listdir("/opt/vp"):
        if f.endswith((".py", ".sh")):
            s = open("/opt/vp/" + f).read().replace("/repo", repo).replace("/opt/vp/", base + "/vp/")
            open(base + "/vp/" + f, "w").write(s)
        else:
            shutil.copy("/opt/vp/" + f, base + "/vp/" + f)
    # the demo folder lies elsewhere
    demo = base + "/demo"
    shutil.copytree(seed, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("bash %s/demo.sh" % demo, cwd=repo)
    ok = True
    if r.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:])
        ok = False
    r = sh("git apply %s/patch.diff" % seed, cwd=repo)
    if r.returncode != 0:
        print(sid, "PATCH DOES NOT APPLY", r.stdout[-500:])
        return 1
    r = sh("bash %s/demo.sh" % demo, cwd=repo)
    if r.returncode == 0:
        print(sid, "DEMO PASSES WITH PATCH")
        ok = False
    else:
        print(sid, "demo with patch: rc", r.returncode, r.stdout[-200:].replace("\n", " | "))
    if not notests:
        sh("bash %s/vp/test.sh %s/out.json > %s/test.log" % (base, base, base))
        res = json.load(open(base + "/out.json"))
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = want - set(res["passed"])
        print(sid, "tests: %d passed, %d of the stable ones missing" % (len(res["passed"]), len(missing)), list(missing)[:4])
        if missing:
            print(sh("grep -m3 error: %s/test.log" % base).stdout[:600])
        ok = ok and not missing
    print(sid, "VALID" if ok else "NOT VALID")
    if checks == "own":
        lst = [meta["property"]]
    elif checks == "all":
        lst = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    elif checks == "none":
        lst = []
    else:
        lst = checks.split(",")
    env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_EVIDENCE=base + "/evidence")
    caught = []
    for c in lst:
        r = subprocess.run([sys.executable, "check.py", c, "--tier", "quick"], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        hit = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
        if hit:
            caught.append(c)
        first = next((x for x in r.stdout.splitlines() if x.startswith("  ")), "")
        if lst == [meta["property"]] or (hit and "-v" in sys.argv) or r.returncode not in (0, 1):
            print("   ", c, "rc", r.returncode, first[:300] if hit else r.stdout.splitlines()[-1][:200])
    print(sid, "property", meta["property"], "caught by:", " ".join(caught) or "NONE")
    shutil.rmtree(base, ignore_errors=True)
    return 0


sys.exit(main())
