#!/usr/bin/env python3
"""mkseed.py NAME...: plants the bugs described in seeds.py into a scratch copy
of /repo (bind-mounted over /repo in a user namespace), confirms that it builds,
passes the stable tests and makes the demonstration fail, and that the
demonstration passes without it; then writes /verif/seeded/NAME and runs the
property's check against it. Usage: mkseed.py [--nocheck|--check] NAME..."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = "/verif/seeded"
sys.path.insert(0, HERE)
import seeds
def ns(repo, cmd, log, timeout=1500):
    full = ["unshare", "-Urmn", "bash", "-c", "mount --bind %s /repo && ip link set lo up && cd /repo && %s" % (repo, cmd)]
    with open(log, "a") as f:
        try: return subprocess.run(full, stdout=f, stderr=f, timeout=timeout).returncode
        except subprocess.TimeoutExpired: return 124
def tests_ok(repo, name, log):
    j = "/tmp/seedt.%s.json" % name
    if ns(repo, "bash /opt/vp/build.sh", log): return "build failed"
    ns(repo, "bash /opt/vp/test.sh %s" % j, log)
    b = json.load(open("/opt/vp/BASELINE.json")); st = b.get("stable") or b.get("stable_tests") or b
    ps = json.load(open(j)).get("passed") or []; os.unlink(j)
    miss = set(st) - set(ps)
    return "tests fail: %s" % miss if miss else None
def one(name, mode):
    s = seeds.S[name]; repo = "/tmp/seedr." + name; log = "/tmp/seedl." + name; d = os.path.join(OUT, name)
    open(log, "w").close(); shutil.rmtree(repo, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", repo])
    try:
        if mode != "check":
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(d): os.unlink(os.path.join(d, f))
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f); t = open(p).read()
                assert t.count(old) == 1, "%s: %d matches in %s: %r" % (name, t.count(old), f, old)
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
            subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
            if "from kit" in s["demo"]: shutil.copy(os.path.join(HERE, "kit.py"), d)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# Exit status 0 if the property holds, 1 if not.\nexec python3 -B "$(dirname "$0")/demo.py"\n'); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            tmp = "/tmp/seedd." + name; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
            for f in ("patch.diff", "meta.json"): os.unlink(os.path.join(tmp, f))
            if ns(repo, "bash /opt/vp/build.sh", log): return "base build failed"
            for _ in range(s.get("repeat", 2)):
                rc = ns(repo, "bash %s/demo.sh" % tmp, log, 300)
                if rc != 0: return "BAD demo exits %d on the unchanged tree" % rc
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")])
        if mode != "check":
            e = tests_ok(repo, name, log)
            if e: return "BAD " + e
            for _ in range(s.get("repeat", 2)):
                rc = ns(repo, "bash %s/demo.sh" % tmp, log, 300)
                if rc in (0, 124): return "BAD demo exits %d with the patch" % rc
            shutil.rmtree(tmp)
        if mode == "nocheck": return "good"
        b = "/tmp/seedb." + name; shutil.rmtree(b, ignore_errors=True); P = s["property"]
        rc = ns(repo, "cd /verif && NSCA_BUILD=%s bash sim/build.sh && exec %s/simcheck --property %s --seed 1 --root %s --evidence %s/ev.json" % (b, b, P, "/verif", b), log, 900)
        shutil.rmtree(b, ignore_errors=True)
        tail = [l for l in open(log) if "VIOLATION" in l or "violation found" in l]
        return "good; check %s exits %d: %s" % (P, rc, tail[0].strip() if tail else "MISSED")
    finally: shutil.rmtree(repo, ignore_errors=True); shutil.rmtree("/tmp/seedd." + name, ignore_errors=True)
mode = "both"; a = sys.argv[1:]
if a and a[0].startswith("--"): mode = a.pop(0)[2:]
if not a: a = list(seeds.S)
for n in a:
    print(n, "->", one(n, mode), flush=True)
