#!/usr/bin/env python3
"""For each seeded change: demo on the clean tree, apply, repository tests, demo, the property's check, undo.
   tools/seedcheck.py [--demo-only] [--all-checks P01,P02] ID..."""
import atexit, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
if "--copy" in sys.argv:                    # works on a copy; the checks follow it through VERIF_REPO
    sys.argv.remove("--copy")
    R = tempfile.mkdtemp(prefix="sc_") + "/repo"
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    os.environ["VERIF_REPO"] = R
    atexit.register(lambda: shutil.rmtree(os.path.dirname(R), ignore_errors=True))


def sh(cmd, timeout=900, **kw):
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    return p.returncode, p.stdout + p.stderr


def tests():
    with tempfile.TemporaryDirectory() as t:
        rc = 0
        for n, a in (("build", ""), ("test", t + "/o.json")):
            open(t + "/x.sh", "w").write(open("/opt/vp/%s.sh" % n).read().replace("$W/repo", "@@")
                                         .replace("/repo/", R + "/").replace("cd /repo ", "cd %s " % R).replace("@@", "$W/repo"))
            x = sh("bash %s/x.sh %s" % (t, a), cwd=R)
            if n == "build" and x[0]:
                return ["BUILD FAILS " + x[1][-500:]]
        o = json.load(open(t + "/o.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(o.get("passed", []))
    return [s for s in stable if s not in passed]


def main():
    args = sys.argv[1:]
    demo_only = "--demo-only" in args
    args = [a for a in args if a != "--demo-only"]
    checks = None
    if "--all-checks" in args:
        i = args.index("--all-checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    ids = args or sorted(os.listdir(V + "/seeded"))
    assert not sh("git status --porcelain", cwd=R)[1].strip(), "/repo is not clean"
    for b in ids:
        d = "%s/seeded/%s" % (V, b)
        meta = json.load(open(d + "/meta.json"))
        rc0, out0 = sh("sh %s/demo.sh" % d, timeout=300, cwd=R)
        rc, out = sh("git apply %s/patch.diff" % d, cwd=R)
        if rc:
            print(b, "PATCH FAILS", out)
            continue
        try:
            missing = tests()
            t = time.time()
            rc1, out1 = sh("sh %s/demo.sh" % d, timeout=300, cwd=R)
            td = time.time() - t
            line = "%-28s %s demo clean=%d patched=%d (%.0fs) tests=%s" % (b, meta["property"], rc0, rc1, td, "ok" if not missing else missing)
            if rc0:
                line += "\n   CLEAN DEMO FAILS: " + out0[-600:]
            if not rc1:
                line += "\n   PATCHED DEMO PASSES: " + out1[-300:]
            print(line, flush=True)
            if not demo_only:
                for p in checks or [meta["property"]]:
                    t = time.time()
                    rc, out = sh("python3-vt checks/run.py %s" % p, cwd=V, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
                    v = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                    print("   %s: rc=%d %.0fs %s" % (p, rc, time.time() - t, "CAUGHT" if rc == 1 and v else "MISSED " + out[-300:]), flush=True)
        finally:
            sh("git checkout -- .", cwd=R)


main()
