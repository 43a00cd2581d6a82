#!/usr/bin/env python3
"""mutate.py LIST.py [ID...]: try many small changes: build, stable tests, the check of the property (in scratch copies)."""
import sys, os, json, subprocess, shutil, tempfile, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for id, props, edits in ns["M"]:
    if want and id not in want:
        continue
    W = tempfile.mkdtemp(prefix="mut.")
    try:
        subprocess.check_call(["cp", "-a", "/repo", W + "/repo"])
        R = W + "/repo"
        bad = None
        for f, old, new in edits:
            s = open(R + "/" + f).read()
            if s.count(old) != 1:
                bad = "edit matches %d times: %r" % (s.count(old), old[:50])
                break
            open(R + "/" + f, "w").write(s.replace(old, new))
        if bad:
            print(id, "EDIT", bad, flush=True)
            continue
        env = ". /opt/vp/env.sh >/dev/null 2>&1; "
        p = subprocess.run(["bash", "-c", env + "go build ./..."], cwd=R, capture_output=True, text=True)
        if p.returncode:
            print(id, "BUILD", p.stderr[-300:], flush=True)
            continue
        t = open("/opt/vp/test.sh").read().replace("/repo", R).replace("/opt/vp/work", W + "/work")
        open(W + "/test.sh", "w").write(t)
        subprocess.run(["bash", W + "/test.sh", W + "/out.json"], capture_output=True)
        try:
            passed = json.load(open(W + "/out.json"))["passed"]
            miss = [x for x in base if x not in passed]
        except Exception as e:
            miss = ["?" + str(e)]
        for q in props:
            t0 = time.time()
            p = subprocess.run(["bin/check", q], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=R))
            r = [x for x in p.stdout.splitlines() if x.startswith("reason")]
            print(id, q, {0: "MISSED", 1: "caught"}.get(p.returncode, "rc=%d" % p.returncode), "%ds" % (time.time() - t0),
                  "tests:%s" % ("ok" if not miss else "FAIL %d" % len(miss)), (r or [p.stdout[-300:] if p.returncode > 1 else ""])[0][:140], flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
