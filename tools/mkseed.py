"""mk(): writes seeded/<id>/ from edits and a demo program (used by hand)."""
import json, os, subprocess, sys, tempfile, shutil
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go.txt"}}' "$PWD" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 2
EXTRA
timeout 120 "$t/demo"ARGS
'''
def mk(id, prop, edits, needs, breaks, main, extra="", args=""):
    S = "/verif/seeded/" + id
    os.makedirs(S, exist_ok=True)
    W = tempfile.mkdtemp(prefix="mk.")
    subprocess.check_call(["git", "clone", "-q", "/repo", W + "/r"])
    for f, old, new in edits:
        p = W + "/r/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT not unique:", s.count(old), repr(old[:60])); shutil.rmtree(W); return
        open(p, "w").write(s.replace(old, new))
    subprocess.call(["gofmt", "-l", "-w"] + [W + "/r/" + f for f, _, _ in edits if f.endswith(".go")], stdout=subprocess.DEVNULL)
    d = subprocess.run(["git", "diff"], cwd=W + "/r", capture_output=True, text=True).stdout
    open(S + "/patch.diff", "w").write(d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), ensure_ascii=False, indent=1)
    open(S + "/demo.sh", "w").write(DEMO.replace("EXTRA\n", extra + "\n" if extra else "").replace("ARGS", (" " + args) if args else ""))
    os.chmod(S + "/demo.sh", 0o755)
    open(S + "/main.go.txt", "w").write(main)
    shutil.rmtree(W)
    print(id, "written")
