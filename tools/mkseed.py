#!/usr/bin/env python3
"""mkseed.py BATCH.py : each entry of SEEDS in BATCH.py becomes /verif/seeded/<id>/ once it is confirmed in a scratch copy of /repo:
it builds, the stable tests pass, the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# runs demo_test.go inside package {pkg} of the repository in the working directory, through an overlay
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${{HOME:-/root}} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
printf '{{"Replace": {{"%s": "%s"}}}}' "$PWD/{pkg}/seeded_demo_test.go" "$d/demo_test.go" > "$t/overlay.json"
go test -c -vet=off -overlay "$t/overlay.json" -o "$t/demo.test" ./{pkg} || exit 2
mkdir "$t/run" && cd "$t/run" || exit 2
TMPDIR="$t/run" timeout 250 "$t/demo.test" -test.run '^TestSeededDemo$' -test.count 1
'''
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)
def stable(cwd):
    pk = [l for l in run(["go", "list", "./..."], cwd).stdout.split() if not l.endswith(("/metadata/fetcher", "/metadata/updater"))]
    t = tempfile.mkdtemp()
    r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", *pk], cwd=cwd, env=dict(ENV, TMPDIR=t), capture_output=True, text=True)
    shutil.rmtree(t)
    return r.returncode == 0, r.stdout[-1500:]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    copy = tempfile.mkdtemp(prefix="seedrepo")
    subprocess.run(["cp", "-a", "/repo/.", copy], check=True)
    run(["git", "checkout", "-q", "--", "."], copy)
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        d = tempfile.mkdtemp(prefix="seed")
        with open(d + "/demo_test.go", "w") as f: f.write(s["demo"])
        with open(d + "/demo.sh", "w") as f: f.write(DEMO.format(pkg=s["pkg"]))
        run(["git", "checkout", "-q", "--", "."], copy)
        ok = True
        for fn, old, new in s["edits"]:
            p = copy + "/" + fn
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT matches", t.count(old), "times:", old[:60]); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        with open(d + "/patch.diff", "w") as f: f.write(run(["git", "diff"], copy).stdout)
        b = run(["go", "build", "./..."], copy)
        if b.returncode: print(s["id"], "BUILD", b.stderr); continue
        st, log = stable(copy)
        if not st: print(s["id"], "STABLE TESTS FAIL", log[-800:]); continue
        p = run(["bash", d + "/demo.sh"], copy)
        run(["git", "checkout", "-q", "--", "."], copy)
        c = run(["bash", d + "/demo.sh"], copy)
        if c.returncode: print(s["id"], "DEMO FAILS CLEAN", c.stdout[-1500:], c.stderr[-1500:]); continue
        if p.returncode == 0: print(s["id"], "DEMO PASSES PATCHED"); continue
        if p.returncode == 2: print(s["id"], "DEMO BROKEN", p.stderr[-800:]); continue
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        dst = SEEDED + "/" + s["id"]
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        shutil.rmtree(d)
        print(s["id"], "ok:", (p.stdout.strip().splitlines() or ["?"])[1 if len(p.stdout.strip().splitlines()) > 1 else 0][:150])
    shutil.rmtree(copy)
main()
