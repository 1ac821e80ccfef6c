#!/usr/bin/env python3
"""Writes tools/refactor/*.patch: edits of /repo that keep the behaviour (helpers extracted, loops rewritten, statements
reordered). runseeds.sh PROPERTY:PATCH runs a check on one of them; the checks have to stay quiet."""
import os, shutil, subprocess, sys, tempfile
M = "metadata/metadata.go"; T = "metadata/trustedmetadata/trustedmetadata.go"; U = "metadata/updater/updater.go"
R = "metadata/multirepo/multirepo.go"; F = "metadata/fetcher/fetcher.go"; MA = "metadata/marshal.go"; K = "metadata/keys.go"
E = "metadata/errors.go"
ALL = []
def ref(name, props, file, *edits, end=""): ALL.append((name, props, file, edits, end))

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor", "edits.py")).read())

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor")
only = set(sys.argv[1:])
for name, props, file, edits, end in ALL:
    if only and name not in only: continue
    d = tempfile.mkdtemp(prefix="/tmp/refac.")
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        p = d + "/repo/" + file
        s = open(p).read()
        for a, b in edits:
            if s.count(a) < 1: raise SystemExit("%s: not found: %r" % (name, a[:80]))
            s = s.replace(a, b)
        s += end
        open(p, "w").write(s)
        subprocess.check_call(["gofmt", "-l", "-w", p], stdout=subprocess.DEVNULL)
        r = subprocess.run(["go", "vet", "./metadata/..."], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode: print(name, "vet:", r.stderr[:600])
        r = subprocess.run(["go", "test", "./metadata/", "./metadata/trustedmetadata", "./metadata/multirepo", "./metadata/config"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode: print(name, "test:", r.stdout[-600:])
        open("%s/%s.patch" % (out, name), "w").write(subprocess.run(["git", "diff"], cwd=d + "/repo", capture_output=True, text=True).stdout)
        print(" ".join("%s:tools/refactor/%s.patch" % (q, name) for q in props.split()))
    finally:
        shutil.rmtree(d)
