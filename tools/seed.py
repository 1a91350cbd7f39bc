#!/usr/bin/env python3
"""Makes and checks planted bugs. usage: seed.py FILE...   (each FILE defines seeds with seed(...))
Each is tried in a scratch copy of /repo: the demonstration passes there, the patch applies, the copy
builds, the repository's tests fare as before and the demonstration fails. Kept in /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ENV = ". /opt/vp/env.sh; "

def sh(cmd, cwd, timeout=400):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout)

def failing(cwd):
    p = sh("go test -json -vet=off -count=1 -timeout 3m ./... 2>/dev/null", cwd)
    passed = set()
    for l in p.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Action") == "pass" and d.get("Test"):
            passed.add(d["Package"] + ":" + d["Test"])
    return passed

DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo '{"Replace":{"'"$PWD"'/%(pkg)s/zz_demo_test.go":"'"$d"'/demo_test.go.txt"}}' > "$t/o.json"
go test %(flags)s-vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo' ./%(pkg)s
'''

def seed(id, prop, pkg, edits, test, needs, breaks, flags=""):
    only = os.environ.get("ONLY")
    if only and only != id: return
    d = os.path.join(V, "seeded", id)
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        shutil.copytree(R, w + "/r", symlinks=True)
        r = w + "/r"
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        base = failing(r)
        for f, old, new in edits:
            s = open(os.path.join(r, f)).read()
            if s.count(old) != 1:
                print(id, "EDIT", f, "matches", s.count(old)); return
            open(os.path.join(r, f), "w").write(s.replace(old, new))
        g = sh("gofmt -l " + " ".join(sorted({e[0] for e in edits})), r)
        if g.stdout.strip(): print(id, "not gofmt:", g.stdout.strip())
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        if isinstance(test, str):
            open(d + "/demo_test.go.txt", "w").write(test)
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=pkg, flags=flags))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash -c 'go build ./... && go vet -vettool= ./... 2>/dev/null; go build ./...'", r)
        if b.returncode: print(id, "BUILD", b.stderr[-800:]); return
        bad = sh("bash %s/demo.sh" % d, r)
        after = failing(r)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=r)
        good = sh("bash %s/demo.sh" % d, r)
        ok = good.returncode == 0 and bad.returncode != 0 and base <= after
        print(id, prop, "OK" if ok else "NOT OK", "clean", good.returncode, "patched", bad.returncode, "lost", sorted(base - after)[:5])
        if good.returncode: print(good.stdout[-1500:], good.stderr[-500:])
        if not ok and bad.returncode == 0: print(bad.stdout[-300:])
        if ok and "-v" in sys.argv: print(bad.stdout[-700:], bad.stderr[-300:])
        if os.environ.get("KEEPBAD") is None and not ok: shutil.rmtree(d)
        # what do the checks say
        if ok and os.path.exists("/tmp/chk"):
            sh("git apply %s/patch.diff" % d, r)
            c = subprocess.run(["/tmp/chk", prop], env=dict(os.environ, VERIF_REPO=r, VERIF_DIR="/tmp/vd"), capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("    ") and not l.startswith("    note")]
            print("   ", "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode, (v or [c.stdout[-200:]])[0][:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)

for f in [a for a in sys.argv[1:] if not a.startswith("-")]:
    exec(open(f).read())
