#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo and stores it under seeded/.

usage: mkseed.py SPEC.py   where SPEC.py defines a list `seeds` of dicts:
  id, property, needs, breaks, pkg (directory of the demo test), demo (Go test source
  with func TestZZDemo), edits: [(file, old, new), ...]
"""
import json, os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Exit 0 if the property held, nonzero otherwise.
d=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(pkg)s" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s %(flags)s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
HD = '''#!/bin/bash
# Exit 0 if the property held, nonzero otherwise. healthd's dependencies are replaced by the stand-ins beside this file.
d=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp go.mod "$t/go.mod"; cp go.sum "$t/go.sum"
cat >> "$t/go.mod" <<EOF
require (
	github.com/braintree/manners v0.0.0
	github.com/gocraft/web v0.0.0
)
replace github.com/braintree/manners => $d/stubs/manners
replace github.com/gocraft/web => $d/stubs/web
EOF
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD/%(pkg)s" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 200s %(flags)s -modfile "$t/go.mod" -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
TOP = HD.replace("healthd's dependencies", "The commands' dependencies").replace("github.com/gocraft/web v0.0.0\n", "github.com/gocraft/web v0.0.0\n\tgithub.com/buger/goterm v0.0.0\n\tgithub.com/spf13/cobra v0.0.0\n").replace("EOF\nprintf", "replace github.com/buger/goterm => $d/stubs/goterm\nreplace github.com/spf13/cobra => $d/stubs/cobra\nEOF\nprintf")
def run(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, capture_output=True, text=True, **k)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["seeds"]:
    if only and s["id"] not in only: continue
    out = f"{root}/seeded/{s['id']}"
    w = tempfile.mkdtemp(prefix="seed")
    c = w + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", c])
    try:
        os.makedirs(out, exist_ok=True)
        open(out + "/demo_test.go", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write(s.get("sh") or (TOP if s.get("top") else HD if s.get("hd") else DEMO) % dict(pkg=s["pkg"], flags=s.get("flags", "")))
        if s.get("hd") or s.get("top"):
            for k in ("braintree@manners", "gocraft@web") + (("buger@goterm", "spf13@cobra") if s.get("top") else ()):
                shutil.copytree(f"{root}/harness/stubs/{k}", f"{out}/stubs/{k.split('@')[1]}", dirs_exist_ok=True)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = run(["bash", out + "/demo.sh"], c)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNCHANGED", r.stdout[-2000:], r.stderr[-1000:]); shutil.rmtree(out); continue
        for f, a, b in s["edits"]:
            t = open(f"{c}/{f}").read()
            if t.count(a) != 1: print(s["id"], "EDIT matches", t.count(a), repr(a)); sys.exit(1)
            open(f"{c}/{f}", "w").write(t.replace(a, b))
        d = run(["git", "diff"], c).stdout
        open(out + "/patch.diff", "w").write(d)
        r = run(["bash", "-c", f". /opt/vp/env.sh; cd {c}; go build $GC ./... 2>&1 | head; go test -json -vet=off -count=1 -p 1 -cpu 1 -timeout 60s $GC $PKGS > {w}/log; python3 /opt/vp/results.py {w}/out.json gojson:{w}/log"], c)
        res = json.load(open(w + "/out.json"))
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in stable if x not in res["passed"]]
        if bad:
            print(s["id"], "TESTS FAIL", bad, r.stdout[-1500:]); shutil.rmtree(out); continue
        r = run(["bash", out + "/demo.sh"], c)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES WITH BUG"); shutil.rmtree(out); continue
        msg = [l for l in r.stdout.split("\n") if "zz_demo_test" in l or "demo_test.go" in l or "RACE" in l or "panic" in l][:2]
        print(s["id"], "ok:", msg)
    finally:
        shutil.rmtree(w)
