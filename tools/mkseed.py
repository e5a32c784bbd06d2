#!/usr/bin/env python3
"""Helper used while planting bugs: mkseed.py <id> <property> <json spec on stdin>
spec: {"edits": [[file, old, new], ...], "needs": ..., "breaks": ..., "test": go test body, "imports": [...]}"""
import json, os, subprocess, sys
sid, prop = sys.argv[1], sys.argv[2]
R = os.environ.get("SEED_REPO", "/repo")
ns = {}
exec(sys.stdin.read(), ns)
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"]), "dirty"
try:
    for f, old, new in ns["edits"]:
        p = R + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"])
    open(d + "/patch.diff", "wb").write(diff)
finally:
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
imports = "".join('\t"%s"\n' % i for i in sorted(set(ns.get("imports", []) + ["testing"])))
extra = ns.get("extra", "")
open(d + "/demo_test.go", "w").write("package ddl\n\nimport (\n" + imports + ")\n\n" + extra + "func TestSeedDemo(t *testing.T) {\n" + ns["test"].strip("\n") + "\n}\n")
open(d + "/demo.sh", "w").write('''#!/usr/bin/env bash
# Runs the demonstration test inside the package through an overlay.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/ddl/zz_seed_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -tags=fts5 -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' ./ddl
''')
os.chmod(d + "/demo.sh", 0o755)
subprocess.call(["gofmt", "-w", d + "/demo_test.go"])
