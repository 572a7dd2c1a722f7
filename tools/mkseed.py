"""mkseed.py SPEC.py: write seeded/<id>/ from a spec and confirm the demo on clean and changed trees.

A spec defines ID, PROP, EDITS=[(file, old, new), ...], NEEDS, BREAKS, DEMO (python text)."""
import json, os, shutil, subprocess, sys
WT = "/tmp/seedwt"
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec["ID"]
if not os.path.exists(WT):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD"])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
open(d + "/demo.py", "w").write(spec["DEMO"])
if "from mini" in spec["DEMO"] or "import mini" in spec["DEMO"]:
    shutil.copy("/verif/tools/mini.py", d + "/mini.py")
open(d + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD:$D" PYTHONDONTWRITEBYTECODE=1
T=$(mktemp -d)
cp "$D"/*.py "$T"/
export PYTHONPATH="$PWD:$T"
cd "$T" && timeout 250 /opt/venv/bin/python demo.py
rc=$?
cd / && rm -rf "$T"
exit $rc
''')
json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=WT, capture_output=True, text=True)
r = run()
print("clean rc", r.returncode, (r.stdout + r.stderr)[-600:])
for f, o, n in spec["EDITS"]:
    t = open(WT + "/" + f).read()
    assert t.count(o) == 1, (f, t.count(o), o)
    open(WT + "/" + f, "w").write(t.replace(o, n))
diff = subprocess.check_output(["git", "-C", WT, "diff"], text=True)
open(d + "/patch.diff", "w").write(diff)
r2 = run()
print("patched rc", r2.returncode, (r2.stdout + r2.stderr)[-300:])
subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "."])
assert r.returncode == 0 and r2.returncode != 0, "demo does not discriminate"
print("OK", ID)
