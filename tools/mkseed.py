"""Development aid: writes one planted bug to seeded/<id>/ and confirms it in a scratch copy.
usage: mkseed.py SPEC.py   (SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)])
"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
pids=()
for f in "$d/demo.cpp" src/*.cpp; do
  g++ -std=c++17 -O1 -w -Descaped_key=unescaped_key -Iinclude -c "$f" -o "$t/$(basename "$f").o" & pids+=($!)
done
for p in "${pids[@]}"; do wait $p || exit 3; done
g++ "$t"/*.o -lsimdjson -licuuc -licui18n -o "$t/demo" || exit 3
timeout 120 "$t/demo"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(H, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(w, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    ok = True
    for f, old, new in s["edits"]:
        t = open(os.path.join(r, f)).read()
        if t.count(old) != 1:
            print(s["id"], "pattern occurs", t.count(old), "times:", old[:60]); ok = False; continue
        open(os.path.join(r, f), "w").write(t.replace(old, new))
    if ok:
        p = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(p)
        open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run([d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run([d + "/demo.sh"], cwd=r, capture_output=True, text=True)
        print(s["id"], "clean", a.returncode, "patched", b.returncode, (a.stdout + a.stderr)[-200:], "|", (b.stdout + b.stderr)[-300:])
    shutil.rmtree(w)
