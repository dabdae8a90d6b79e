#!/usr/bin/env python3
"""Makes and confirms planted bugs (development only; no check uses it).

plant.py make FILE.py [id ...]   FILE.py defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)],
                                 pkg, test=<Go test source>)}: writes /verif/seeded/<id>/ once the change builds,
                                 passes the tests, changes only original lines, and the demonstration tells it apart
plant.py check [id ...]          applies each planted bug in turn and runs its property's check
"""
import json, os, subprocess, sys, importlib.util, shutil, re
R, V = "/repo", "/verif"
ENV = dict(os.environ)
for k, v in [l.split("=", 1) for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines() if "=" in l]:
    ENV[k] = v

def sh(cmd, cwd=R, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

def clean():
    sh("git checkout -- . && git clean -fdq")

DEMO = '''#!/bin/bash
# Runs demo_test.go inside the package (cwd: the repository).
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
printf '{"Replace": {"%s/{pkg}/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 280 go test {flags}-vet=off -count=1 -run TestDemo -overlay "$t/overlay.json" ./{pkg}
rc=$?
find "$t" -delete
exit $rc
'''

def original(diff_files):
    base = sh("git rev-list --max-parents=0 HEAD")[1].split()[-1]
    n = bad = 0
    for f in diff_files:
        removed = []
        for l in sh(f"git diff -U0 -- {f}")[1].splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                a, k = int(m[1]), int(m[2] or 1)
                removed += range(a, a + k)
        bl = {}
        for l in sh(f"git blame -s HEAD -- {f}")[1].splitlines():
            m = re.match(r"(\^?[0-9a-f]+)\s+(\d+)\)", l)
            if m: bl[int(m[2])] = m[1]
        for i in removed:
            n += 1
            if not bl.get(i, "").startswith("^"): bad += 1
    return n, bad

def make(id, b):
    clean()
    for f, old, new in b["edits"]:
        p = f"{R}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            clean(); return f"edit of {f}: pattern occurs {s.count(old)} times"
        open(p, "w").write(s.replace(old, new))
    files = sh("git diff --name-only")[1].split()
    n, bad = original(files)
    if n == 0 or bad:
        clean(); return f"changes {n} lines, {bad} of them not original"
    diff = sh("git diff")[1]
    rc, out = sh("go build ./...")
    if rc: clean(); return "does not build: " + out[-1500:]
    rc, out = sh("bash /opt/vp/test.sh /tmp/plant/out.json")
    o = json.load(open("/tmp/plant/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed")
    names = stable if isinstance(stable, list) else list(stable)
    missing = [t for t in names if t not in o.get("passed", [])]
    if missing: clean(); return f"tests fail: {missing[:5]}"
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo_test.go", "w").write(b["test"])
    open(d + "/demo.sh", "w").write(DEMO.replace("{pkg}", b["pkg"]).replace("{flags}", b.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc1, out1 = sh(f"bash {d}/demo.sh", timeout=300)
    clean()
    rc0, out0 = sh(f"bash {d}/demo.sh", timeout=300)
    if rc1 == 0 or rc0 != 0 or "build failed" in out1:
        return f"demo: patched {rc1}, clean {rc0}\n{out1[-1500:]}\n----\n{out0[-1500:]}"
    return None

def check(id):
    clean()
    m = json.load(open(f"{V}/seeded/{id}/meta.json"))
    rc, out = sh(f"git apply {V}/seeded/{id}/patch.diff")
    if rc: return id, m["property"], "does not apply"
    import time
    t = time.time()
    rc, out = sh(f"./run.sh {m['property']} quick", cwd=V)
    clean()
    w = [l for l in out.splitlines() if l.startswith("witness")]
    ok = rc == 1 and f"VIOLATION property={m['property']} " in out
    return f"{id:34} {m['property']} {'caught' if ok else 'MISSED rc=%d' % rc} {time.time()-t:.0f}s {w[0][:150] if w else out[-300:] if not ok else ''}"

if __name__ == "__main__":
    if sh("git status --porcelain")[1].strip(): sys.exit("/repo is not clean")
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("bugs", sys.argv[2]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
        for id, b in mod.BUGS.items():
            if sys.argv[3:] and id not in sys.argv[3:]: continue
            if not sys.argv[3:] and os.path.exists(f"{V}/seeded/{id}/ok"): continue
            e = make(id, b)
            if e:
                print(id, "NO:", e)
                if os.path.exists(f"{V}/seeded/{id}"): shutil.rmtree(f"{V}/seeded/{id}")
            else:
                print(id, "made")
    else:
        for id in sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")):
            print(check(id), flush=True)
