#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl COUNT SEED WORKERS: applies single-place changes to copies of /repo; for each that
compiles and passes the tests, runs the checks of the part it changes, in copies of /verif, until one reports it
(development only)"""
import json, os, random, re, shutil, subprocess, sys, threading, time
src, out, count, seed, workers = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
DIV = os.environ.get("MUTATE_DIV", "6")
ENV = dict(os.environ)
for l in subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env"], text=True).splitlines():
    if "=" in l:
        k, v = l.split("=", 1); ENV[k] = v
ENV.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOMAXPROCS="3", VERIF_SEED="1")
P = lambda s: ["P%02d" % int(x) for x in s.split()]
PROPS = [
    ("bulletproofs/bip.go", P("35 40 6 7 8")),
    ("bulletproofs/bprp.go", P("9 3 16 17 7")),
    ("bulletproofs/util.go", P("40 31 18 6")),
    ("bulletproofs/vector.go", P("31 40")),
    ("bulletproofs/", P("40 6 7 34 8 1 16 15 20 39")),
    ("ccs08/", P("41 38 10 12 13 14 16 15")),
    ("crypto/bbs", P("27 16 17 38")),
    ("crypto/bn256/gfp", P("36 24 23 25")),
    ("crypto/bn256/", P("22 23 24 25 26")),
    ("crypto/p256/", P("19 20 26 21 7")),
    ("util/byte", P("28 29 18")),
    ("util/bn/", P("32 31 21")),
    ("util/util.go", P("30 21 18 41 10 12")),
    ("util/", P("29 28 34")),
]
ms = [json.loads(l) for l in open(src)]
done = {}
if os.path.exists(out):
    done = {(d["File"], d["Start"], d["End"], d["New"]) for d in map(json.loads, open(out))}
random.Random(seed).shuffle(ms)
todo = [m for m in ms if (m["File"], m["Start"], m["End"], m["New"]) not in done][:count]
lock = threading.Lock()
o = open(out, "a")
def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        s, _ = p.communicate(timeout=timeout)
        return p.returncode, s
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, "timeout"
def worker(k):
    T = f"/tmp/mw{k}"
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    subprocess.check_call(["cp", "-a", "/repo", T + "/repo"])
    subprocess.check_call(f"cd /verif && tar c --exclude=./.build --exclude=./.git --exclude=./seeded . | tar x -C {T} --one-top-level=verif", shell=True)
    # a part of the cases is enough to sort out what is easily found
    subprocess.check_call(f"sed -i 's#^run .area .label ||#run $area $label -div {DIV} ||#' run.sh", shell=True, cwd=T + "/verif")
    subprocess.check_call(f"sed -i 's#/repo#{T}/repo#' harness/go.mod tools/overlay.py harness/core/run.go", shell=True, cwd=T + "/verif")
    while True:
        with lock:
            if not todo: return
            m = todo.pop()
        p = f"{T}/repo/{m['File']}"
        s = open(p, "rb").read()
        open(p, "wb").write(s[:m["Start"]] + m["New"].encode() + s[m["End"]:])
        r = dict(m); r["old"] = s[m["Start"]:m["End"]].decode(); t0 = time.time()
        try:
            rc, _ = sh("go build ./...", T + "/repo", 120)
            if rc: r["result"] = "does not compile"; continue
            rc, _ = sh("go test -vet=off -count=1 -timeout 60s ./...", T + "/repo", 200)
            if rc: r["result"] = "tests"; continue
            r["result"] = "SURVIVED"; r["odd"] = []
            for q in next(v for f, v in PROPS if m["File"].startswith(f)):
                rc, log = sh(f"timeout 900 bash run.sh {q} quick", T + "/verif", 920)
                if rc == 1 and f"VIOLATION property={q}" in log:
                    r["result"] = q; break
                if rc: r["odd"].append([q, rc, log[-300:]])
        finally:
            open(p, "wb").write(s)
            r["s"] = round(time.time() - t0)
            with lock:
                o.write(json.dumps(r) + "\n"); o.flush()
ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
for k in range(workers): shutil.rmtree(f"/tmp/mw{k}", ignore_errors=True)
