#!/usr/bin/env python3
"""Make one planted change:  mkbug.py SPEC.py
SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, n (parties), body (python of the demonstration), env (extra environment).
Writes /verif/seeded/<id>/ and verifies the demonstration on the unchanged tree and in a scratch copy with the change."""
import json
import os
import shutil
import subprocess
import sys

DEMO = r'''#!/bin/bash
# usage: cd <repo>; bash demo.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$PWD" PYTHONWARNINGS=ignore OMP_NUM_THREADS=1 GLOO_SOCKET_IFNAME=lo CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
export WORLD_SIZE=%(n)d DISTRIBUTED_BACKEND=gloo RENDEZVOUS="file://$T/rdv" SCRATCH="$T"
%(env)s
PIDS=()
for ((r=0; r<%(procs)d; r++)); do
  RANK=$r timeout 200 /opt/venv/bin/python "$D/demo.py" > "$T/out$r" 2>&1 &
  PIDS+=($!)
done
RC=0
for p in "${PIDS[@]}"; do wait "$p" || RC=1; done
if [ $RC != 0 ]; then grep -h -v Warning "$T"/out* | tail -15; fi
exit $RC
'''


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.environ.get("SEEDED", "/verif/seeded") + "/" + ns["id"]
    scr = "/tmp/w/scr_" + ns["id"]
    shutil.rmtree(scr, ignore_errors=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(["cp", "-a", "/repo", scr])
    for f, old, new in ns["edits"]:
        p = os.path.join(scr, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", scr, "diff"]).decode()
    assert diff
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(ns["body"].lstrip("\n"))
    n = ns.get("n", 2)
    env = "\n".join("export %s=%s" % kv for kv in ns.get("env", {}).items())
    open(d + "/demo.sh", "w").write(DEMO % {"n": n, "env": env, "procs": ns.get("procs", n)})
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    ok = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    bad = subprocess.run(["bash", d + "/demo.sh"], cwd=scr, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(ns["id"], "clean rc", ok.returncode, "patched rc", bad.returncode)
    if ok.returncode:
        print("CLEAN OUTPUT", ok.stdout.decode()[-1500:])
    print("  patched:", bad.stdout.decode()[-300:])
    if "--test" in sys.argv:
        R = scr + "_rep"
        shutil.rmtree(R, ignore_errors=True)
        os.makedirs(R)
        e = dict(os.environ, SCR=scr, PYTHONPATH=scr, PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 GLOO_SOCKET_IFNAME="lo", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1")
        subprocess.run(["/opt/venv/bin/python", "/tmp/w/run_tests.py", R, "-j", "5"], cwd=scr, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = {}
        for l in open(R + "/results.txt"):
            a = l.split()
            if len(a) >= 2:
                res[a[1]] = a[0]
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        print("  stable tests not passing:", [t for t in st if res.get(t) != "PASS"])
        shutil.rmtree(R, ignore_errors=True)
    if "--keep" not in sys.argv:
        shutil.rmtree(scr, ignore_errors=True)


main()
