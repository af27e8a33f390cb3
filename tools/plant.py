#!/usr/bin/env python3
"""Plants the bugs described in tools/plants/*.py: writes /verif/seeded/<id>/, verifies in a scratch copy of /repo that the change
builds, passes the stable tests and fails its demonstration, and runs the property's check against it.
usage: plant.py [--nocheck] [--notest] id-prefix...   (a demo is a C++17 program; exit 0 = behaves)"""
import sys, os, json, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PD = os.path.join(V, "tools", "plants"); L = {}
def plant(id, needs, breaks, edits, demo, std="17", prop=None): L[id] = dict(id=id, prop=prop or id[:3], needs=needs, breaks=breaks, edits=edits, demo=demo, std=std)
for f in sorted(os.listdir(PD)):
    if f.endswith(".py"): exec(open(os.path.join(PD, f)).read())
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3
g++ -std=c++%s -O0 -w -ftemplate-depth=2048 -I"$PWD" "$here/demo.cpp" -o "$t/demo" && timeout 60 "$t/demo"; rc=$?
rm -rf -- "$t"; exit $rc
'''
def run(cmd, cwd=None, t=900, env=None):
    try: p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=env); return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired: return -1, "timeout"
def one(p):
    c = "/tmp/plant_" + p["id"]; out = []
    shutil.rmtree(c, ignore_errors=True); subprocess.check_call(["cp", "-a", "/repo", c])
    try:
        d = os.path.join(V, "seeded", p["id"]); os.makedirs(d, exist_ok=True)
        demo = p["demo"]
        if "int main" not in demo:
            inc, body = [], []
            for l in demo.strip().split("\n"): (inc if l.startswith("#include") else body).append(l)
            demo = "\n".join(inc) + "\n" + "\n".join(body)
        open(d + "/demo.cpp", "w").write(demo.strip() + "\n"); open(d + "/demo.sh", "w").write(SH % p["std"]); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0, o0 = run(["bash", d + "/demo.sh"], cwd=c, t=300)
        for f, a, b in p["edits"]:
            s = open(c + "/" + f, newline="").read()
            if "\r\n" in s: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
            if s.count(a) != 1: return p["id"], "EDIT FAILED: %s matches %d in %s" % (a[:50], s.count(a), f)
            open(c + "/" + f, "w", newline="").write(s.replace(a, b))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE).stdout)
        r1, o1 = run(["bash", d + "/demo.sh"], cwd=c, t=300)
        out.append("demo %d->%d" % (r0, r1)); bad = r0 != 0 or r1 == 0
        if r0: out.append(o0[-300:])
        if "error:" in o1: out.append("DEMO DOES NOT COMPILE with patch: " + o1[:300]); bad = True
        if "--notest" not in sys.argv:
            rc, o = run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd / && bash /opt/vp/build.sh >/dev/null 2>&1; echo BUILD $?; bash /opt/vp/test.sh %s/t.json > /dev/null 2>&1" % (c, c)], t=900)
            try:
                t = json.load(open(c + "/t.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); f = st - set(t["passed"])
                out.append("tests fail %d %s" % (len(f), sorted(f)[:3])); bad |= bool(f) or "BUILD 0" not in o
                if "BUILD 0" not in o: out.append("BUILD FAILED")
            except Exception as e: out.append("NO TESTS " + str(e) + o[-200:]); bad = True
        if "--nocheck" not in sys.argv:
            rc, o = run(["python3", V + "/vp.py", "check", p["prop"], "--tier", "quick"], t=1000, env=dict(os.environ, VP_REPO=c))
            v = [l for l in o.split("\n") if l.startswith("VIOLATION") or l.startswith("  h_")]
            out.append("CAUGHT" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-600:])); out += [l[:220] for l in v if not l.startswith("VIOLATION")][:2]
        return p["id"], ("BAD " if bad else "OK  ") + "; ".join(out)
    finally: shutil.rmtree(c, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
sel = [p for p in L.values() if not ids or any(p["id"].startswith(i) for i in ids)]
with ThreadPoolExecutor(3) as ex:
    for i, r in ex.map(one, sel):
        print(i, r, flush=True)
        if "--nocheck" not in sys.argv:
            rf = os.path.join(V, "tools", "plant_results.json"); R = json.load(open(rf)) if os.path.exists(rf) else {}
            R[i] = {"caught": "CAUGHT" in r, "by": [x.strip().split(":")[0] for x in r.split("; ") if x.strip().startswith("h_")]}
            json.dump(R, open(rf, "w"), indent=1, sort_keys=True)
