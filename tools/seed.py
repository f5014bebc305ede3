#!/usr/bin/env python3
"""Try planted bugs: seed.py [--no-tests] [--all-checks] [--seeds 1,2] ID...
Each runs in a private mount namespace, on a copy of /repo bound over /repo,
with a private /tmp."""
import sys, os, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = "/verif"
args = sys.argv[1:]
no_tests = "--no-tests" in args
seeds = "1"
if "--seeds" in args:
    i = args.index("--seeds"); seeds = args[i + 1]; del args[i:i + 2]
jobs = 4
if "-j" in args:
    i = args.index("-j"); jobs = int(args[i + 1]); del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")]
base = "/tmp/sd"
os.makedirs(base, exist_ok=True)
SCR = r'''
mount --bind "$1" /repo || exit 90
mount --bind "$3" /opt/vp 2>/dev/null
mount -t tmpfs tmpfs /tmp || exit 91
cp -a "$2" /tmp/demo; rm -f /tmp/demo/patch.diff /tmp/demo/meta.json
cd /repo
if [ "$4" = base ]; then
  timeout 300 bash /tmp/demo/demo.sh >/tmp/demo.log 2>&1; r=$?; [ $r = 0 ] || tail -5 /tmp/demo.log; echo "basedemo=$r"; exit 0
fi
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; echo "build=fail"; exit 0; }
timeout 300 bash /tmp/demo/demo.sh >/tmp/demo.log 2>&1; r=$?; echo "demo=$r"; tail -3 /tmp/demo.log
if [ "$5" = tests ]; then
  bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
  python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
s=b.get('passed') or b.get('stable') or b.get('tests') or b
s=[x if isinstance(x,str) else x.get('id',x.get('name')) for x in s]
miss=[t for t in s if t not in set(o['passed'])]
print('tests=%d missing=%s'%(len(o['passed']),miss[:5]))
PY
fi
for s in $(echo $7|tr , ' '); do
VERIF_SEED=$s VERIF_TIER=quick timeout 900 python3 /verif/checks/run.py $6 >/tmp/c.log 2>&1; echo "check[$6,$s]=$?"; grep -A2 -m1 ^VIOLATION /tmp/c.log | cut -c1-400
grep -m1 -A5 ERROR /tmp/c.log | cut -c1-300
done
'''
def one(i):
    d = V + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    w = base + "/" + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    vp = base + "/vp-" + i
    shutil.rmtree(vp, ignore_errors=True)
    subprocess.run(["cp", "-a", "/opt/vp", vp], check=True)
    def ns(mode):
        p = subprocess.run(["unshare", "-Urm", "bash", "-c", SCR, "x", w, d, vp, mode, "no" if no_tests else "tests", m["property"], seeds],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        return p.stdout.decode(errors="replace").strip()
    out = [ns("base")]
    p = subprocess.run(["git", "-C", w, "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        out.append("APPLY FAILED " + p.stdout.decode())
    else:
        out.append(ns("patched"))
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(vp, ignore_errors=True)
    print("== %s (%s)\n%s" % (i, m["property"], "\n".join(out)), flush=True)
with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
