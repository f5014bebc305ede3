"""Helper for writing planted bugs: seed(id, prop, edits, needs, what, demo, files)
edits: list of (file, old, new). Writes /verif/seeded/<id>/."""
import os, subprocess, json, shutil, sys
W = "/tmp/sdw"
def base_lines(f):
    p = subprocess.run(["git", "-C", "/repo", "show", "0e28e35:" + f], stdout=subprocess.PIPE)
    return set(l.rstrip("\n") for l in p.stdout.decode(errors="replace").split("\n"))
def seed(id, prop, edits, needs, what, demo, files={}):
    if not os.path.exists(W + "/.git"):
        subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    subprocess.run("git fetch -q && git checkout -q . && git reset -q --hard origin/HEAD", shell=True, cwd=W, check=True)
    for f, old, new in edits:
        p = W + "/" + f
        s = open(p, encoding="latin-1").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w", encoding="latin-1").write(s.replace(old, new))
    d = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, check=True).stdout
    bl = {f: base_lines(f) for f, _, _ in edits}
    cur = None
    for l in d.decode("latin-1").split("\n"):
        if l.startswith("--- a/"): cur = l[6:]
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in bl[cur]:
            print("WARNING %s: not an original line: %s" % (id, l))
    o = "/verif/seeded/" + id
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(o + "/meta.json", "w"), indent=1)
    head = "#!/bin/bash\n# run in /repo after build.sh\nH=$(cd \"$(dirname \"$0\")\" && pwd)\nREPO=$PWD\nW=$(mktemp -d /tmp/demo-XXXXXX)\ntrap 'rm -rf \"$W\"' EXIT\ncd \"$W\"\nCJIT=\"$REPO/cjit\"\n"
    open(o + "/demo.sh", "w").write(head + demo.strip("\n") + "\n")
    os.chmod(o + "/demo.sh", 0o755)
    for k, v in files.items():
        open(o + "/" + k, "w").write(v)
