#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the specifications in tools/bugs/*.py.

mkbugs.py [ID...]   (all by default)
Each specification is edits of /repo's sources (file, old text, new text), a
demonstration and the description. Nothing in /repo is changed.
"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []


def bug(id, prop, edits, demo, needs, what, files=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what, files=files or {}))


for f in sorted(glob.glob(V + "/tools/bugs/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"bug": bug})
ids = [b["id"] for b in BUGS]
assert len(ids) == len(set(ids)), ids
want = sys.argv[1:]
for b in BUGS:
    if want and b["id"] not in want:
        continue
    if not want and any(e[0].endswith((".l", ".y")) for e in b["edits"]):
        continue  # the grammar does not count as source code there
    t = tempfile.mkdtemp(prefix="mkbug.")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % t, shell=True)
        subprocess.check_call(["git", "-C", t, "init", "-q"])
        subprocess.check_call(["git", "-C", t, "add", "-A"])
        subprocess.check_call(["git", "-C", t, "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"])
        for f, old, new in b["edits"]:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("FAILED %s: %s: %d matches of %r" % (b["id"], f, s.count(old), old))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            old = None
        if old is not None:
            continue
        diff = subprocess.check_output(["git", "-C", t, "diff"])
    finally:
        shutil.rmtree(t)
    d = V + "/seeded/" + b["id"]
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(V + "/tools/demokit", d)
    open(d + "/patch.diff", "wb").write(diff)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n. "$(dirname "$0")/kit.sh"\n' + b["demo"].lstrip("\n"))
        f.write('\necho "DEMO: fine"\nexit 0\n')
    os.chmod(d + "/demo.sh", 0o755)
    for n, s in b["files"].items():
        open(d + "/" + n, "w").write(s)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
              open(d + "/meta.json", "w"), indent=1)
    print("wrote", b["id"], len(diff))
