#!/usr/bin/env python3
"""origlines.py: planted changes that alter no line of the original repository"""
import re, subprocess, glob, os
REPO = "/repo"
fixes = set(subprocess.run(["git", "-C", REPO, "log", "--format=%H", "ca28a44..HEAD"], capture_output=True, text=True).stdout.split())
cache = {}
def blame(f):
    if f not in cache:
        out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "--root", f], capture_output=True, text=True).stdout
        cache[f] = [l.split()[0].lstrip("^") for l in out.splitlines()]
    return cache[f]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, n, good, minus = None, 0, 0, 0
    for l in open(p, errors="replace"):
        l = l.rstrip("\n")
        if l.startswith("--- "): f = l[6:] if l.startswith("--- a/") else None
        elif l.startswith("+++ "): pass
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and f:
            minus += 1
            if not any(blame(f)[n - 1] in x for x in fixes) and l[1:].strip() and not l[1:].strip().startswith("//"): good += 1
            n += 1
        elif l.startswith(" "): n += 1
    if minus and not good: print(os.path.basename(os.path.dirname(p)))
