#!/usr/bin/env python3
"""Rewrites the `fixed:` lines of known_findings.txt from the fix: commits of /repo (property ids below)."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for l in open(os.path.join(V, "bin", "fix_props.txt")):
    l = l.rstrip("\n")
    if l:
        k, v = l.split(" ", 1)
        PROP[v] = k
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
p = os.path.join(V, "known_findings.txt")
keep = [l for l in (open(p).read().splitlines() if os.path.exists(p) else []) if not l.startswith("fixed:")]
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        w = s[5:]
        assert w in PROP, w
        keep.append("fixed: property=%s %s %s" % (PROP[w], h, w))
open(p, "w").write("\n".join(keep) + "\n")
