#!/usr/bin/env python3
"""Adds the repairs committed in /repo to known-findings.txt: findings.py COMMIT=PROPERTY ... (run by hand only; checks never write the file)."""
import subprocess, sys
log = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
have = open("/verif/known-findings.txt").read() if __import__("os").path.exists("/verif/known-findings.txt") else ""
with open("/verif/known-findings.txt", "a") as f:
    if not have:
        f.write("# Genuine defects of abrt/satyr. 'fixed:' entries are repaired by a commit in /repo and suppress nothing.\n")
    for a in sys.argv[1:]:
        c, p = a.split("=")
        if c not in have:
            f.write("fixed: property=%s %s %s\n" % (p, c, log[c].split(": ", 1)[1]))
