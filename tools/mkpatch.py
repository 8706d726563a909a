#!/usr/bin/env python3
"""mkpatch.py ID FILE OLD NEW [FILE OLD NEW ...]   write seeded/ID/patch.diff replacing OLD by NEW (each occurring once)"""
import subprocess, sys, os
i, rest = sys.argv[1], sys.argv[2:]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout.strip()
try:
    for f, a, b in zip(rest[::3], rest[1::3], rest[2::3]):
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    subprocess.run(["/opt/veriftools/go1.24.13/bin/gofmt", "-l", "/repo/" + f])
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    open("/verif/seeded/%s/patch.diff" % i, "w").write(d)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
