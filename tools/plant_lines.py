#!/usr/bin/env python3
"""Development only: says which planted bugs change lines that the original repository did not have, or none."""
import os, re, subprocess
for id in sorted(os.listdir("/verif/seeded")):
    p = open("/verif/seeded/%s/patch.diff" % id).read()
    base = set()
    for f in re.findall(r"^--- a/(.*)", p, re.M):
        base |= set(subprocess.run("git -C /repo show a1afcf5:" + f, shell=True, stdout=subprocess.PIPE).stdout.decode().split("\n"))
    gone = [l[1:] for l in p.split("\n") if l.startswith("-") and not l.startswith("---") and len(l.strip()) > 4]
    own = [l for l in gone if l not in base]
    if not gone or own:
        print(id, own or "changes no line")
