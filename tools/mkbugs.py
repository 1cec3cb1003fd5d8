"""Rewrites the table of planted bugs at the end of DESIGN.md.

mkbugs.py OUT...: the outputs of the checks run against each bug, named
cm-<bug>-<check>.out.
"""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    meta = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    hits = {}
    for f in glob.glob("/tmp/cm-%s-*.out" % b):
        t = open(f, errors="replace").read()
        m = re.search(r"VIOLATION property=(\w+)", t)
        if m:
            k = re.search(r"kind=([^\n]*)", t)
            hits[m.group(1)] = k.group(1).strip() if k else ""
    own = meta["property"]
    by = [own] if own in hits else []
    by += sorted(h for h in hits if h != own)
    rows.append("| %s | %s | %s | %s |" % (
        b, ", ".join(by) or "missed", hits.get(own, "")[:40].replace("|", "/"),
        " ".join(meta["needs"].split())[:110].replace("|", "/")))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
head = "| bug | caught by | reported as | needs |\n|---|---|---|---|\n"
mark = "## Planted bugs"
pre, post = s[:s.index(mark)], s[s.index(mark):]
text = post.split("| bug |")[0].rstrip("\n") + "\n\n"
open(p, "w").write(pre + text + head + "\n".join(rows) + "\n")
print(len(rows), "bugs,", sum("missed" in r for r in rows), "missed")
