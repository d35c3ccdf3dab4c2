#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md and seeded/*/meta.json (author's tool, no check uses it)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s: %s |" % (os.path.basename(os.path.dirname(m)), d["needs"].replace("|", "/"), d["property"], d.get("caught_by", "")))
t = "".join(open(p).read().rstrip("\n") + "\n\n" for p in sorted(glob.glob(V + "/tools/design/*.md")))
open(V + "/DESIGN.md", "w").write(t.replace("@@TABLE@@", "\n".join(rows)).rstrip("\n") + "\n")
