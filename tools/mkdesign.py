#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, known_findings.json, tools/seeded.json and `mc parts`."""
import json, os, subprocess, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(root + "/tools/design_head.md").read()
k = json.load(open(root + "/known_findings.json"))
head = head.replace("@@FIXED@@", "\n".join("* " + x for x in k["fixed"]))
head = head.replace("@@FINDINGS@@", "\n".join("* %s `%s`: %s%s" % (f["property"], f["key"], f["what"], " (code points " + f["runes"] + ")" if f.get("runes") else "") for f in k["findings"]))
rows = []
sp = root + "/tools/seeded.json"
if os.path.exists(sp):
    for x in json.load(open(sp)):
        rows.append("| %s | %s | %s | %s |" % (x["id"], x["property"], x["what"].replace("|", "\\|"), ", ".join(x["caught_by"])))
head = head.replace("@@SEEDED@@", "| id | property | change | caught by (quick) |\n|---|---|---|---|\n" + "\n".join(rows))
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(["bash", root + "/run.sh", "build", t + "/mc"])
    head += subprocess.check_output([t + "/mc", "parts"], text=True)
open(root + "/DESIGN.md", "w").write(head)
