#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from /repo's history."""
import json, subprocess
M = {"3efb56a": "C07", "0e02370": "C07", "3d49fa7": "C08", "519f401": "C08", "8657db7": "C08", "e179cbc": "C08", "8b8810f": "C10", "4a067af": "C10",
     "4c25b3e": "C09", "3f95ad1": "C01", "87a39cb": "C13", "d480bc9": "C01", "d01fcf5": "C01", "29635e0": "C01", "c32bfdb": "C20", "82012ff": "C20",
     "5d18925": "C01", "8a81672": "C20", "c0e3147": "C13", "6382aa4": "C13", "1e03942": "C13", "d37491a": "C03", "14d9dd8": "C14", "0a78a3c": "C14",
     "2940f13": "C14", "b03df8c": "C14", "24b3fb9": "C17", "6ce54fc": "C15", "8a2af62": "C15", "138f345": "C15", "54d79e2": "C04", "866786c": "C11", "a48906c": "C11"}
NEW = {l.split("=")[0]: l.split("=")[1] for l in open("/verif/tools/fixed.txt").read().split()}
M.update(NEW)
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "ea2ef8e..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    d["fixed"].append(f"fixed: property={M[h]} {h} {s.removeprefix('fix: ')}")
json.dump(d, open(p, "w"), indent=1)
