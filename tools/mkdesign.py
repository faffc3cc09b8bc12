#!/usr/bin/env python3
"""mkdesign.py HEAD PROPS TAIL: puts DESIGN.md together; the table of planted bugs comes from seeded/."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = "".join(open(p).read().rstrip() + "\n\n" for p in sys.argv[1:])
out += "| planted change | needs | breaks | caught by |\n|---|---|---|---|\n"
missed = set(json.load(open(V + "/tools/missed.json")))
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    out += f"| {d} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {'not caught' if d in missed else m['property'] + ' quick'} |\n"
open(V + "/DESIGN.md", "w").write(out)
