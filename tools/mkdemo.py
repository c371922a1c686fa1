#!/usr/bin/env python3
"""mkdemo.py DIR PROPERTY GEN:FROM-TO ...   writes the simulation demonstration of a planted bug into DIR"""
import sys, os, json, tarfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d, prop = sys.argv[1:3]
seeds, crash, target = [], False, "sim"
for a in sys.argv[3:]:
    if a == "crash": crash = True; continue
    if a.startswith("msk/"): target = "msk"
    g, r = a.split(":"); lo, hi = r.split("-")
    seeds.append({"gen": g, "from": int(lo), "to": int(hi)})
os.makedirs(d, exist_ok=True)
def flt(t):
    t.mtime = 0; t.uid = t.gid = 0; t.uname = t.gname = ""
    return None if "__pycache__" in t.name else t
import gzip, io
raw = io.BytesIO()
with tarfile.open(fileobj=raw, mode="w") as tf:
    for x in ["rt", "instr", "deps", "tools/build.sh", "sim"] + (["simmsk"] if os.path.exists(V + "/simmsk") else []):
        tf.add(os.path.join(V, x), x, filter=flt)
with open(d + "/kit.tgz", "wb") as f:
    with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as g: g.write(raw.getvalue())
json.dump({"property": prop, "target": target, "crash": crash, "seeds": seeds}, open(d + "/demo.json", "w"))
shutil.copy(V + "/tools/kit/demo.py", d + "/demo.py")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
