#!/usr/bin/env python3
"""sweep.py BIN GEN FROM TO  - run seeds in parallel, summarise violations (development aid)"""
import sys, json, subprocess, os, collections, concurrent.futures as cf, tempfile, time
binp, gen, a, b = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
tmp = tempfile.mkdtemp(prefix="sweep")
env = dict(os.environ, GOMAXPROCS="1", GOGC="off", GODEBUG="asyncpreemptoff=1")
def one(s):
    o = f"{tmp}/{s}.json"
    try:
        p = subprocess.run([binp, "-gen", gen, "-seed", str(s), "-o", o], env=env, capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return s, None, "timeout"
    if p.returncode != 0 or not os.path.exists(o):
        return s, None, (p.stdout+p.stderr).replace(b"\0", b"").decode("latin1")[-1500:]
    r = json.load(open(o)); os.unlink(o)
    return s, r, None
t = time.time()
v = collections.defaultdict(list); counts = collections.Counter(); props = collections.Counter(); errs = []; faults = collections.Counter(); sim=0
with cf.ThreadPoolExecutor(8) as ex:
    for s, r, e in ex.map(one, range(a, b)):
        if r is None: errs.append((s, e)); continue
        sim += r["sim_ns"]
        counts.update(r["counts"]); props.update(r["props"]); faults.update(r["faults"])
        for x in {(x["prop"], x["sig"]): x for x in reversed(r["violations"])}.values():
            v[(x["prop"], x["sig"])].append((s, x["detail"]))
el = time.time() - t
print(f"{b-a} runs {el:.1f}s  {(b-a)/el*3600:.0f}/h  sim {sim/1e9:.0f}s")
print("counts", dict(counts)); print("props", dict(sorted(props.items()))); print("faults", dict(faults))
for k in sorted(v):
    print(k, len(v[k]), "seeds", [s for s, _ in v[k][:8]]); print("    ", v[k][0][1][:400])
print("errors", len(errs))
for s, e in errs[:3]: print(s, e)
