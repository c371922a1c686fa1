#!/usr/bin/env python3
"""demonstration by simulation: builds the simulator beside this file against the repository in the current
directory and runs seeds until one breaks the property (exit 1) or all are done (exit 0)"""
import sys, os, json, subprocess, tempfile, shutil, tarfile, concurrent.futures, time
D = os.path.dirname(os.path.abspath(__file__))
spec = json.load(open(os.path.join(D, "demo.json")))
tmp = tempfile.mkdtemp(prefix="demo.")
ENV = dict(os.environ, GOMAXPROCS="1", GOGC="off", GODEBUG="asyncpreemptoff=1")
try:
    tarfile.open(os.path.join(D, "kit.tgz")).extractall(tmp, filter="data")
    p = subprocess.run(["bash", tmp + "/tools/build.sh", tmp + "/b", spec.get("target", "sim")], env=dict(os.environ, VERIF_REPO=os.getcwd()), capture_output=True, text=True)
    if p.returncode:
        print(p.stdout[-2000:], p.stderr[-3000:]); sys.exit(4)
    def one(job):
        gen, seed = job
        o = "%s/%s-%d.json" % (tmp, gen.replace("/", "-"), seed)
        try:
            p = subprocess.run([tmp + "/b/bin/" + spec.get("target", "sim"), "-gen", gen, "-seed", str(seed), "-o", o], env=ENV, capture_output=True, timeout=100, cwd=tmp)
            r = json.load(open(o)) if p.returncode == 0 else None
        except (subprocess.TimeoutExpired, OSError, ValueError):
            r = None
        if os.path.exists(o): os.unlink(o)
        if r is None:
            return "%s seed %d: the process died" % job if spec.get("crash") else None
        for v in r["violations"]:
            if v["prop"] == spec["property"] and not v["sig"].startswith("zombie:") and not v["sig"].startswith("blocked:"):
                return "%s seed %d: %s %s: %s" % (gen, seed, v["prop"], v["sig"], v["detail"])
        return None
    jobs = [(s["gen"], i) for s in spec["seeds"] for i in range(s["from"], s["to"])]
    end = time.time() + 200
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in concurrent.futures.as_completed([ex.submit(lambda j: one(j) if time.time() < end else None, j) for j in jobs]):
            if f.result():
                end = 0
                print("BROKEN", f.result())
                sys.exit(1)
    print("ok: %d simulated runs" % len(jobs))
finally:
    shutil.rmtree(tmp, ignore_errors=True)
