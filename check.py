#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds N] [--runs N]   decides one property by simulation
check.py replay FILE                                          reproduces a recorded violation
check.py build OUT                                            only builds the simulator binaries

Every check builds the simulator from /repo's working tree, runs seeds in parallel (one process per
simulated run), confirms a violation by running its plan again, minimises it, writes the replay file
and verifies that replaying it in a fresh process reproduces the violation with the same trace hash."""
import resource, sys, os, json, subprocess, time, tempfile, shutil, collections, threading, queue, fnmatch, copy, zlib

V = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, GOMAXPROCS="1", GOGC="off", GODEBUG="asyncpreemptoff=1", GOTRACEBACK="all")
NPROC = max(1, min(16, os.cpu_count() or 4))
RUN_TIMEOUT = 120
TARGETS = ["sim"]
NOTES = {}

# profiles each property is decided with, and their share of the runs
PROFILES = {
    "C01": ["es/" + p for p in ["net", "crash", "txn", "stop", "async", "load", "pool", "rebal", "broker", "long", "mix", "mix"]],
    "C02": ["es/" + p for p in ["net", "crash", "rebal", "stop", "txn", "boot", "broker", "load", "pool", "long", "mix", "mix"]],
    "C03": ["es/" + p for p in ["pool", "pool", "load", "async", "net", "crash", "broker", "mix", "ij"]],
    "C04": ["es/" + p for p in ["crash", "crash", "rebal", "boot", "net", "stop", "broker", "store", "long", "mix"]],
    "C05": ["es/" + p for p in ["rebal", "stop", "net", "crash", "load", "pool", "async", "txn", "long", "mix"]],
    "C06": ["es/" + p for p in ["mix", "mix", "net", "broker", "load", "async", "ij", "stop", "crash", "boot", "metrics", "rebal", "deep", "deep", "long"]],
    "C07": ["es/" + p for p in ["stop", "stop", "txn", "ij", "mix", "async", "metrics", "boot", "rebal", "balance"]],
    "C08": ["es/" + p for p in ["txn", "txn", "txn", "mix", "broker", "long", "long"]],
    "C09": ["es/" + p for p in ["load", "load", "pool", "ij", "basic", "async", "deep", "mix"]],
    "C10": ["es/" + p for p in ["ij", "ij", "ij", "stop", "mix"]],
    "C12": ["es/" + p for p in ["metrics", "metrics", "metrics", "stop", "load", "pool", "mix"]],
    "C13": ["es/" + p for p in ["rebal", "rebal", "rebal", "balance", "stop", "crash", "metrics", "mix"]],
    "C11": ["es/" + p for p in ["basic", "load", "pool", "async", "net", "crash", "stop", "rebal", "mix"]],
    "C14": ["async/sched", "async/dyn", "async/halt"],
    "C15": ["async/dyn", "async/sched", "async/halt"],
    "C16": ["async/batch"],
    "C17": ["prod/net", "prod/net", "prod/batch", "prod/calm"],
    "C19": ["topics/lossy", "topics/mix", "topics/mix", "topics/soft", "topics/calm"],
    "C20": ["msk/creds", "msk/mix", "msk/control", "msk/net", "msk/calm"],
    "C21": ["es/store"],
    "C18": ["gcl/mix", "gcl/mix", "gcl/pause", "gcl/calm"],
}
SECONDS = {"quick": 60, "thorough": 1500}
# a run that ends without a result (the process died, or spins without ever yielding) violates these
CRASH_PROPS = {"es": ["C06", "C07"], "async": ["C14", "C15", "C16"], "prod": ["C17"], "gcl": ["C18"], "topics": ["C19"], "msk": ["C20"]}

_ENV = ["network, DNS and clocks: simulated", "Go scheduler: the real runtime with seeded run-queue decisions, preemption and virtual time (rt)"]
_BROKERS = "Kafka brokers, group and transaction coordinators: simulated at the wire protocol (sim/simk)"
_KGO = "franz-go v1.8.0 client (six upstream defects repaired, see DESIGN.md)"
_RT = "Go runtime, channels, mutexes, timers"
# what runs for real, and what is a stand-in, per scenario
COMPONENTS = {
    "es": (["all of /repo/streams (instrumented with yield points only)", _KGO, _RT], [_BROKERS, "event, deserialization, interjection and metrics handlers, state store: the harness's, observing"] + _ENV),
    "async": (["streams.AsyncJobScheduler, AsyncBatcher and what they use (instrumented with yield points only)", _RT],
              ["partition worker: the harness's callers and completers", "job processor, finalizer, batch executor: the harness's, observing"] + _ENV[1:]),
    "prod": (["streams.Producer, BatchProducer, Record (instrumented with yield points only)", _KGO, _RT], [_BROKERS, "partition worker behind ProduceAsync contexts: the harness's completer"] + _ENV),
    "topics": (["streams.CreateSource, CreateDestination, NewClient (instrumented with yield points only)", "franz-go kadm v1.2.1", _KGO, _RT], [_BROKERS] + _ENV),
    "msk": (["msk.MskCluster, streams.NewClient (instrumented with yield points only)", "AWS SDK for Go v2 (signing, retries, paging, credential cache)", "franz-go v1.8.0 client with its AWS_MSK_IAM and SCRAM logins", _RT],
            [_BROKERS + ", with TLS and SASL listeners which judge what is presented (connections are not encrypted)", "MSK control plane (HTTP) and credential provider: simulated"] + _ENV),
    "gcl": (["streams.GlobalChangeLog, NewClient, IncomingRecord (instrumented with yield points only)", _KGO, _RT], [_BROKERS, "change log receiver: the harness's, observing", "producers: records and transactions written at the brokers"] + _ENV),
}


def components(gens):
    r, t = [], []
    for sc in sorted({g.split("/")[0] for g in gens}):
        a, b = COMPONENTS[sc]
        r += [x for x in a if x not in r]
        t += [x for x in b if x not in t]
    return {"components_real": r, "components_stub": t}


def log(*a):
    print(*a, flush=True)


def build(out, targets):
    t = time.time()
    p = subprocess.run([os.path.join(V, "tools/build.sh"), out] + targets, capture_output=True, text=True)
    if p.returncode != 0:
        log(p.stdout[-3000:], p.stderr[-6000:])
        log("ERROR: the simulator does not build")
        sys.exit(3)
    return time.time() - t


class Sim:
    def __init__(self, tmp):
        self.tmp, self.n, self.mu = tmp, 0, threading.Lock()
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))  # a runaway run must not take the sandbox with it

    def bin(self, gen):
        return os.path.join(self.tmp, "b/bin", "msk" if gen.startswith("msk/") else "sim")

    def file(self, ext=".json"):
        with self.mu:
            self.n += 1
            return os.path.join(self.tmp, "r%d%s" % (self.n, ext))

    def run(self, gen=None, seed=None, plan=None, trace=None, saveplan=None, timeout=RUN_TIMEOUT):
        o = self.file()
        if plan is not None:
            pf = self.file()
            json.dump(plan, open(pf, "w"))
            cmd = [self.bin(plan["scenario"] + "/"), "-plan", pf]
        else:
            cmd = [self.bin(gen), "-gen", gen, "-seed", str(seed)]
        if trace: cmd += ["-trace", trace]
        if saveplan: cmd += ["-saveplan", saveplan]
        cmd += ["-o", o]
        try:
            p = subprocess.run(cmd, env=ENV, capture_output=True, timeout=timeout, cwd=self.tmp)
            rc, txt = p.returncode, (p.stdout + p.stderr).replace(b"\0", b"").decode("latin1")
        except subprocess.TimeoutExpired:
            rc, txt = -1, "no result after %d s of real time" % timeout
        r = None
        if os.path.exists(o):
            if rc == 0:
                try: r = json.load(open(o))
                except ValueError: pass
            os.unlink(o)
        if plan is not None:
            os.unlink(pf)
        if r is None:
            r = {"crash": crash_sig(rc, txt), "text": txt[:4000], "violations": [], "hash": "crash"}
            sc = (gen or plan["scenario"]).split("/")[0]
            for pr in CRASH_PROPS.get(sc, []) if sc in CRASH_PROPS else [sc_prop(gen or plan["scenario"] + "/" + plan.get("profile", ""))]:
                r["violations"].append({"prop": pr, "sig": r["crash"], "detail": "the process died: " + txt[:600], "at_us": 0})
        return r

    def plan(self, gen, seed):
        f = self.file()
        subprocess.run([self.bin(gen), "-gen", gen, "-seed", str(seed), "-planonly", "-saveplan", f], env=ENV, check=True, capture_output=True)
        p = json.load(open(f)); os.unlink(f)
        return p


def sc_prop(gen):
    for p, gs in PROFILES.items():
        if gen in gs: return p
    return "C07"


def crash_sig(rc, txt):
    for l in txt.splitlines():
        if l.startswith("fatal error:") or l.startswith("panic:"):
            return "process:" + l[:70]
    return "process:exit %d" % rc if rc >= 0 else "process:hang"


def known(prop):
    """lines "known: property=<id> sig=<pattern> replay=<file> :: <what fails>"; "fixed:" lines suppress nothing"""
    out = []
    for l in open(os.path.join(V, "known-findings.txt")):
        if l.startswith("known:"):
            head, what = l[6:].split("::", 1)
            e = dict(x.split("=", 1) for x in head.split())
            e["what"] = what.strip()
            if e["property"] == prop: out.append(e)
    return out


def hits(r, prop, ks):
    """violations of prop in a result, without the known ones"""
    new, old = [], []
    for v in r["violations"]:
        if v["prop"] != prop: continue
        if any(fnmatch.fnmatchcase(v["sig"], k["sig"]) for k in ks): old.append(v)
        else: new.append(v)
    return new, old


def has(r, prop, sig):
    return any(v["prop"] == prop and v["sig"] == sig for v in r["violations"])


def minimise(sim, plan, prop, sig, seconds):
    """ddmin over operations, then over the schedule's deviations; keeps the same violation signature"""
    end = time.time() + seconds
    tried = 0

    def par(cands):
        """first candidate (in order) that still fails; candidates are tried in parallel"""
        nonlocal tried
        for i in range(0, len(cands), NPROC):
            if time.time() > end: return None
            grp = cands[i:i + NPROC]
            res = [None] * len(grp)
            def one(j):
                res[j] = has(sim.run(plan=grp[j], timeout=60), prop, sig)
            ts = [threading.Thread(target=one, args=(j,)) for j in range(len(grp))]
            [t.start() for t in ts]; [t.join() for t in ts]
            tried += len(grp)
            for j, ok in enumerate(res):
                if ok: return grp[j]
        return None

    def ddmin(cur, get, put):
        items, n = get(cur), 2
        while len(items) >= 1 and time.time() < end:
            size = max(1, -(-len(items) // n))
            cands = []
            for i in range(0, len(items), size):
                c = copy.deepcopy(cur)
                put(c, items[:i] + items[i + size:])
                cands.append(c)
            got = par(cands)
            if got is not None:
                cur, items, n = got, get(got), max(2, n - 1)
            else:
                if size == 1: break
                n = min(len(items), n * 2)
        return cur

    cur = plan
    # is scheduling noise needed at all?
    c = copy.deepcopy(cur); c["sched"].update({"pick": 0, "yield": 0, "delay": 0, "hot_mod": 0})
    got = par([c])
    if got: cur = got
    cur = ddmin(cur, lambda p: p["ops"] or [], lambda p, x: p.__setitem__("ops", x))
    for k in [{"hot_mod": 0}, {"pick": 0, "yield": 0, "delay": 0}]:
        if any(cur["sched"].get(x) for x in k):
            c = copy.deepcopy(cur); c["sched"].update(k)
            if par([c]):
                cur = c
    if any(cur["sched"].get(x) for x in ("pick", "yield", "delay", "hot_mod")) and time.time() < end:
        r = sim.run(plan=cur)
        n = r.get("decisions", 0)
        iv = [[i * n // 16, (i + 1) * n // 16] for i in range(16)]
        iv[-1][1] = 1 << 60
        c = copy.deepcopy(cur); c["sched"]["intervals"] = iv
        if par([c]):
            cur = c
            for _ in range(3):
                cur = ddmin(cur, lambda p: p["sched"].get("intervals") or [], lambda p, x: p["sched"].__setitem__("intervals", x))
                ivs, nxt = cur["sched"]["intervals"], []
                for a, b in ivs:
                    b2 = min(b, n)
                    m = (a + b2) // 2
                    nxt += [[a, m], [m, b]] if b2 - a > 1 else [[a, b]]
                if len(nxt) == len(ivs) or time.time() > end: break
                cur = copy.deepcopy(cur); cur["sched"]["intervals"] = nxt
    return cur, tried


def report(sim, prop, gen, seed, v, seconds):
    plan = sim.plan(gen, seed)
    r1, r2 = sim.run(plan=plan), sim.run(plan=plan)
    if not has(r1, prop, v["sig"]) or r1["hash"] != r2["hash"]:
        return None
    if v["sig"].startswith("blocked:"):
        c = copy.deepcopy(plan); c["knobs"]["metrics"] = 1
        if any(x["prop"] in ("C06", "C07", "C09") and not x["sig"].startswith("zombie:") for x in sim.run(plan=c)["violations"]):
            return None  # it stalls with a fast handler as well
    small, tried = minimise(sim, plan, prop, v["sig"], seconds)
    tf = sim.file(".txt")
    r = sim.run(plan=small, trace=tf)
    r3 = sim.run(plan=small)
    if not has(r, prop, v["sig"]) or r3["hash"] != r["hash"]:
        small = plan
        r = sim.run(plan=small, trace=tf)
    vv = [x for x in r["violations"] if x["prop"] == prop and x["sig"] == v["sig"]][0]
    lines = open(tf, errors="replace").read().splitlines() if os.path.exists(tf) else r.get("text", "").splitlines()
    at = next((i for i, l in enumerate(lines) if "VIOLATION " + prop in l), len(lines))
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, gen.replace("/", "_"), seed))
    json.dump({"property": prop, "signature": v["sig"], "detail": vv["detail"], "gen": gen, "seed": seed, "hash": r["hash"],
               "ops_before": len(plan["ops"] or []), "ops_after": len(small["ops"] or []), "runs_to_minimise": tried,
               "plan": small, "fault_and_schedule_trace": lines[max(0, at - 400):at + 3]}, open(path, "w"), indent=1)
    # the replay file must reproduce it in a fresh process
    rr = sim.run(plan=json.load(open(path))["plan"])
    if not has(rr, prop, v["sig"]):
        return None
    return path, vv, rr["hash"] == r["hash"]


def replay(path):
    f = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        build(os.path.join(tmp, "b"), ["msk" if f["gen"].startswith("msk/") else "sim"])
        sim = Sim(tmp)
        tf = os.path.join(tmp, "trace.txt")
        r = sim.run(plan=f["plan"], trace=tf)
        if os.path.exists(tf): log(open(tf, errors="replace").read()[-20000:])
        ok = has(r, f["property"], f["signature"])
        log("hash %s (recorded %s)" % (r["hash"], f.get("hash")))
        for v in r["violations"]: log("  %s %s: %s" % (v["prop"], v["sig"], v["detail"]))
        if ok:
            log("VIOLATION property=%s replay=%s" % (f["property"], path))
            return 1
        log("not reproduced on this tree")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seconds, maxruns):
    t0 = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    gens = PROFILES[prop]
    ks = known(prop)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        bt = build(os.path.join(tmp, "b"), sorted({"msk" if g.startswith("msk/") else "sim" for g in gens}))
        sim = Sim(tmp)
        base = (seed0 * 1000003 + zlib.crc32(prop.encode()) % 1000) * 1000000 % (1 << 62)
        # one seed is one execution: self-test before the search
        det, detbad = 0, 0
        for i, g in enumerate(sorted(set(gens))[:4]):
            a = sim.run(gen=g, seed=base + 999000 + i)
            b = sim.run(plan=sim.plan(g, base + 999000 + i), trace=os.path.join(tmp, "t.txt"))
            det += 1
            detbad += a["hash"] != b["hash"]
        stop = threading.Event()
        mu = threading.Lock()
        nxt = [0]
        st = collections.Counter(); faults = collections.Counter(); counts = collections.Counter(); perprof = collections.Counter()
        scheds, samples, found, oldseen = set(), [], [], collections.Counter()
        ts0 = time.time()
        end = ts0 + seconds

        def worker():
            while not stop.is_set():
                with mu:
                    i = nxt[0]; nxt[0] += 1
                if time.time() > end or (maxruns and i >= maxruns): return
                g, s = gens[i % len(gens)], base + i
                r = sim.run(gen=g, seed=s)
                new, old = hits(r, prop, ks)
                with mu:
                    st["runs"] += 1; perprof[g] += 1
                    if "crash" in r: st["died"] += 1
                    else:
                        n = r["props"].get(prop, 0)
                        st["obligations"] += n; st["sim_ns"] += r["sim_ns"]; st["decisions"] += r["decisions"]; st["deviations"] += r["deviations"]; st["overrun"] += bool(r.get("overrun"))
                        faults.update(r["faults"]); counts.update(r["counts"])
                        if n > 0:
                            st["nontrivial"] += 1
                            scheds.add(r["hash"])
                            if len(samples) < 3 and (r["faults"] or not samples):
                                samples.append({"gen": g, "seed": s, "sim_s": round(r["sim_ns"] / 1e9, 3), "decisions": r["decisions"], "deviations": r["deviations"],
                                                "obligations": n, "faults": r["faults"], "counts": r["counts"], "trace_hash": r["hash"]})
                    for v in old: oldseen[v["sig"]] += 1
                    if new:
                        found.append((g, s, new[0]))
                        if len(found) >= 6 or time.time() - ts0 > 10: stop.set()
                        else: threading.Timer(5, stop.set).start()

        th = [threading.Thread(target=worker) for _ in range(NPROC)]
        [t.start() for t in th]; [t.join() for t in th]
        wall = time.time() - ts0
        rc, viol = 0, 0
        found.sort(key=lambda f: (f[2]["sig"], f[1]))
        unconfirmed = []
        for g, s, v in found:
            got = report(sim, prop, g, s, v, 60 if tier == "quick" else 240)
            if got is None:
                unconfirmed.append((g, s, v["sig"]))
                continue
            path, vv, same = got
            log("%s: %s  (%s seed %d): %s" % (prop, v["sig"], g, s, vv["detail"]))
            log("VIOLATION property=%s replay=%s" % (prop, path))
            rc, viol = 1, 1
            break
        for u in unconfirmed: log("not confirmed when run again (no alarm): %s seed %d %s" % u)
        for k in ks:
            log("KNOWN-FINDING: property=%s %s (seen in %d runs of this check; replay %s)" % (prop, k["what"], sum(n for s, n in oldseen.items() if fnmatch.fnmatchcase(s, k["sig"])), k.get("replay")))
        ev = {"property": prop, "tier": tier, "seed": seed0, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": viol,
              "coverage": {
                  "evaluations": st["runs"], "distinct_nontrivial": len(scheds),
                  "rule": "one evaluation = one simulated execution of one seed (plan of events, operations and faults plus one schedule). Non-trivial: the oracle of this property checked at least one obligation in it. Distinct: a different hash over the complete event trace (every handler call, request, commit, fault with its simulated time).",
                  "samples": samples, "obligations_checked": st["obligations"],
                  "runs_per_hour": int(st["runs"] / max(wall, 1e-9) * 3600), "seeds_per_hour": int(st["runs"] / max(wall, 1e-9) * 3600),
                  "simulated_hours": round(st["sim_ns"] / 3.6e12, 3), "scheduler_decisions": st["decisions"], "scheduler_deviations_from_fifo": st["deviations"],
                  "runs_per_profile": dict(perprof), "faults_injected": dict(faults.most_common()), "what_happened": dict(counts.most_common(60)),
                  "determinism_selftest": {"pairs": det, "mismatches": detbad}, "runs_without_result": st["died"], "runs_cut_by_step_limit": st["overrun"],
                  "unconfirmed": len(unconfirmed), "known_findings_seen": dict(oldseen), "build_s": round(bt, 1), "search_s": round(wall, 1), **components(gens)},
              "assumptions": ["the simulated brokers implement the parts of the Kafka protocol the client uses (sim/simk); a defect that needs broker behaviour they do not show is not found",
                              "sequentially consistent memory: data races are explored at the granularity of instrumented statements, not of the hardware",
                              "search, not proof: only the sampled plans and schedules were executed"]}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
        log("%s %s: %d runs, %d distinct, %.1f h simulated, %d obligations, %d violations, %.0f s" % (prop, tier, st["runs"], len(scheds), st["sim_ns"] / 3.6e12, st["obligations"], viol, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "replay": sys.exit(replay(a[1]))
    if a[0] == "setup":  # nothing is kept: every check builds from /repo; this shows that building works
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try: log("built in %.1f s" % build(os.path.join(tmp, "b"), TARGETS)); sys.exit(0)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    if a[0] == "build":
        log("built in %.1f s" % build(a[1], a[2:] or ["sim"])); sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    secs = runs = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]
        elif a[i] == "--seconds": secs = float(a[i + 1])
        elif a[i] == "--runs": runs = int(a[i + 1])
        i += 2
    sys.exit(check(a[0], tier, secs or SECONDS[tier], runs))


if __name__ == "__main__":
    main()
