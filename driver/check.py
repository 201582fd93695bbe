#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--budget seconds]: runs one property's check."""
import argparse, collections, copy, hashlib, json, os, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from server import Server, ServerDead, violation
from templates import templates
import minimise

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SIMPROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C16"]
# episodes per worker: (quick, thorough)
COUNT = {"C01": (26, 900), "C02": (20, 800), "C03": (70, 2000), "C04": (55, 1800), "C05": (40, 800), "C06": (9, 500),
         "C07": (36, 1200), "C08": (22, 800), "C09": (50, 1400), "C10": (50, 1400), "C11": (16, 600), "C12": (30, 1200), "C14": (40, 800), "C16": (600, 25000)}
CAP = {"quick": 170, "thorough": 3600}

def binary(kind):
    d = {"blk": "mt", "blkst": "st"}.get(kind, kind)
    return os.path.join(BUILD, d, "x86_64-unknown-linux-gnu/release", "dasblocks" if kind.startswith("blk") else "dassim")

def build(kinds):
    for k in kinds:
        env = dict(os.environ, VERIF_BUILD=BUILD)
        p = subprocess.run([os.path.join(VERIF, "sim/build.sh"), k], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
        if p.returncode != 0:
            print(p.stdout[-4000:])
            print(f"ERROR: building the simulator ({k}) failed")
            sys.exit(3)

def known_findings(prop):
    """lines `KNOWN property=<id> history=<file>: what fails`; the file holds the one history that fails"""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("KNOWN "):
                d = dict(x.split("=", 1) for x in l.split(":", 1)[0].split()[1:])
                if d["property"] == prop:
                    out.append((d["history"], l.split(":", 1)[1].strip()))
    return out

def replay_known(prop):
    """replays the listed histories; a different failure of the same history is a violation"""
    for hist, text in known_findings(prop):
        f = json.load(open(os.path.join(VERIF, hist)))
        build([f["binary"]])
        s = Server(binary(f["binary"]), f["template"])
        try:
            s.wait_ready()
            st, af, _, res = s.run(f["plan"])
        except ServerDead as e:
            print(f"  known history {hist} could not be replayed: {e}")
            continue
        finally:
            s.close()
        v = violation(st, af, res)
        if v and v[0] == f["class"] and f["match"] in v[2] and (res or {}).get("at") == f["at"]:
            print(f"KNOWN-FINDING: property={prop} {text}")
        else:
            print(f"  known history {hist}: now {v}")

FAMILY = {  # classes that are violations of the property even when the call is made alone on a fresh context
    "C05": lambda c: c in ("arguments-modified", "caller-died") or c.startswith("deadlock") or c.startswith("steplimit"),
    "C07": lambda c: c.startswith(("panic", "crash", "canonical", "noncanonical", "deadlock", "steplimit", "arguments", "caller")),
}

def solo_plan(plan, at):
    """the violating call alone, on an otherwise unused context, one thread at a time"""
    if not (isinstance(at, list) and len(at) >= 2) or plan.get("scn") != "ops":
        return None
    try:
        step = copy.deepcopy(plan["callers"][at[0]]["steps"][at[1]])
    except Exception:
        return None
    if step.get("s") != "Call":
        return None
    p = {k: plan[k] for k in ("scn", "prop", "seed", "sim", "blobs")}
    p["sim"] = dict(p["sim"], policy=0, hot_denom=0, stall_denom=0, seed=1)
    p["callers"] = [{"pool": 0, "steps": [step]}]
    return p

class Run:
    def __init__(self, prop, tier, seed, workers, count, cap):
        self.prop, self.tier, self.seed, self.n, self.count, self.cap = prop, tier, seed, workers, count, cap
        self.lock = threading.Lock()
        self.stop = False
        self.agg = collections.Counter()
        self.sim = collections.Counter()
        self.simmax = collections.Counter()
        self.scheds = set()
        self.hashes = set()
        self.plans = set()
        self.samples = []
        self.foreign = collections.Counter()
        self.foreign_detail = {}
        self.nontrivial = 0
        self.replayed = [0, 0]
        self.found = None
        self.harness = []
        self.episodes = 0
        self.edges = [0, 0]
        self.policies = collections.Counter()
        self.t0 = time.time()

    def relevant(self, v, st, plan, res, server):
        cls, props, detail = v
        if self.prop not in props:
            return False
        if self.prop in FAMILY and not FAMILY[self.prop](cls):
            sp = solo_plan(plan, (res or {}).get("at"))
            if sp is not None:
                s2, a2, _, r2 = server.run(sp)
                v2 = violation(s2, a2, r2)
                if v2 and v2[0] == cls:
                    return False
        return True

    def worker(self, w, kind, tpl):
        server = None
        try:
            server = Server(binary(kind), tpl)
            try:
                server.wait_ready()
            except ServerDead as e:
                # a context cannot even be built: confirm in a second process
                server.close()
                server = Server(binary(kind), tpl)
                try:
                    server.wait_ready()
                except ServerDead as e2:
                    with self.lock:
                        if not self.found:
                            self.found = dict(kind=kind, template=tpl, plan=None, cls="template-failed", detail=f"building the template's contexts failed: {e2}", hash=None)
                        self.stop = True
                    return
            for i in range(self.count):
                if self.stop or time.time() - self.t0 > self.cap:
                    break
                seed = int.from_bytes(hashlib.sha256(f"{self.prop}/{self.seed}/{w}/{i}".encode()).digest()[:7], "big")
                st, af, plan_s, res = server.gen(self.prop, seed, self.tier)
                v = violation(st, af, res)
                self.account(plan_s, st, af, res)
                if not v:
                    if i % 16 == 5:
                        st2, af2, _, res2 = server.run(plan_s)
                        same = (st, af, (res or {}).get("hash")) == (st2, af2, (res2 or {}).get("hash"))
                        with self.lock:
                            self.replayed[0 if same else 1] += 1
                    continue
                plan = json.loads(plan_s)
                cls, props, detail = v
                if not props:
                    with self.lock:
                        self.harness.append((cls, detail, seed))
                    continue
                if not self.relevant(v, st, plan, res, server):
                    with self.lock:
                        self.foreign[cls] += 1
                        self.foreign_detail.setdefault(cls, detail[:300])
                    continue
                with self.lock:
                    if self.found:
                        return
                    self.found = dict(kind=kind, template=tpl, plan=plan, cls=cls, detail=detail, seed=seed, hash=(res or {}).get("hash"))
                    self.stop = True
                print(f"found {cls} seed={seed}: {detail[:400]}", flush=True)
                self.found.update(minimise.minimise(server, self.prop, plan, cls, limit=75))
                return
            e = server._cmd("E")
            with self.lock:
                self.edges[0] = max(self.edges[0], e[1])
                self.edges[1] = max(self.edges[1], e[0])
        except ServerDead as e:
            with self.lock:
                self.harness.append(("server-dead", str(e), w))
        except Exception as e:
            import traceback
            with self.lock:
                self.harness.append(("driver", traceback.format_exc(), w))
        finally:
            if server:
                server.close()

    def account(self, plan_s, st, af, res):
        with self.lock:
            self.episodes += 1
            self.plans.add(hashlib.sha256(plan_s.encode()).digest()[:8])
            if os.WIFSIGNALED(st) and af:
                self.agg["fault.alloc"] += af
                self.agg["aborted-after-refused-allocation"] += 1
                self.nontrivial += 1
            if not res:
                return
            for k, n in res["cnt"].items():
                self.agg[k] += n
            s = res["sim"]
            for k in ("steps", "switches", "forced", "hot", "hot_preempts", "sync_calls", "futex_waits", "futex_wakes", "spawns", "spawn_fails", "stalls", "timeouts", "yields", "rnd_reads", "clock_reads", "idle_jumps", "spurious", "rare_preempts"):
                self.sim[k] += s[k]
            for k in ("max_fibres", "pairs", "edges_seen"):
                self.simmax[k] = max(self.simmax[k], s[k])
            self.scheds.add(s["sched_hash"])
            self.hashes.add(res["hash"])
            if res["cnt"].get("calls", 0) or res["cnt"].get("cases", 0):
                self.nontrivial += 1
            if len(self.samples) < 3 and len(plan_s) < 6000:
                self.samples.append({"plan": json.loads(plan_s), "outcome": res["hash"], "counts": res["cnt"]})

    def go(self):
        ts = [threading.Thread(target=self.worker, args=(w, k, t)) for w, (k, t) in enumerate(templates(self.prop, self.seed, self.n, self.tier))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def evidence(self, extra=None):
        wall = time.time() - self.t0
        faults = {k[6:]: v for k, v in sorted(self.agg.items()) if k.startswith("fault.") and v}
        if self.sim["spawn_fails"]:
            faults["thread-creation-refused"] = self.sim["spawn_fails"]
        if self.sim["spurious"]:
            faults["spurious-wakeup"] = self.sim["spurious"]
        if self.sim["stalls"]:
            faults["stalled-thread"] = self.sim["stalls"]
        cov = {
            "evaluations": self.episodes,
            "distinct_nontrivial": min(len(self.plans), self.nontrivial),
            "rule": "one evaluation is one simulated run (process forked from a template of contexts) of a plan generated from a seed; distinct by the plan's hash; non-trivial if it completed at least one checked call (or reached an injected fault)",
            "samples": self.samples[:3] or [{"note": "no run completed"}],
            "calls_checked": self.agg.get("calls", 0) + self.agg.get("cases", 0),
            "runs_per_hour": round(self.episodes / max(wall, 1e-9) * 3600),
            "simulated_steps": self.sim["steps"],
            "simulated_network_ms": self.agg.get("net.ms", 0),
            "distinct_schedules": len(self.scheds),
            "plans_replayed_identical": self.replayed[0], "plans_replayed_different": self.replayed[1],
            "distinct_outcomes": len(self.hashes),
            "max_distinct_preemption_site_pairs_in_a_run": self.simmax["pairs"],
            "code_edges_reached": self.edges[0], "code_edges_instrumented": self.edges[1],
            "max_threads": self.simmax["max_fibres"],
            "scheduler": {k: self.sim[k] for k in ("switches", "forced", "hot", "hot_preempts", "rare_preempts", "futex_waits", "futex_wakes", "timeouts", "yields", "spawns")},
            "faults_injected": faults,
            "counters": {k: v for k, v in sorted(self.agg.items()) if not k.startswith("fault.")},
            "violations_of_other_properties_seen": dict(self.foreign),
            "workers": self.n,
        }
        if extra:
            cov.update(extra)
        return cov

def assumptions(prop):
    a = ["blstrs field and group operations (the model's arithmetic) are trusted",
         "one kernel thread runs every simulated thread, so hardware memory reordering is not simulated; interleavings are sequentially consistent at the granularity of basic blocks and memory accesses of the code under test, rayon, crossbeam and blst's Rust code",
         "blst's assembly runs atomically"]
    return a

def write_evidence(prop, tier, seed, cov, wall, nviol, level):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions(prop), "wall_s": round(wall, 1), "violations": nviol},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)

def java_half(a, tier):
    """C12: LibEthKZG.java and CellsAndProofs.java over a stand-in native library. -> (evidence, violation, harness errors)"""
    import javacheck
    try:
        o = javacheck.explore(a.seed, tier, a.workers)
    except javacheck.Unsupported as e:
        print(f"  Java half not simulated: {e}")
        return {"java_half": {"note": str(e)[:500]}}, None, []
    print(f"C12 (Java half): {o['done']} runs, {o['agg'].get('calls', 0)} checked calls in {o['wall']:.0f}s")
    agg = o["agg"]
    ev = {"java_half": {"runs": o["done"], "runs_per_hour": round(o["done"] / max(o["wall"], 1e-9) * 3600), "calls_checked": agg.get("calls", 0), "distinct_histories": len(o["hashes"]), "replayed_twice_identical": o["twice"],
                        "faults_injected": {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault.")},
                        "counters": {k: v for k, v in sorted(agg.items()) if not k.startswith("fault.")}}}
    return ev, o["found"], o["harness"]

def finish(prop, tier, seed, run, level, t0, extra=None):
    cov = run.evidence(extra)
    write_evidence(prop, tier, seed, cov, time.time() - t0, 1 if run.found else 0, level)
    print(f"{prop}: {run.episodes} runs, {cov['calls_checked']} checked calls, {len(run.scheds)} schedules, {run.sim['steps']/1e9:.1f}e9 steps in {time.time()-t0:.0f}s; foreign={dict(run.foreign)}")
    for c, d in run.foreign_detail.items():
        print(f"  other property: {c}: {d}")
    replay_known(prop)
    if run.found:
        f = run.found
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        name = os.path.join(rdir, f"{prop}-{f['cls']}-{hashlib.sha256(json.dumps(f.get('plan')).encode()).hexdigest()[:10]}.json")
        json.dump({"property": prop, "class": f["cls"], "detail": f["detail"], "seed": f.get("seed"), "binary": f["kind"], "template": f["template"], "plan": f["plan"], "hash": f.get("hash"), "minimisation": f.get("log"), "original_plan": f.get("original")}, open(name, "w"), indent=1)
        print(f"  {f['cls']}: {f['detail'][:600]}")
        print(f"VIOLATION property={prop} replay={name}")
        return 1
    soft = [h for h in run.harness if h[0] in ("killed",)]
    if len(soft) <= 2:
        for h in soft:
            print("  run lost:", h)
        run.harness = [h for h in run.harness if h not in soft]
    if run.harness:
        for h in run.harness[:5]:
            print("HARNESS ERROR", h)
        return 3
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--count", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    print(f"{a.prop} tier={tier} VERIF_SEED={a.seed}", flush=True)
    if a.prop == "C13":
        import gocheck
        sys.exit(gocheck.main(a, tier))
    kinds = sorted({k for k, _ in templates(a.prop, a.seed, a.workers, tier)}) 
    if not a.no_build:
        build(kinds)
    count = a.count or COUNT[a.prop][tier == "thorough"]
    run = Run(a.prop, tier, a.seed, a.workers, count, a.cap or CAP[tier])
    extra = None
    if a.prop == "C12":
        extra, jfound, jharness = java_half(a, tier)
        if jfound:
            import javacheck
            write_evidence("C12", tier, a.seed, run.evidence(extra), time.time() - t0, 1, "fault_enumeration")
            javacheck.save(jfound)
            sys.exit(1)
        run.t0 = time.time()
        run.harness += [("java-half", str(h)) for h in jharness]
    run.go()
    level = "fault_enumeration" if a.prop in ("C12",) else "exploration"
    sys.exit(finish(a.prop, tier, a.seed, run, level, t0, extra))

if __name__ == "__main__":
    main()
