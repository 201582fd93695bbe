"""C13: deterministic simulation of the Go binding (see gosim/zz_sim.go)."""
import collections, concurrent.futures, copy, glob, hashlib, json, os, random, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
REPO = "/repo/bindings/golang"
COUNT = (3000, 60000)
CAP = (100, 3600)
BLOB = 131072

def env():
    e = dict(os.environ)
    for k in ("GOFLAGS", "GOPATH", "GO111MODULE", "GOWORK", "CGO_CFLAGS", "CGO_LDFLAGS", "GODEBUG", "GOGC"):
        e.pop(k, None)
    e.update(HOME="/root", GOCACHE=os.path.join(BUILD, "gocache"), GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOSUMDB="off", CGO_ENABLED="1", GOWORK="off")
    return e

def build():
    d = os.path.join(BUILD, "go")
    shutil.rmtree(d, ignore_errors=True)
    lib = os.path.join(d, "build/x86_64-unknown-linux-gnu")
    os.makedirs(lib)
    os.makedirs(os.path.join(d, "cmd/gosim"))
    for f in glob.glob(REPO + "/*.go"):
        if not f.endswith("_test.go"):
            shutil.copy(f, d)
    for f in ("go.mod", "go.sum"):
        if os.path.exists(f"{REPO}/{f}"):
            shutil.copy(f"{REPO}/{f}", d)
    G = os.path.join(VERIF, "gosim")
    shutil.copy(G + "/c_eth_kzg.h", d + "/build/")
    shutil.copy(G + "/zz_sim.go", d)
    mod = [l.split()[1] for l in open(d + "/go.mod") if l.startswith("module ")][0]
    pkg = [l.split()[1] for f in glob.glob(REPO + "/*.go") if not f.endswith("_test.go") for l in open(f) if l.startswith("package ")][0]
    s = open(d + "/zz_sim.go").read()
    open(d + "/zz_sim.go", "w").write(s.replace("package eth_kzg", "package " + pkg, 1))
    open(d + "/cmd/gosim/main.go", "w").write(open(G + "/main.go.txt").read().replace("MODULE", mod))
    cmds = [["gcc", "-O1", "-g", "-c", "-I", d + "/build", "-o", d + "/stub.o", G + "/stub.c"],
            ["ar", "rcs", lib + "/libc_eth_kzg.a", d + "/stub.o"],
            ["go", "build", "-o", d + "/gosim", "./cmd/gosim"]]
    for c in cmds:
        p = subprocess.run(c, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print(p.stdout[-4000:])
            print("ERROR: building the Go simulator failed: " + " ".join(c))
            sys.exit(3)
    return d + "/gosim"

def gen(seed):
    r = random.Random(seed)
    ng = r.choice([1, 1, 2, 3, 4])
    slots = r.randint(1, 3)
    p = {"seed": seed, "gc": r.choice([2, 3, 6, 20]), "slots": slots, "gor": []}
    for g in range(ng):
        ops = []
        for _ in range(r.randint(2, 8)):
            k = r.choice(["new", "new", "blob", "blob", "last", "last", "temp", "temp", "drop"])
            size = BLOB if r.random() < 0.85 else r.choice([-1, 0, 1, 31, 48, 4096, BLOB - 1, BLOB + 1, 2 * BLOB])
            err = "" if r.random() < 0.7 else r.choice(["CouldNotDeserializeScalar { bytes: [255, 255] }", "x", "%s%n 100%", "e" * 400, "é", " "])
            ops.append({"op": k, "slot": r.randrange(slots), "size": size, "tag": r.getrandbits(32), "err": err, "reuse": r.random() < 0.4})
        p["gor"].append(ops)
    return p

def run(exe, plan, timeout=60):
    try:
        p = subprocess.run([exe], input=json.dumps(plan).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(env(), GOMAXPROCS="1", GODEBUG="asyncpreemptoff=1", GOTRACEBACK="single"))
    except subprocess.TimeoutExpired:
        return {"viol": {"class": "timeout", "detail": f"the run did not end within {timeout} s", "at": []}, "hash": "", "cnt": {}, "picks": []}
    if p.returncode != 0:
        tail = p.stderr.decode(errors="replace")[:1500]
        if p.returncode == 77:
            return {"viol": {"class": "unsupported", "detail": tail, "at": []}, "hash": "", "cnt": {}, "picks": []}
        return {"viol": {"class": "crash", "detail": f"the process died with status {p.returncode}: {tail}", "at": []}, "hash": "", "cnt": {}, "picks": []}
    return json.loads(p.stdout)

def minimise(exe, plan, cls, limit=60):
    t0 = time.time()
    tried = 0
    def fails(p):
        nonlocal tried
        tried += 1
        r = run(exe, p, 20)
        return r if r["viol"] and r["viol"]["class"] == cls else None
    best, br = plan, fails(plan)
    if not br:
        return plan, None, "not reproduced"
    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        cands = []
        for g in range(len(best["gor"])):
            if len(best["gor"]) > 1:
                c = copy.deepcopy(best); del c["gor"][g]; cands.append(c)
            for i in range(len(best["gor"][g])):
                c = copy.deepcopy(best); del c["gor"][g][i]; cands.append(c)
        for c in cands:
            if time.time() - t0 > limit:
                break
            for seed in (best["seed"], 1, 2, 3):
                c["seed"] = seed
                r = fails(c)
                if r:
                    best, br, changed = copy.deepcopy(c), r, True
                    break
            if changed:
                break
    # pin the decisions, then undo as many as possible
    pinned = copy.deepcopy(best)
    pinned["picks"] = list(br["picks"]) or [0]
    r = fails(pinned)
    if r:
        best, br = pinned, r
        for i in range(len(best["picks"])):
            if time.time() - t0 > limit or best["picks"][i] == 0:
                continue
            c = copy.deepcopy(best); c["picks"][i] = 0
            r = fails(c)
            if r:
                best, br = c, r
    return best, br, f"{tried} runs"

ASSUME = ["the native library is a stand-in that follows the C interface's contract (the real library behind that interface is checked by C08)",
          "Go's collector and finalizers run only where the simulator starts them (GOGC off); the points are every step, every native call's entry, inside and exit",
          "cgo, the Go runtime and the compiler's liveness decisions are the real ones"]

def main(a, tier):
    t0 = time.time()
    exe = build()
    n = a.count or COUNT[tier == "thorough"]
    cap = a.cap or CAP[tier == "thorough"]
    agg = collections.Counter()
    hashes, plans, samples, found, harness = set(), set(), [], [], []
    lock = threading.Lock()
    done = nontriv = det = 0
    def one(i):
        nonlocal done, nontriv, det
        if found or time.time() - t0 > cap:
            return
        seed = int.from_bytes(hashlib.sha256(f"C13/{a.seed}/{i}".encode()).digest()[:6], "big")
        p = gen(seed)
        r = run(exe, p)
        if r["viol"] and r["viol"]["class"] in ("timeout", "crash"):
            r = run(exe, p)      # once more, to be sure it is the run and not the machine
        if i % 50 == 0 and not r["viol"]:
            r2 = run(exe, p)
            if r2["hash"] != r["hash"]:
                with lock:
                    harness.append(("nondeterministic", seed))
            det += 1
        with lock:
            done += 1
            for k, v in r["cnt"].items():
                agg[k] += v
            if r["cnt"].get("cases"):
                nontriv += 1
            hashes.add(r["hash"])
            plans.add(hashlib.sha256(json.dumps(p).encode()).hexdigest())
            if len(samples) < 3:
                samples.append({"plan": p, "outcome": r["hash"], "counts": r["cnt"]})
            if r["viol"]:
                (harness if r["viol"]["class"] in ("harness", "unsupported", "timeout") else found).append((seed, p, r))
    with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, range(n)))
    wall = time.time() - t0
    cov = {"evaluations": done, "distinct_nontrivial": min(len(plans), nontriv),
           "rule": "one evaluation is one simulated run of a generated plan in its own process; distinct by plan; non-trivial if at least one call's outcome was checked",
           "samples": samples or [{"note": "none"}], "calls_checked": agg.get("cases", 0), "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
           "distinct_histories": len(hashes), "replayed_twice_identical": det,
           "faults_injected": {k[6:]: v for k, v in sorted(agg.items()) if k.startswith("fault.")},
           "counters": {k: v for k, v in sorted(agg.items()) if not k.startswith("fault.")},
           "real_components": ["bindings/golang/prover.go", "Go runtime, collector, finalizers, cgo"], "stubs": ["native library (gosim/stub.c)"], "workers": a.workers}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": "C13", "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": 1 if found else 0},
              open(os.path.join(VERIF, "evidence/C13.json"), "w"), indent=1)
    print(f"C13: {done} runs, {agg.get('cases', 0)} checked calls, {agg.get('fault.gc', 0)} collections in {wall:.0f}s")
    if found:
        seed, p, r = found[0]
        cls = r["viol"]["class"]
        print(f"found {cls} seed={seed}: {r['viol']['detail'][:400]}")
        best, br, log = minimise(exe, p, cls)
        br = br or r
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        name = os.path.join(rdir, f"C13-{cls}-{hashlib.sha256(json.dumps(best).encode()).hexdigest()[:10]}.json")
        json.dump({"property": "C13", "class": cls, "detail": br["viol"]["detail"], "seed": seed, "binary": "go", "plan": best, "hash": br["hash"], "trace": br.get("trace"), "minimisation": log, "original_plan": p}, open(name, "w"), indent=1)
        print(f"  {cls}: {br['viol']['detail'][:500]}")
        print(f"VIOLATION property=C13 replay={name}")
        return 1
    if harness:
        for h in harness[:5]:
            print("HARNESS ERROR", str(h)[:600])
        return 3
    return 0

def replay(f):
    exe = build()
    r = run(exe, f["plan"])
    print(json.dumps(r["viol"], indent=1))
    print("\n".join(r.get("trace") or []))
    ok = bool(r["viol"]) and r["viol"]["class"] == f["class"] and r["hash"] == f["hash"]
    print("reproduced exactly" if ok else "NOT reproduced")
    return 1 if r["viol"] else 0
