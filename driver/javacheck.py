"""C12, Java half: deterministic simulation of LibEthKZG.java over a stand-in native library (see javasim/)."""
import collections, glob, hashlib, json, os, random, select, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = "/repo/bindings/java/java_code/src/main/java"
COUNT = (1500, 60000)

class Unsupported(Exception):
    pass

def build():
    d = os.path.join(BUILD, "java")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/sim")
    os.makedirs(d + "/classes/x86_64-unknown-linux-gnu")
    J = os.path.join(VERIF, "javasim")
    inc = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac")))), "include")
    for c in (["javac", "-nowarn", "-d", d + "/classes"] + sorted(glob.glob(SRC + "/**/*.java", recursive=True)),
              ["javac", "-nowarn", "-d", d + "/sim", J + "/Sim.java"],
              ["gcc", "-shared", "-fPIC", "-O1", "-I", inc, "-I", inc + "/linux", "-o", d + "/classes/x86_64-unknown-linux-gnu/libjava_eth_kzg.so", J + "/stub.c"]):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Unsupported(f"building the Java simulator failed: {' '.join(c[:3])}: {p.stdout[-1500:]}")
    return d

def gen(seed):
    r = random.Random(seed)
    nt = r.choice([1, 1, 2, 3, 4])
    nslot = r.randint(1, 3)
    th = []
    for t in range(nt):
        ops = []
        for i in range(r.randint(1, 9)):
            k = r.choice(["new", "new", "call", "call", "call", "call", "close"]) if i or t else r.choice(["new", "new", "new", "call"])
            if r.random() < 0.08:
                k = r.choice(["nofs", "fs", "fs"])
            s = r.randrange(nslot)
            if k == "new":
                ops.append(f"new:{s}:{r.randrange(4)}:{r.choice([0, 1, 2, 8, -1, 2**31, 2**32 + 1, 2**63 - 1])}")
            elif k == "call":
                out = r.choice(["ok", "ok", "ok", "iae", "oom", "npe"])
                ops.append(f"call:{s}:{r.randrange(4)}:{out}:{r.getrandbits(20)}:{r.choice([0, 1, 2, 3, 4, 9, 9, 9, 9, 9])}")
            elif k == "close":
                ops.append(f"close:{s}:{r.randrange(2)}")
            else:
                ops.append(k)
        th.append(ops)
    return {"seed": seed, "picks": [], "threads": th}

def text(p):
    return f"{p['seed']}/{','.join(map(str, p['picks']))}/{'|'.join(','.join(t) for t in p['threads'])}\n"

class Jvm:
    n = 0
    def __init__(self, d):
        Jvm.n += 1
        self.tmp = os.path.join(d, f"tmp{os.getpid()}-{Jvm.n}-{random.getrandbits(32):x}", "t")
        os.makedirs(self.tmp)
        self.p = subprocess.Popen(["java", "-Xss1m", "-Xmx512m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-XX:-UsePerfData", f"-XX:ErrorFile={self.tmp}/hs", f"-Djava.io.tmpdir={self.tmp}",
                                   "-cp", d + "/sim", "Sim", d + "/classes"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(self.tmp))
    def run(self, plan, timeout=60):
        try:
            self.p.stdin.write(text(plan).encode())
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], timeout)[0]:
                self.close()
                return {"hash": "", "cnt": {}, "picks": [], "viol": {"class": "harness", "detail": "no answer in time"}}
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        if not l:
            err = self.p.stderr.read().decode(errors="replace")
            self.close()
            return {"hash": "", "cnt": {}, "picks": [], "viol": {"class": "jvm-died", "detail": "the JVM died: " + err[:1200]}}
        return json.loads(l)
    def close(self):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(os.path.dirname(self.tmp), ignore_errors=True)

def fresh(d, plan):
    j = Jvm(d)
    try:
        return j.run(plan)
    finally:
        j.close()

def minimise(d, plan, cls, limit=45):
    t0 = time.time()
    j = [Jvm(d)]
    tried = 0
    def fails(p):
        nonlocal tried
        tried += 1
        r = j[0].run(p, 20)
        if j[0].p.poll() is not None:
            j[0].close()
            j[0] = Jvm(d)
        return r if r["viol"] and r["viol"]["class"] == cls else None
    best, br = plan, fails(plan)
    changed = bool(br)
    while changed and time.time() - t0 < limit:
        changed = False
        for t in range(len(best["threads"])):
            for i in [None] + list(range(len(best["threads"][t]))):
                c = json.loads(json.dumps(best))
                if i is None:
                    if len(c["threads"]) == 1:
                        continue
                    del c["threads"][t]
                else:
                    del c["threads"][t][i]
                for seed in (best["seed"], 1, 2, 3):
                    c["seed"] = seed
                    r = fails(c)
                    if r:
                        best, br, changed = c, r, True
                        break
                if changed or time.time() - t0 > limit:
                    break
            if changed or time.time() - t0 > limit:
                break
    if br:
        c = json.loads(json.dumps(best))
        c["picks"] = br["picks"] or [0]
        r = fails(c)
        if r:
            best, br = c, r
            for i, v in enumerate(best["picks"]):
                if v and time.time() - t0 < limit:
                    c = json.loads(json.dumps(best))
                    c["picks"][i] = 0
                    r = fails(c)
                    if r:
                        best, br = c, r
    j[0].close()
    return best, br, f"{tried} runs"

def explore(seed, tier, workers, count=None, cap=None):
    """-> dict(done, agg, hashes, found=(plan, result) or None, harness=[...], wall, twice)"""
    t0 = time.time()
    d = build()
    n = count or COUNT[tier == "thorough"]
    cap = cap or (40, 1800)[tier == "thorough"]
    agg, hashes, found, harness = collections.Counter(), set(), [], []
    lock = threading.Lock()
    st = dict(done=0, twice=0)
    def work(w):
        j = Jvm(d)
        for i in range(w, n, workers):
            if found or len(harness) > 5 or time.time() - t0 > cap:
                break
            s = int.from_bytes(hashlib.sha256(f"C12j/{seed}/{i}".encode()).digest()[:6], "big")
            p = gen(s)
            r = j.run(p)
            if r["viol"]:
                r1 = r
                r = fresh(d, p)     # once more in a JVM of its own
                if (r["viol"] or {}).get("class") != r1["viol"]["class"]:
                    with lock:
                        harness.append(("not reproduced", s, r1["viol"], r["viol"]))
                    break
            elif i % 40 < workers:
                r2 = j.run(p)
                with lock:
                    st["twice"] += 1
                    if r2["hash"] != r["hash"]:
                        harness.append(("nondeterministic", s))
            with lock:
                st["done"] += 1
                for k, v in r["cnt"].items():
                    agg[k] += v
                hashes.add(r["hash"])
                if r["viol"]:
                    (harness if r["viol"]["class"] == "harness" else found).append((p, r))
            if r["viol"]:
                break
        j.close()
    ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    out = dict(done=st["done"], twice=st["twice"], agg=agg, hashes=hashes, harness=harness, found=None, wall=time.time() - t0)
    if found:
        p, r = found[0]
        best, br, log = minimise(d, p, r["viol"]["class"])
        out["found"] = dict(plan=best, res=br or r, log=log, original=p)
    return out

def save(f):
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    v = f["res"]["viol"]
    name = os.path.join(rdir, f"C12-{v['class']}-{hashlib.sha256(json.dumps(f['plan']).encode()).hexdigest()[:10]}.json")
    json.dump({"property": "C12", "class": v["class"], "detail": v["detail"], "seed": f["original"]["seed"], "binary": "java-half", "plan": f["plan"], "hash": f["res"]["hash"], "trace": f["res"].get("trace"), "minimisation": f["log"], "original_plan": f["original"]}, open(name, "w"), indent=1)
    print(f"  {v['class']}: {v['detail'][:500]}")
    print(f"VIOLATION property=C12 replay={name}")

def replay(f):
    r = fresh(build(), f["plan"])
    print(json.dumps(r["viol"], indent=1))
    print("\n".join(r.get("trace") or []))
    ok = bool(r["viol"]) and r["viol"]["class"] == f["class"] and r["hash"] == f["hash"]
    print("reproduced exactly" if ok else "NOT reproduced")
    return 1 if r["viol"] else 0

if __name__ == "__main__":
    o = explore(int(sys.argv[2]) if len(sys.argv) > 2 else 1, "quick", 3, int(sys.argv[1]))
    print({k: (len(v) if isinstance(v, set) else v) for k, v in o.items()})
