"""Shrinks a violating plan while the same class of violation persists."""
import copy, json, time
from server import violation, ServerDead

def minimise(server, prop, plan, cls, limit=75):
    t0 = time.time()
    log = []
    best = {"plan": plan, "hash": None, "detail": None}

    def fails(p, verbose=False):
        if time.time() - t0 > limit:
            return None
        st, af, _, res = server.run(p, verbose)
        v = violation(st, af, res)
        if v and v[0] == cls and prop in v[1]:
            return {"res": res, "detail": v[2], "hash": (res or {}).get("hash")}
        return None

    def attempt(p, what):
        r = fails(p)
        if r:
            best.update(plan=p, hash=r["hash"], detail=r["detail"])
            log.append(what)
            return True
        return False

    r = fails(plan, True)
    if not r:
        return {"plan": plan, "log": ["did not reproduce within the time limit"]}
    best.update(hash=r["hash"], detail=r["detail"])
    res0 = r["res"]
    original = plan
    # a network run: the offending call alone
    if plan.get("scn") == "net" and res0 and res0.get("trace"):
        tr = res0["trace"]
        for k in (1, 2, 4, 16):
            p = {"scn": "ops", "prop": plan["prop"], "seed": plan["seed"], "sim": plan["sim"], "blobs": plan["blobs"],
                 "callers": [{"pool": 0, "steps": [{"s": "Call", "op": o} for o in tr[-k:]]}]}
            if attempt(p, f"network replaced by its last {k} calls"):
                break
    # quiet schedule
    quiet = copy.deepcopy(best["plan"])
    quiet["sim"].update(policy=0, hot_denom=0, stall_denom=0)
    schedule_matters = not attempt(quiet, "schedule replaced by run-to-block")
    if schedule_matters:
        for k, v in (("stall_denom", 0), ("hot_denom", 0), ("policy", 3), ("mean_slice", 100000), ("ncpu", 1)):
            p = copy.deepcopy(best["plan"])
            if p["sim"].get(k) != v:
                p["sim"][k] = v
                attempt(p, f"sim.{k}={v}")
    shrink_lists(best, attempt, lambda: time.time() - t0 > limit)
    # explicit decision list
    if schedule_matters:
        r = fails(best["plan"], True)
        d = (r or {}).get("res") and r["res"].get("decisions")
        if d:
            p = copy.deepcopy(best["plan"])
            p["decisions"] = d
            if attempt(p, f"schedule as {len(d)} explicit decisions"):
                ddmin(best, attempt, lambda: time.time() - t0 > limit)
                log.append(f"{len(best['plan']['decisions'])} decisions left")
    # certify: same outcome twice
    t0 = time.time()
    limit = 60
    a, b = fails(best["plan"]), fails(best["plan"])
    log.append("replayed twice: " + ("identical" if a and b and a["hash"] == b["hash"] else "DIFFERENT"))
    out = {"plan": best["plan"], "log": log, "original": original if original is not best["plan"] else None}
    if a:
        out.update(hash=a["hash"], detail=a["detail"])
    return out

def lists(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            if k in ("cut", "dup", "decisions", "spawn", "alloc", "trace"):
                continue
            yield from lists(v, path + (k,))
    elif isinstance(o, list):
        if path and len(o) > 0:
            yield path
        for i, v in enumerate(o):
            yield from lists(v, path + (i,))

def get(o, path):
    for p in path:
        o = o[p]
    return o

def shrink_lists(best, attempt, over):
    progress = True
    rounds = 0
    while progress and not over() and rounds < 4:
        progress = False
        rounds += 1
        for path in sorted(lists(best["plan"]), key=len):
            if path == ("blobs",):
                continue
            try:
                cur = get(best["plan"], path)
            except Exception:
                continue
            n = len(cur) if isinstance(cur, list) else 0
            size = max(1, n)
            while size >= 1 and not over():
                i = 0
                while True:
                    try:
                        cur = get(best["plan"], path)
                    except Exception:
                        break
                    if i >= len(cur):
                        break
                    p = copy.deepcopy(best["plan"])
                    del get(p, path)[i:i + size]
                    if attempt(p, f"dropped {'/'.join(map(str, path))}[{i}:{i+size}]"):
                        progress = True
                    else:
                        i += size
                    if over():
                        break
                size //= 2
        # simpler blobs
        for i, b in enumerate(best["plan"].get("blobs", [])):
            for k in (3, 5, 8):
                if b["k"] not in (3, 5, 8) and not over():
                    p = copy.deepcopy(best["plan"])
                    p["blobs"][i] = {"k": k, "s": 1}
                    if attempt(p, f"blob {i} -> kind {k}"):
                        progress = True
                        break

def ddmin(best, attempt, over):
    n = 2
    while not over():
        d = best["plan"]["decisions"]
        if len(d) < 2:
            break
        size = max(1, len(d) // n)
        done = False
        for i in range(0, len(d), size):
            if over():
                break
            p = copy.deepcopy(best["plan"])
            p["decisions"] = d[:i] + d[i + size:]
            if p["decisions"] and attempt(p, "decisions"):
                done = True
                n = max(2, n - 1)
                break
        if not done:
            if size == 1:
                break
            n = min(len(d), n * 2)
