#!/usr/bin/env python3
"""determinism.py [PROP…] [--n N]: the same seeds, executed twice in separate processes (template built anew), must give the same hash."""
import sys, os, hashlib, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "driver"))
from check import SIMPROPS, binary, build
from server import Server
from templates import templates
args = [a for a in sys.argv[1:] if not a.startswith("--")]
n = int(sys.argv[sys.argv.index("--n") + 1]) if "--n" in sys.argv else 6
if "--n" in sys.argv:
    args.remove(str(n))
bad = total = 0
for prop in args or SIMPROPS:
    ts = templates(prop, 77, 8, "quick")
    build(sorted({k for k, _ in ts}))
    def run(w, out):
        s = Server(binary(ts[w][0]), ts[w][1])
        s.wait_ready()
        for i in range(n):
            seed = int.from_bytes(hashlib.sha256(f"det/{prop}/{w}/{i}".encode()).digest()[:7], "big")
            st, af, plan, res = s.gen(prop, seed, "quick")
            out[w, i] = (st, af, hashlib.sha256(plan.encode()).hexdigest()[:12], (res or {}).get("hash"))
        s.close()
    outs = []
    for rnd in range(2):
        o = {}
        th = [threading.Thread(target=run, args=(w, o)) for w in (range(8) if rnd == 0 else reversed(range(8)))]
        [t.start() for t in th]
        [t.join() for t in th]
        outs.append(o)
    diff = [k for k in outs[0] if outs[0][k] != outs[1][k]]
    total += len(outs[0]); bad += len(diff)
    print(prop, len(outs[0]), "runs executed twice in separate processes,", len(diff), "different", [(k, outs[0][k], outs[1][k]) for k in diff[:3]], flush=True)
print(total, "plans,", bad, "different")
sys.exit(1 if bad else 0)
