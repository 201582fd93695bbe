"""Deployments: which contexts each worker's template holds."""
import random

THREADS = [-1, 0, 1, 2, 3, 4, 8, 13]
WIDTHS = [0, 0, 2, 3, 4, 5, 6, 8]
NCPU = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16]

def ctx(r, widths=WIDTHS, threads=THREADS):
    return {"threads": r.choice(threads), "width": r.choice(widths), "ncpu": r.choice(NCPU)}

def templates(prop, seed, n, tier):
    out = []
    for w in range(n):
        r = random.Random(f"{prop}/{seed}/{w}")
        t = {"kind": "rust", "tau": r.randrange(1 << 48), "ctxs": [], "seed": r.randrange(1 << 48), "policy": r.choice([0, 1, 1, 2, 3]), "prestart": False, "ncpu": r.choice(NCPU)}
        bin_ = "mt"
        if prop in ("C01", "C02"):
            t["ctxs"] = [ctx(r, [4, 5, 6, 8]), ctx(r, [0, 2, 3, 4, 6])]
            if w % 8 == 7:
                bin_ = "st"
        elif prop in ("C03", "C04"):
            t["ctxs"] = [ctx(r, [0, 2, 4]), ctx(r, [0, 3, 4, 6])]
            if w % 8 == 7:
                bin_ = "st"
        elif prop == "C05":
            t["ctxs"] = [ctx(r, [4, 6, 8], [1, 2, 2, 3, 4]), ctx(r, [0, 4, 5], [-1, 1, 2, 8])]
        elif prop == "C06":
            if w % 8 == 7:
                bin_ = "st"
                t["ctxs"] = [ctx(r, [0]), ctx(r, [2, 3, 4]), ctx(r, [5, 6, 7, 8])]
            elif w % 8 == 6:
                t["tau"] = None
                t["ctxs"] = [ctx(r, [8]), ctx(r, [0]), ctx(r, [3, 4, 5])]
            else:
                ws = [[0, 1, 2], [3, 4, 9], [8, 5, 0], [6, 7, 0], [2, 8, 4], [0, 5, 10 if tier == "thorough" else 6]][w % 8]
                t["ctxs"] = [ctx(r, [x]) for x in ws]
        elif prop == "C07":
            t["ctxs"] = [ctx(r, [4, 6, 8]), ctx(r, [0, 3])]
            if w % 8 == 7:
                bin_ = "st"
        elif prop == "C09":
            t["prestart"] = True
            t["ctxs"] = [ctx(r, [4, 6], [1, 1, 2, 3]), ctx(r, [0, 4], [-1, 0, 2, 8]), ctx(r, [0, 2], [1, 2, 4])]
        elif prop == "C10":
            if w % 4 == 3:
                t["ctxs"] = []          # nothing started yet when threads are refused
            else:
                t["prestart"] = w % 4 != 1
                t["ctxs"] = [ctx(r, [0, 4], [1, 2, 4]), ctx(r, [4], [-1, 2])]
        elif prop == "C08":
            t.update(kind="capi", tau=None)
            t["ctxs"] = [{"threads": r.choice([0, 1, 2, 4]), "width": 8 if w % 2 else 0, "ncpu": r.choice(NCPU)}]
        elif prop == "C12":
            t.update(kind="java", tau=None)
            t["ctxs"] = [{"threads": r.choice([0, 1, 2, 4]), "width": 8 if w % 2 else 0, "ncpu": r.choice(NCPU)}]
        elif prop == "C14":
            t.update(kind="node", tau=None)
            t["ctxs"] = [{"threads": r.choice([0, 1, 2, 4]), "width": 8 if w % 2 else 0, "ncpu": r.choice(NCPU)}]
        elif prop == "C16":
            bin_ = "blkst" if w % 8 == 7 else "blk"
        elif prop == "C11":
            t.update(kind="setup", tau=None if w % 4 == 3 else t["tau"])
        out.append((bin_, t))
    return out
