"""P10: intermediate storage of n-Wesolowski mode: lookups, windows, slots, checkpoints; storing while squaring and by background workers."""
import os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\nCONSTANTS W = %d\n Half = %d\n Buckets = %d\n End = %d\n Workers = %d\n Mode = \"%s\"\n Factor = %d\nINVARIANT Exact\nCHECK_DEADLOCK FALSE\n"
SHAPES = [(3, 3, 2, 150, 0, "loop", 2), (2, 3, 3, 200, 0, "loop", 2), (3, 3, 2, 48, 2, "workers", 2), (2, 4, 2, 40, 3, "workers", 2)]
DEEP = [(4, 5, 3, 600, 0, "loop", 3), (3, 4, 2, 90, 3, "workers", 2), (4, 3, 3, 80, 3, "workers", 2), (3, 5, 2, 60, 4, "workers", 3)]


def run(c):
    exe = c.build("store", ["store.cpp"], vdf=True)
    c.java()
    parallel([lambda s=s: c.model("FastStore", MODEL % s) for s in SHAPES + (DEEP if c.thorough else [])], 4)

    def one(k):
        rng = random.Random("%d/p10/%d" % (c.seed, k))
        srv = api.Server(exe, timeout=300)
        ev, bad, n = [], [], [0, 0]

        def go(cmd, D, x, h, rest):
            if any(b[0] == "fails" for b in bad): return
            line = cmd % (hx(D), fs(x)); what = "intermediates, " + rest + " (D=%s x=%s)" % (hx(D), fs(x))
            out = srv.call_lines(line, timeout=300)
            if out[-1] != "end": bad.append(("fails", "%s: %s" % (what, out[-1]))); return
            n[0] += 1
            slots = {}
            for r in out[:-1]:
                t = r.split(); n[1] += 1
                if t[0] == "need": ev.append({"op": "pow", "D": hx(D), "f": fj(x), "h": hx(h), "e": hx(int(t[4])), "out": [t[5], t[6]], "bucket": int(t[1]), "start": t[2], "what": rest})
                elif t[0] == "cp": ev.append({"op": "pow", "D": hx(D), "f": fj(x), "h": hx(h), "e": hx(int(t[1])), "out": [t[2], t[3]], "what": "checkpoint, " + rest})
                elif t[0] == "slot": slots.setdefault("x", []).append([int(v) for v in t[1:]])
                elif t[0] == "note": bad.append(("note", "%s: %s" % (what, r)))
            for v in slots.values(): ev.append({"op": "slots", "b": [a[0] for a in v], "e": [str(a[1]) for a in v], "pos": [a[2] for a in v], "cap": v[0][3]})
        big = c.thorough
        for D in (api.rand_disc(rng, rng.choice([24, 32])),):
            x = (2, 1); h = api.order_multiple(D, x); ev.append({"op": "group", "D": hx(D), "f": fj(x), "h": hx(h)})
            S = lambda: rng.randrange(1, 1 << 40)
            scripts = ["J", "e%d,J" % rng.randrange(1, 10000), "E777,J,X500,J", "J,J,X990,e%d,J,E0,J" % rng.randrange(10000), "J,X1000,E999"]
            # storing while squaring: past several windows of the shorter lengths
            for seg, total, smp in ((1, rng.randrange(1, 70000), 3), (2, rng.randrange(1300000, 1700000), 1), (rng.randrange(1, 9), rng.randrange(65536, 900000), 2), (3, rng.randrange(5200000, 6000000), 1)):
                go("run %%s %%s %d %s %d %d %d" % (seg, rng.choice(scripts), total, smp, S()), D, x, h, "stored while squaring, %d lengths, %d squarings" % (seg, total))
            if k == 0 or big: go("run %%s %%s %d %s %d 1 %d" % (4, "J", rng.randrange(22000000, 24000000) if not big else 90000000, S()), D, x, h, "stored while squaring, long")
            # background workers
            for seg, total in ((1 + k % 3, rng.randrange(65536, 400000)), (rng.randrange(2, 9), rng.randrange(1400000, 2200000))):
                go("fs %%s %%s %d %s %d 6 %d" % (seg, rng.choice(scripts), total, S()), D, x, h, "recomputed by workers, %d lengths, %d squarings" % (seg, total))
            # long segments anywhere below the supported maximum of 2^34 squarings
            for b in range(8):
                top = 1 << (18 - 2 * b); cnt = min(24, top)
                s0 = rng.choice([0, top - cnt, rng.randrange(top - cnt + 1)])
                go("deliver %%s %%s 8 %d %d %d 8 %d" % (b, s0, cnt if b > 4 or big else 23, S()), D, x, h, "segments of 2^%d from number %d" % (16 + 2 * b, s0))
            for seg in (1, 2, 8, rng.randrange(1, 9)): go("slots %d %%s %%s 4000 %d" % (seg, S()), D, x, h, "storage slots, %d lengths" % seg)
        srv.close()
        # keep the validation within its time: every slots record, and of the lookups a sample that favours none of the runs
        keep = 9000 if not big else 60000
        recs = [e for e in ev if e["op"] == "pow"]
        if len(recs) > keep:
            # identical claims collapse first
            seen, out = set(), []
            for e in recs:
                key = (e["e"], tuple(e["out"]))
                if key not in seen: seen.add(key); out.append(e)
            recs = out
        if len(recs) > keep: recs = [recs[i] for i in sorted(rng.sample(range(len(recs)), keep))]
        ev2 = [e for e in ev if e["op"] != "pow"] + recs
        path = os.path.join(c.work, "s%d.ndjson" % k); write_ndjson(path, ev2)
        return path, len(ev2), bad, n, recs[-1]
    g = vlib.forkmap(one, range(8), 8)
    c.sample(str(g[0][4])[:400])
    for x in g:
        for key, b in x[2]: c.violate(b, key=key)

    def check(x):
        why = c.validate("StoreTrace", TCFG, x[0], n=x[1])
        if why: c.violate("stored intermediates: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.extra["runs"] = sum(x[3][0] for x in g); c.extra["lookups"] = sum(x[3][1] for x in g)
