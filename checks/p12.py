"""P12: 2-Wesolowski mode: storage with growing stride over whole lives of the loop, requests of every kind, proofs."""
import os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\nCONSTANTS S1 = %d\n S2 = %d\n Switch = %d\n Max = %d\n Slack = %d\n Step = %d\n Batch = %d\n Big = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Exact OnlyKept Ordered\n"
SHAPES = [(1, 2, 92, 160, 20, 5, 3, 10), (1, 3, 120, 240, 42, 7, 4, 10)]
DEEP = [(2, 4, 184, 360, 60, 9, 5, 20), (1, 4, 200, 460, 90, 8, 6, 16), (2, 6, 240, 560, 110, 11, 7, 20)]


def lens_of(proof, T):
    """the segment lengths a blob claims, first segment first"""
    b = bytes.fromhex(proof)[200:]; out = []
    while len(b) >= 141: out.append(int.from_bytes(b[:8], "big")); b = b[141:]
    out.reverse()
    return out + [max(0, T - sum(out))]


def run(c):
    exe = c.build("twoweso", ["twoweso.cpp"], vdf=True)
    c.java()

    def one(k):
        rng = random.Random("%d/p12/%d" % (c.seed, k))
        ev, bad, n = [], [], [0, 0]

        def go(srv, D, x, h, limit, script, samples, reqs, timeout=300):
            if any(b[0] == "fails" for b in bad): return
            n[0] += 1
            line = "%s %s %d %s %d %d %s" % (hx(D), fs(x), limit, script, samples, rng.randrange(1, 1 << 40), reqs)
            what = "2-Wesolowski mode, loop to %d, batches %s, requests %s (D=%s x=%s)" % (limit, script, reqs[:200], hx(D), fs(x))
            out = srv.call_lines(line, timeout=timeout, last="end") if False else [srv.call(line, timeout=timeout)]
            while not out[-1].startswith(("end", "HANG", "CRASH")):
                try: r = srv.q.get(timeout=timeout)
                except Exception: r = "HANG"
                out.append("CRASH" if r is None else r)
            if not out[-1].startswith("end"): bad.append(("fails", "%s: %s" % (what, out[-1]))); srv.p and srv.p.kill(); srv.p = None; return
            for r in out[:-1]:
                t = r.split()
                if t[0] == "need":
                    n[1] += 1; ev.append({"op": "pow", "D": hx(D), "f": fj(x), "h": hx(h), "e": hx(int(t[1])), "out": t[2:4], "what": "lookup while the loop runs to %d" % limit})
                elif t[0] == "proof":
                    T = int(t[1])
                    if t[2] != "2": bad.append(("witness-type", "%s: witness type %s for %d" % (what, t[2], T)))
                    ls = lens_of(t[4], T)
                    if len(ls) != 3: bad.append(("parts", "%s: %d parts for %d" % (what, len(ls), T)))
                    if t[3] != "1": bad.append(("refused", "%s: the proof for %d iterations does not verify: %s" % (what, T, t[4])))
                    ev.append({"op": "multi", "D": hx(D), "f": fj(x), "h": hx(h), "T": hx(T), "lens": [hx(l) for l in ls], "out": t[4]})
                elif t[0] == "stopped":
                    if int(t[2]) > 15000: bad.append(("stop", "%s: %s ms to stop" % (what, t[2])))
                    if t[3] != "-":      # complete before the stop: then right
                        T = int(t[1]); ev.append({"op": "multi", "D": hx(D), "f": fj(x), "h": hx(h), "T": hx(T), "lens": [hx(l) for l in lens_of(t[3][1:], T)], "out": t[3][1:]})
                else: bad.append(("bad", "%s: %s" % (what, r)))
        D = api.rand_disc(rng, rng.choice([24, 32, 40]) if k else 24); x = (2, 1); h = api.order_multiple(D, x)
        ev.append({"op": "group", "D": hx(D), "f": fj(x), "h": hx(h)})
        srv = api.Server(exe, timeout=400)
        if k == 0:
            # the whole life of the loop, up to its own end
            go(srv, D, x, h, 0, "J", 4000 if not c.thorough else 40000, "799600000s100,%d@%ds50" % (rng.randrange(100000000, 790000000), 1), timeout=600)
        if k in (1, 2):
            # requests around the stride change, proved while it happens and later
            b = 90950000 + rng.randrange(20000)
            r = "%d@%dh%d,%d@%dh300" % (rng.choice([90999999, 91000000, 91000001, 91032769, 91000000 + rng.randrange(60000)]), rng.choice([100, b]), 1200, rng.randrange(300000, 4000000), b)
            if k == 2: r = "%d@%dh1500,%d@91200000" % (rng.randrange(60000000, 90000000), b, rng.randrange(91100000, 92000000))
            go(srv, D, x, h, rng.randrange(94000000, 95000000), rng.choice(["J", "J,J,e77,J,J,X500,J"]), 800, r, timeout=600)
        if k == 3:
            go(srv, D, x, h, 40000000, "J", 300, "%d@200,%d" % (rng.randrange(14900000, 15100000), rng.randrange(30000000, 38000000)), timeout=600)
            go(srv, D, x, h, 30000000, "J", 300, "28000000s%d" % rng.choice([1500, 2500, 4000]), timeout=300)
        if k == 4 and c.thorough:
            go(srv, D, x, h, rng.randrange(200000000, 700000000), "J", 20000, "%d" % rng.randrange(150000000, 190000000), timeout=850)
        # small counts: each one in turn; many together; while squaring and long after
        todo = list(range(1 + 40 * k, 41 + 40 * k)) + [rng.randrange(300, 40000) for _ in range(12)] + [32768 + k, 65536 + k, 100 * rng.randrange(3, 400)]
        for rounds in range(3 if not c.thorough else 12):
            rng.shuffle(todo)
            go(srv, D, x, h, 70000 + rng.randrange(40000), rng.choice(["J", "e%d,J" % rng.randrange(10000), "E500,X700,J,e0,J"]), 60, ",".join("%d%s" % (t, rng.choice(["", "@%d" % rng.randrange(60000), "@60000"])) for t in todo[rounds::3]))
        big = [rng.randrange(100000, 3000000) for _ in range(5)]
        go(srv, D, x, h, 3100000, rng.choice(["J", "J,J,E990"]), 60, ",".join("%d@%d" % (t, rng.choice([0, rng.randrange(3000000)])) for t in big))
        srv.close()
        path = os.path.join(c.work, "t%d.ndjson" % k); write_ndjson(path, ev)
        return path, len(ev), bad, n, ev[-1]
    models = [lambda s=s: c.model("TwoStore", MODEL % s) for s in SHAPES + (DEEP if c.thorough else [])]
    parallel(models, 4)
    g = vlib.forkmap(one, range(8), 8)
    c.sample(str(g[0][4])[:400])
    for x in g:
        for key, b in x[2]: c.violate(b, key=key)

    def check(x):
        why = c.validate("StoreTrace", TCFG, x[0], n=x[1])
        if why: c.violate("2-Wesolowski mode: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.extra["runs"] = sum(x[3][0] for x in g); c.extra["lookups"] = sum(x[3][1] for x in g)
