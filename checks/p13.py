"""P13: simple (1-Wesolowski) mode: stored powers, result and proof for exactly the requested count; stop at any moment."""
import json, os, random, time
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\nCONSTANTS T = %d\n Stride = %d\n Batch = %d\n Seg = %d\n Steps = 3\nINVARIANTS Ready OnlyMultiples Answer\nPROPERTY Ends\n"


def run(c):
    exe = c.build("oneweso", ["oneweso.cpp"], vdf=True)
    c.java()
    for T, s, b, g in ((7, 2, 3, 4), (10, 3, 4, 5), (1, 2, 3, 4), (12, 4, 5, 3)) if not c.thorough else [(T, s, b, g) for T in (1, 5, 11, 16) for s in (1, 3, 4) for b in (1, 3, 6) for g in (4, 7)]:
        c.model("OneWeso", MODEL % (T, s, b, g))

    def one(k):
        rng = random.Random("%d/p13/%d" % (c.seed, k))
        srv = api.Server(exe, timeout=200)
        ev, bad, runs = [], [], [0]

        def go(D, x, h, T, script, stop="-", par=0, samples=400):
            if any(b[0] in ("fails", "stop-hangs") for b in bad): return
            runs[0] += 1
            line = "%s %s %d %s %s %d %d %d" % (hx(D), fs(x), T, script, stop, par, samples, rng.randrange(1 << 40))
            what = "simple mode, %d iterations, batches %s, stop %s" % (T, script, stop)
            for attempt in range(2):
                t = time.time(); out = srv.call(line, timeout=40 if stop[0] in "bwp" else 150)
                if not out.startswith(("HANG",)): break
            if not out.startswith("{"):
                bad.append(("stop-hangs" if out.startswith("HANG") and stop[0] in "bwp" else "fails", "%s: %s (D=%s x=%s)" % (what, out[:200], hx(D), fs(x)))); return
            r = json.loads(out)
            if r["stopped"]:
                # a stop that comes after the proof was complete may still deliver it: then it is the right one
                if r["proof"]: ev.append({"op": "one", "D": hx(D), "f": fj(x), "h": hx(h), "T": hx(T), "out": r["proof"]})
                return
            if r["wt"] != 0: bad.append(("witness-type", "%s: witness type %d" % (what, r["wt"])))
            pre = {"D": hx(D), "f": fj(x), "h": hx(h)}
            if h == 0:
                # order unknown: walk through the stored powers in order
                idx = [s for s in r["stored"]]
                es = [s[0] * r["kl"] for s in idx]; outs = [s[1:] for s in idx]
                es.append(T); outs.append(r["res"])
                if es[0] == 0: es, outs = es[1:], outs[1:]
                ev.append(dict(pre, op="seqpow", es=es, outs=outs))
            else:
                ev.append(dict(pre, op="group"))
                for s in r["stored"]: ev.append(dict(pre, op="pow", e=hx(s[0] * r["kl"]), out=s[1:]))
                ev.append(dict(pre, op="pow", e=hx(T), out=r["res"]))
            ev.append(dict(pre, op="one", T=hx(T), out=r["proof"]))
        # every small count in turn; counts around strides, batches, checkpoints and the parameter change at 2^16
        for bits in (24, 32):
            D = api.rand_disc(rng, bits); x = rng.choice([(2, 1), api.rand_form(rng, D)]); h = api.order_multiple(D, x)
            for T in range(1 + 13 * k, 14 + 13 * k): go(D, x, h, T, "J")
            for T in [rng.randrange(2, 2000) for _ in range(6)] + [9999 + k, 10000, 10001, 32767, 32768, 32769, 65530 + rng.randrange(6), 65535, 65536, 65537, 65536 + rng.randrange(100), rng.randrange(70000, 400000)]:
                go(D, x, h, T, rng.choice(["J", "e%d,J" % rng.randrange(10000), "E333,X500,J", "J,X900,e%d,J" % rng.randrange(10000), "J,J,E0,J"]))
        go(D, x, h, rng.randrange(400000, 3000000), "J,E10,J")
        if k == 0 or c.thorough: go(D, x, h, 10000000 + rng.randrange(1000000), "J")       # several residue classes
        # the real two-thread batches
        for bits, T in ((rng.choice([160, 192, 256]), rng.randrange(1, 4000)), (rng.choice([512, 768, 1024]), rng.randrange(1, 1200)), (1024, rng.randrange(1, 300))):
            D2 = api.rand_disc(rng, bits)
            go(D2, rng.choice([(2, 1), api.rand_form(rng, D2)]), 0, T, "R", par=rng.randrange(2), samples=60)
        # the proving thread looks when almost all is done, and everything but the last squarings is published
        for d in [1, rng.choice([1, 2, 3, rng.randrange(1, 40)])]:
            base = rng.choice([0, 0, 40000]); T = base + rng.randrange(d + 2, 9000)
            go(D, x, h, T, "J," * (base // 10000) + "e%d,J" % (T - base - d - 1), "h1300", 1)
        # proving started before the squarings, and stopping at any moment
        go(D, x, h, rng.randrange(70000, 200000), "J", par=1)
        for _ in range(4 if not c.thorough else 20):
            T = rng.choice([rng.randrange(1, 3000), rng.randrange(30000, 300000)])
            go(D, x, h, T, "J,E500,J", "b%d" % rng.randrange(0, 1 + T // 10000), rng.randrange(2))
        # a stop while the witness is being computed (it takes seconds for counts of this size)
        go(D, x, h, 6000000 + rng.randrange(100000), "J", "w%d" % rng.choice([900, 1300, 1700, 2500]), 1)
        go(D, x, h, 6000000 + rng.randrange(100000), "J", "w%d" % rng.choice([1500, 2000]), 0)
        srv.close()
        path = os.path.join(c.work, "o%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, len(ev), bad, runs[0], ev[-1]
    g = vlib.forkmap(one, range(8), 8)
    c.sample(str(g[0][4])[:400])
    for x in g:
        for key, b in x[2]: c.violate(b, key=key)

    def check(x):
        why = c.validate("StoreTrace", TCFG, x[0], n=x[1])
        if why: c.violate("simple mode: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.extra["runs"] = sum(x[3] for x in g)
