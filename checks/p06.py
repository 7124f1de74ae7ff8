"""P06: one-call proving (ProveSlow): canonical output and witness for every iteration count; shutdown file."""
import os, random, threading, time
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def run(c):
    exe = c.build("api", ["api.cpp"], opt="-O2")
    c.java()

    def one(k):
        rng = random.Random("%d/p06/%d" % (c.seed, k))
        srv = api.Server(exe, timeout=300)
        ev = []

        def prove(D, x, T, h, path="-"):
            out = srv.call("prove %s %s %s %s" % (hx(D), fs(x), hx(T), path))
            if out != "empty" and not out.startswith(("throw", "HANG", "CRASH")):
                ev.append({"op": "prove", "D": hx(D), "f": fj(x), "T": hx(T), "h": hx(h), "out": out})
            else: ev.append({"op": "prove", "D": hx(D), "f": fj(x), "T": hx(T), "h": hx(h), "out": "", "raw": out})
        # small groups: every count of an interval, counts around block boundaries, long runs
        for bits in (17, 24, 31, 32, 33, 40):
            D = api.rand_disc(rng, bits)
            x = rng.choice([(2, 1), api.rand_form(rng, D), (2, 1)])
            h = api.order_multiple(D, x)
            base = 40 * k
            for T in range(base, base + 40, 1 if c.thorough or bits in (24, 33) else 5): prove(D, x, T, h)
            for _ in range(12): prove(D, x, rng.randrange(300, 40000), h)
            prove(D, x, 65536 + rng.randrange(-2, 3), h)
            prove(D, api.reduce(D, x[0], -x[1]), rng.randrange(1000), h)
            prove(D, (1, 1), rng.randrange(1000), 1)
        # production sizes
        for bits in ([48, 64, 96, 128, 192, 256, 384, 512][k], [1024, 640, 1000, 1016, 768, 896, 1023, 1024][k]):
            D = api.rand_disc(rng, bits)
            for T in (0, 1, rng.randrange(2, 20), rng.randrange(260, 270), rng.randrange(300, 900 if bits > 256 else 3000)):
                prove(D, rng.choice([(2, 1), api.rand_form(rng, D)]), T, 0)
        # several residue classes (l > 1) appear only above about ten million squarings
        if k == 0 or c.thorough:
            D = api.rand_disc(rng, 17 + k); h = api.order_multiple(D, (2, 1))
            prove(D, (2, 1), 10000000 + rng.randrange(200), h)
            prove(D, (2, 1), 10000000 + rng.randrange(200000), h)
        # the shutdown file: present -> the proof, absent -> nothing
        f = os.path.join(c.work, "run%d" % k)
        open(f, "w").close()
        D = api.rand_disc(rng, 33); h = api.order_multiple(D, (2, 1))
        for T in (0, 5, 65536, 65537, 200000): prove(D, (2, 1), T, h, f)
        bad = []
        for T in (1, 5, 65536, 70000):
            out = srv.call("prove %s 2,1 %s %s" % (hx(D), hx(T), f + ".absent"))
            if out != "empty": bad.append("proof of %d iterations with an absent shutdown file returns %s" % (T, out[:80]))
        if k < 4:
            threading.Timer(0.3 * (k + 1), lambda: os.unlink(f)).start()
            t = time.time()
            out = srv.call("prove %s 2,1 %s %s" % (hx(D), hx(1 << 25), f), timeout=100)
            if out != "empty": bad.append("removing the shutdown file during proving: %s after %.1f s" % (out[:80], time.time() - t))
        srv.close()
        path = os.path.join(c.work, "p%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, len(ev), ev[5], bad
    g = vlib.forkmap(one, range(8), 8)
    c.sample(g[0][2])
    for x in g:
        for b in x[3]: c.violate(b, key="shutdown")

    def check(x):
        why = c.validate("ApiTrace", CFG, x[0], n=x[1])
        if why: c.violate("one-call proof: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.extra["recorded_calls"] = sum(x[1] for x in g)
