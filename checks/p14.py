"""P14: witness generators. spec/ProveAlg.tla (exponent-level algorithm, pause/resume/stop) checked exhaustively;
recorded runs of every generator of the code validated against the group specification (ApiTrace 'segment')."""
import os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = """SPECIFICATION %s
CONSTANTS Ts = {%s}
 Ks = {%s}
 Ls = {%s}
 Bs = {%s}
INVARIANTS Canonical OnlyDoneDelivers %s
%s
CHECK_DEADLOCK TRUE
"""


def model(c):
    r = lambda a, b: ",".join(map(str, range(a, b)))
    th = c.thorough
    jobs = [
        ("Spec", r(1, 16 if th else 12), "1,2", "1,2,3", "5,7", "", ""),
        ("Spec", r(1, 18 if th else 14), "2,3", "1,2", "11,13", "", ""),
        ("Spec", r(9, 21 if th else 15), "2", "4" if not th else "3,4,5", "5,7", "", ""),
        ("Spec", r(1, 14 if th else 9), "1,2,3", "1,2,3", "17,19,23", "DigitInRange ReadsInside DroppedAreZero", ""),
        ("Fair", r(1, 9), "1,2", "1,2", "5", "", "PROPERTY Progress"),
    ]
    def one(j):
        return c.model("ProveAlg", MODEL % (j[0], j[1], j[2], j[3], j[4], j[5], j[6]), workers=2, timeout=800).distinct
    n = parallel([lambda j=j: one(j) for j in jobs], 4)
    c.extra["model_states"] = sum(n)


def run(c):
    import threading
    exe = c.build("prover", ["prover.cpp"], vdf=True)
    c.java()
    merr = []
    def mt():
        try: model(c)
        except Exception as e: merr.append(e)
    th = threading.Thread(target=mt); th.start()

    def one(k):
        rng = random.Random("%d/p14/%d" % (c.seed, k))
        srv = api.Server(exe, timeout=240)
        ev, bad, seen = [], [], {}

        def go(kind, D, f, T, h, line, x=None, may_stop=False):
            out = srv.call(line)
            seen[kind] = seen.get(kind, 0) + 1
            p = out.split()
            if len(p) < 4 or p[0].startswith("throw") or out.startswith(("HANG", "CRASH")):
                bad.append((kind, "%s -> %s" % (line[:200], out[:200]))); return
            if len(p) > 4: bad.append((kind, "%s -> %s" % (line[:200], " ".join(p[4:]))))
            if p[1] == "1":
                a, b = p[2].split(",")
                ev.append({"op": "segment", "D": hx(D), "f": p[0].split(","), "T": hx(T), "h": hx(h), "a": a, "b": b, "c": p[3] == "1", "impl": line.split(" ", 1)[0] + " " + " ".join(line.split()[3:])})
            elif not may_stop: bad.append((kind, "%s did not finish: %s" % (line[:200], out[:200])))
            return p[1] == "1"
        D_small = []
        for bits in (24, 33, 40):
            D = api.rand_disc(rng, bits); f = api.rand_form(rng, D) if rng.random() < .5 else (2, 1)
            D_small.append((D, f, api.order_multiple(D, f)))
        n = 400 if c.thorough else 70
        # sequential and parallel generators: every (k, l) up to bounds, all residues of T
        for t in range(n):
            D, f, h = rng.choice(D_small)
            kk = rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 12, 13)); l = rng.choice((1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 31))
            base = rng.choice((264, 300, 500, 1000, 3000))
            T = base // (kk * l) * (kk * l) + rng.choice((0, 1, kk - 1, kk, kk * l - 1, rng.randrange(kk * l)))
            if T < 1: T = 1
            if t % 10 == 0: T = rng.randrange(1, 300)
            for kind in ("seq", "par"):
                go(kind, D, f, T, h, "%s %s %s %d %d %d -1" % (kind, hx(D), fs(f), T, kk, l))
        # stop at any step: never a finished proof unless it ended before
        D, f, h = D_small[0]
        for t in range(30 if not c.thorough else 200):
            kk = rng.choice((2, 4, 6)); l = rng.choice((1, 2, 3)); T = rng.randrange(270, 900)
            total = (T // kk) + 3 * l * (1 << kk)
            for kind in ("seq", "par"):
                go(kind, D, f, T, h, "%s %s %s %d %d %d %d" % (kind, hx(D), fs(f), T, kk, l, rng.randrange(0, total) if rng.random() < .8 else rng.randrange(max(0, T // kk - 3), T // kk + 4)), may_stop=True)
        for t in range(4):
            go("seq", D, f, 500, h, "seq %s %s 500 4 2 0" % (hx(D), fs(f)), may_stop=True)
        # simple-mode parameters
        for T in [rng.randrange(1, 400), rng.randrange(400, 5000), 65535 - rng.randrange(3), 65536 + rng.randrange(30), rng.randrange(65536, 300000)]:
            D, f, h = rng.choice(D_small)
            go("one", D, f, T, h, "one %s %s %d -1" % (hx(D), fs(f), T))
            if go("one", D, f, T + 300, h, "one %s %s %d %d" % (hx(D), fs(f), T + 300, rng.randrange(20)), may_stop=True): bad.append(("one", "finished although it was stopped"))
        if k == 6:
            T = 10000000 + rng.randrange(300)          # several residue classes in simple mode
            D, f, h = D_small[0]
            go("one", D, f, T, h, "one %s %s %d -1" % (hx(D), fs(f), T))
        # pausable generator: bucket sizes of n-Wesolowski, at several positions, paused and resumed
        runs = {0: [(0, 65536), (65536, 65536)], 1: [(3 << 16, 65536), (0, 1 << 18)], 2: [(1 << 18, 1 << 18)], 3: [(0, 1 << 20)], 4: [(0, 1 << 22)],
                5: [(2 << 18, 1 << 18), (7 << 16, 65536)], 6: [(5 << 16, 65536)], 7: [(1 << 20, 1 << 20)]}[k]
        for (start, T) in runs + ([(rng.randrange(6) << 16, 65536), (rng.randrange(3) << 18, 1 << 18)] if c.thorough else []):
            D, f, h = rng.choice(D_small)
            reads = T // (10 if T <= 65536 else 12)
            ps = sorted(rng.sample(range(reads), 6)) + [reads - 1]
            go("int", D, f, T, h, "int %s %s %d %d %s -1" % (hx(D), fs(f), start, T, ",".join(map(str, sorted(set(ps))))))
            if T <= 1 << 18: go("int", D, f, T, h, "int %s %s %d %d - %d" % (hx(D), fs(f), start, T, rng.randrange(reads)), may_stop=True)
        Db = api.rand_disc(rng, [64, 128, 256, 512, 768, 1000, 1023, 1024][k]); fb = api.rand_form(rng, Db)
        for kind in ("seq", "par"):
            T = rng.randrange(264, 1200 if k < 3 else 700); kk = rng.choice((2, 5, 10)); l = rng.choice((1, 2, 5))
            go(kind, Db, fb, T, 0, "%s %s %s %d %d %d -1" % (kind, hx(Db), fs(fb), T, kk, l))
        go("one", Db, fb, 600 + k, 0, "one %s %s %d -1" % (hx(Db), fs(fb), 600 + k))
        if k in (0, 7):                                 # the 2-Wesolowski generator on its storage
            for (start, T) in ((0, 3000 + rng.randrange(100)), (1700, 2000 + rng.randrange(100)), (100, 100), (12300, 10 * rng.randrange(30, 200))):
                D, f, h = rng.choice(D_small)
                go("two", D, f, T, h, "two %s %s %d %d -1" % (hx(D), fs(f), start, T))
            D, f, h = D_small[0]
            if go("two", D, f, 3000, h, "two %s %s 500 3000 %d" % (hx(D), fs(f), rng.randrange(200)), may_stop=True): bad.append(("two", "finished although it was stopped"))
        if k == 5:                                      # several residue classes
            T = 10000000 + rng.randrange(100); D, f, h = D_small[0]
            go("two", D, f, T, h, "two %s %s 700 %d -1" % (hx(D), fs(f), T))
        srv.close()
        path = os.path.join(c.work, "g%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, len(ev), bad, seen, ev[7]
    g = vlib.forkmap(one, range(8), 8)
    c.sample(g[0][4])
    for x in g:
        for kind, b in x[2]: c.violate("%s generator: %s" % (kind, b), key=kind)

    def check(x):
        why = c.validate("ApiTrace", CFG, x[0], n=x[1])
        if why: c.violate("witness is not the canonical one: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    th.join()
    if merr: raise merr[0]
    tot = {}
    for x in g:
        for kk, v in x[3].items(): tot[kk] = tot.get(kk, 0) + v
    c.extra["runs_by_generator"] = tot
