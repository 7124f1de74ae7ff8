"""P01: group operations vs spec/ClassGroup.tla.
 1. MCClassGroup: exhaustive model of all class groups of small discriminants (group laws, native/defn agreement);
    every transition is replayed into the real implementations.
 2. production-size calls of the real code recorded and validated by TLC against ApiTrace."""
import json, os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj


def parse_json_prints(out):
    for line in out.splitlines():
        if line.startswith('"{'):
            yield json.loads(json.loads(line))


def num(h): return int(h, 16)


def run(c):
    exe, = parallel([lambda: c.build("api", ["api.cpp"], opt="-O2")])
    c.java()
    # ---- 1. exhaustive small groups
    cfg = """SPECIFICATION Spec
CONSTANT Replay = TRUE
CONSTANT Ds <- %s
INVARIANTS Closed Agree Commutes Neutral Inverses Associative Lagrange Cancels RoundTrip Injective
CHECK_DEADLOCK FALSE
""" % ("DsThorough" if c.thorough else "DsQuick")
    r = c.model("MCClassGroup", cfg, workers=8 if c.thorough else 4, timeout=800)
    c.extra["small_group_states"] = r.distinct
    trans = list(parse_json_prints(r.out))
    if len(trans) < 500:
        raise vlib.MachineryError("too few replay transitions: %d" % len(trans))
    s = api.Server(exe)
    bad = 0

    def red(D, res):          # reduce a returned (possibly unreduced) form with the spec generator's arithmetic
        a, b = [int(x, 16) for x in res.split(",")]
        if a <= 0 or (b * b - D) % (4 * a): return None
        return api.reduce(D, a, b)

    calls = 0
    for t in trans:
        D = num(t["D"]); f = [num(x) for x in t["f"]]; g = [num(x) for x in t["g"]]
        fg = tuple(num(x) for x in t["fg"]); ff = tuple(num(x) for x in t["ff"])
        for op in ("nucomp", "nucompa", "nucompb", "mul"):
            out = s.call("%s %s %s %s" % (op, hx(D), fs(f), fs(g))); calls += 1
            p = out.split()
            if len(p) != 2 or p[1] != "ok" or red(D, p[0]) != fg:
                c.violate("%s of %s and %s at D=%d gives %s, the group product is %s" % (op, f, g, D, out, fg), key="small:%s:%s:%s:%s" % (op, D, f, g)); bad += 1
        if g == [1, 1]:
            for op in ("nudupl", "nudupla", "square", "orig") if api.is_prime(-D) else ("nudupl", "nudupla"):
                out = s.call("%s %s %s%s" % (op, hx(D), fs(f), " 1" if op == "orig" else "")); calls += 1
                p = out.split()
                if len(p) != 2 or p[1] != "ok" or red(D, p[0]) != ff:
                    c.violate("%s of %s at D=%d gives %s, the group square is %s" % (op, f, D, out, ff), key="small:%s:%s:%s" % (op, D, f)); bad += 1
        if bad > 20: break
    c.cov["traces_validated_against_impl"] += len(trans)
    c.extra["replayed_transitions"] = len(trans)
    c.extra["replayed_calls"] = calls
    c.sample({"replayed": trans[len(trans) // 2]})
    # ---- 2. recorded calls at production sizes
    n_traces = 8
    sizes = [32, 40, 63, 64, 65, 96, 127, 128, 129, 192, 255, 256, 257, 384, 511, 512, 513, 640, 768, 896, 1000, 1016, 1023, 1024]
    reps = 8 if c.thorough else 1
    jobs = []

    def one(k):
        rng = random.Random("%d/%d" % (c.seed, k))
        srv = api.Server(exe)
        ev = []

        def call(op, D, line, extra):
            out = srv.call(line)
            p = out.split()
            e = {"D": hx(D)}
            e.update(extra)
            if len(p) >= 2 and "," in p[0]:
                e["a"], e["b"] = p[0].split(",")
                e["c"] = p[1] == "ok"
            else:
                e["a"], e["b"], e["c"] = "0", "0", False
                e["raw"] = out
            e["impl"] = op
            ev.append(e)
            return e
        for rep in range(reps):
            for bits in (sizes[k::n_traces] + [1024]):
                D = api.rand_disc(rng, bits)
                fl = [api.rand_form(rng, D) for _ in range(2)]
                small = api.prime_form(rng, D, max(3, min(bits // 6, 40)))
                gen2 = api.sqn(D, (2, 1), rng.randrange(1, bits + 3))
                pool = fl + [api.reduce(D, *small), (1, 1), (2, 1), gen2, api.reduce(D, fl[0][0], -fl[0][1])]
                # same ideal class meeting with a common factor: f * h and f * h'
                q = api.prime_form(rng, D, max(3, bits // 8))
                common = [api.reduce(D, *q), api.compose(D, q, (2, 1))]
                # large common divisor of the first coefficients: powers of small forms stay unreduced-small
                p2 = api.power(D, (2, 1), rng.randrange(2, max(3, bits // 2 - 2)))
                p3 = api.power(D, (2, 1), rng.randrange(2, max(3, bits // 2 - 2)))
                pool += common + [p2, p3, api.reduce(D, p2[0], -p2[1])]
                pairs = [(0, 1), (0, 0), (0, 6), (2, 3), (3, 0), (4, 4), (4, 0), (5, 1), (7, 8), (9, 10), (9, 11), (9, 9), (10, 11), (8, 4), (1, 4)]
                for (i, j) in pairs:
                    f, g = pool[i], pool[j]
                    for op in ("nucomp", "nucompa", "nucompb", "mul"):
                        if op != "nucomp" and rng.random() < 0.5: continue
                        call(op, D, "%s %s %s %s" % (op, hx(D), fs(f), fs(g)), {"op": "compose", "f": fj(f), "g": fj(g)})
                for f in pool:
                    for op in ("nudupl", "nudupla", "square"):
                        call(op, D, "%s %s %s" % (op, hx(D), fs(f)), {"op": "square", "f": fj(f)})
                # unreduced operands: shifted and swapped representatives, products before reduction
                f = fl[0]
                a, b = f
                cc = (b * b - D) // (4 * a)
                for (ua, ub) in ((a, b + 2 * a * rng.randrange(-5, 6)), (cc, -b), (a, b + 2 * a * rng.getrandbits(bits // 2)), (cc, -b + 2 * cc * rng.getrandbits(9)),
                                 (a, b - 2 * a), (a, b + 2 * a)):
                    for op in ("pulmark", "reduce"):
                        call(op, D, "%s %s %s" % (op, hx(D), fs((ua, ub))), {"op": "reduce", "f": fj((ua, ub))})
                    isr = srv.call("isred %s %s" % (hx(D), fs((ua, ub))))
                    ev.append({"op": "isred", "D": hx(D), "f": fj((ua, ub)), "out": isr})
                # representative transformed by a random SL2(Z) matrix
                for nstep in (3, 12):
                    A, B = a, b
                    for _ in range(nstep):
                        B += 2 * A * rng.randrange(-9, 10)
                        C = (B * B - D) // (4 * A)
                        A, B = C, -B
                    for op in ("pulmark", "reduce"):
                        call(op, D, "%s %s %s" % (op, hx(D), fs((A, B))), {"op": "reduce", "f": fj((A, B))})
                call("inverse", D, "inverse %s %s" % (hx(D), fs(f)), {"op": "reduce", "f": fj((a, -b))})
                for e in (0, 1, 2, 3, rng.getrandbits(5), rng.getrandbits(17), rng.getrandbits(264), (1 << rng.randrange(2, 100)), (1 << rng.randrange(2, 100)) - 1):
                    g = pool[rng.randrange(len(pool))]
                    call("pow", D, "pow %s %s %s" % (hx(D), fs(g), hx(e)), {"op": "pow", "f": fj(g), "e": hx(e)})
                for n, every in ((rng.randrange(5, 60), 1), (rng.randrange(5, 40), rng.randrange(2, 6))):
                    g = pool[rng.randrange(len(pool))]
                    call("chain", D, "chain %s %s %d %d" % (hx(D), fs(g), n, every), {"op": "squaren", "f": fj(g), "n": n})
                n = rng.randrange(1, 30)
                g = pool[rng.randrange(len(pool))]
                call("orig", D, "orig %s %s %d" % (hx(D), fs(g), n), {"op": "squaren", "f": fj(g), "n": n})
        # skewed operands: the partial reduction meets quotients of any size
        for _ in range(4 * reps):
            bits = rng.choice((256, 384, 512)) if _ % 4 < 3 else rng.choice((768, 1024))
            lo, hi = bits // 4 + 2, bits // 2 - 6
            D, f = api.skew_square(rng, bits, rng.randrange(lo, hi if rng.random() < .5 else max(lo + 2, hi - 70)))
            for op in ("nudupl", "nudupla", "square"):
                call(op, D, "%s %s %s" % (op, hx(D), fs(f)), {"op": "square", "f": fj(f)})
            call("chain", D, "chain %s %s 3 1" % (hx(D), fs(f)), {"op": "squaren", "f": fj(f), "n": 3})
            D, f, g = api.skew_pair(rng, bits if bits < 768 else 512, rng.randrange(lo, hi if rng.random() < .5 else max(lo + 2, hi - 70)) if bits < 768 else 140)
            for op in ("nucomp", "nucompa", "nucompb", "mul"):
                call(op, D, "%s %s %s %s" % (op, hx(D), fs(f), fs(g)), {"op": "compose", "f": fj(f), "g": fj(g)})
                call(op, D, "%s %s %s %s" % (op, hx(D), fs(g), fs(f)), {"op": "compose", "f": fj(g), "g": fj(f)})
        # discriminants with small factors: first coefficients that share a factor with b, forms of order two
        for bits in rng.sample(sizes[1:], 5 * reps if reps == 1 else len(sizes) - 1):
            D, ps = api.composite_disc(rng, bits)
            pool = [api.rand_form(rng, D) for _ in range(2)] + [(1, 1)]
            for p in ps: pool.append((p, p)); pool.append(api.compose(D, (p, p), api.prime_form(rng, D, rng.randrange(2, max(3, bits // 5)))))
            pool.append(api.reduce(D, *api.compose(D, pool[3], pool[5]))); pool = [api.reduce(D, *f) for f in pool]
            for i in range(len(pool)):
                for op in ("nudupl", "nudupla"): call(op, D, "%s %s %s" % (op, hx(D), fs(pool[i])), {"op": "square", "f": fj(pool[i])})
                call("chain", D, "chain %s %s 5 1" % (hx(D), fs(pool[i])), {"op": "squaren", "f": fj(pool[i]), "n": 5})
                for j in rng.sample(range(len(pool)), 3) + [i]:
                    for op in ("nucomp", "mul"): call(op, D, "%s %s %s %s" % (op, hx(D), fs(pool[i]), fs(pool[j])), {"op": "compose", "f": fj(pool[i]), "g": fj(pool[j])})
                e = rng.getrandbits(40); call("pow", D, "pow %s %s %s" % (hx(D), fs(pool[i]), hx(e)), {"op": "pow", "f": fj(pool[i]), "e": hx(e)})
        # long squaring chains: rare quotients
        D = api.rand_disc(rng, 1024 if k % 2 else 512)
        n = 20000 if c.thorough else 3000
        call("chain", D, "chain %s 2,1 %d 1" % (hx(D), n), {"op": "squaren", "f": fj((2, 1)), "n": n})
        call("orig", D, "orig %s 2,1 %d" % (hx(D), n // 4), {"op": "squaren", "f": fj((2, 1)), "n": n // 4})
        srv.close()
        t = os.path.join(c.work, "calls%d.ndjson" % k)
        write_ndjson(t, ev)
        why = c.validate("ApiTrace", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", t, n=len(ev))
        if k == 0: c.sample(ev[3])
        if why:
            c.violate("group operation differs from the class group: " + why, key="call:%d" % k)
        return len(ev)
    n = sum(parallel([lambda k=k: one(k) for k in range(n_traces)], 8))
    c.extra["recorded_calls"] = n
    s.close()
    c.assumptions += ["java.math.BigInteger computes integer arithmetic; the native group operators agree with their TLA+ definitions (checked in the exhaustive model)"]
