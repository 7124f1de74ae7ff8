"""P03: hash-to-prime streams, discriminants and challenges vs spec/Weso.tla (HashPrime, CreateDiscriminant, GetB)."""
import os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
# composites that defeat weaker tests: strong pseudoprimes to base 2, Lucas(-V) pseudoprimes, Carmichael numbers
SPSP = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1093 ** 2, 3511 ** 2,
        3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461, 3317044064679887385961981]
LPSP = [913, 150267, 430127, 1800187, 323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839, 16109, 16211, 18407, 18971, 19043,
        5459, 5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439]
CARM = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 825265, 321197185, 9746347772161, 1436697831295441, 60977817398996785]


def probable_prime(rng, bits):
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        if api.is_prime(p): return p


def next_spsp2(rng, bits):
    """composite (k+1)(2k+1) with both factors prime: the shape of most base-2 strong pseudoprimes"""
    h = bits // 2
    while True:
        k = rng.getrandbits(h) | (1 << (h - 1))
        k &= ~1
        if api.is_prime(k + 1) and api.is_prime(2 * k + 1): return (k + 1) * (2 * k + 1)


def run(c):
    exe = c.build("api", ["api.cpp"], opt="-O2")
    c.java()
    NT = 8

    def one(k):
        rng = random.Random("%d/p03/%d" % (c.seed, k))
        srv = api.Server(exe, timeout=120)
        ev = []

        def disc(seed, bits):
            out = srv.call("disc %s %d" % (seed.hex() or "-", bits))
            ev.append({"op": "disc", "seed": seed.hex(), "bits": bits, "out": "reject" if out.startswith("throw") else out})

        def hp(seed, bits, mask):
            out = srv.call("hashprime %s %d %s" % (seed.hex(), bits, " ".join(map(str, mask))))
            ev.append({"op": "hashprime", "seed": seed.hex(), "bits": bits, "mask": mask, "out": out})

        def prime(n):
            ev.append({"op": "prime", "n": hx(n), "out": srv.call("prime " + hx(n))})
        # every admissible size at least once, seeds of many lengths incl. carry propagation and wrap of the counter
        seeds = [b"\0\0", b"\xff\xff", b"\xff" * 32, b"\0" * 32, b"\xff" * 31 + b"\xfe", b"\0\xff\xff", b"\x7f" + b"\xff" * 9]
        reps = 6 if c.thorough else 1
        for bits in range(8 * (k + 1), 1025, 8 * NT):
            for _ in range(reps):
                disc(bytes(rng.randrange(256) for _ in range(rng.choice([2, 2, 3, 4, 8, 16, 31, 32, 33, 55, 56, 63, 64, 65, 100, 119, 120, 200]))), bits)
            disc(rng.choice(seeds), bits)
        for s in seeds:
            disc(s, rng.choice([16, 64, 256, 512, 1024]))
            hp(s, 264, [263])
        for _ in range(6): disc(bytes(rng.randrange(256) for _ in range(32)), 1024)
        disc(bytes([rng.randrange(256)]), rng.choice([16, 24]))
        for bits in (0, -8, -1, 1, 7, 9, 12, 100, 1023, 1025, 1032, 2048, 4096, 1 << 20, -(1 << 31), (1 << 31) - 1): disc(b"seed", bits)
        for bits in (8, 512, 1024, 0, 12, 1032): disc(b"", bits)
        for _ in range(10 if not c.thorough else 60):
            bits = rng.choice([16, 32, 64, 128, 136, 256, 264, 272, 512])
            hp(bytes(rng.randrange(256) for _ in range(rng.randrange(2, 70))), bits, sorted(rng.sample(range(bits), rng.randrange(0, 4))))
        # the primality decision
        step = 4000 if not c.thorough else 40000
        lo = k * step
        for a in range(lo, lo + step, 2000):
            out = srv.call("primes %d %d" % (a, a + 1999))
            ev.append({"op": "primes", "lo": a, "hi": a + 1999, "out": [int(x) for x in out.split()] if out != "none" and out[:1].isdigit() else []})
        for n in (SPSP + LPSP + CARM)[k::NT]: prime(n); prime(n + 2)
        for bits in (17, 24, 32, 33, 48, 62, 64, 65, 100, 128, 129, 192, 256, 264, 320, 384, 448, 512, 576, 640, 704, 768, 832, 896, 960, 1000, 1016, 1023, 1024, 1025, 1040)[k % 4::4]:
            p = probable_prime(rng, bits)
            prime(p)
            if bits >= 34:
                q, r = probable_prime(rng, bits // 2), probable_prime(rng, bits // 2)
                prime(q * r); prime(q * q)
                sp = probable_prime(rng, 17); t = probable_prime(rng, bits - 17); prime(sp * t)
                # smallest factor around the limits of the product tables
                for f in (3, 7, 101, 239, 241, 251, 257, 4999, 16007, 65537)[rng.randrange(3)::3]:
                    prime(f * probable_prime(rng, max(17, bits - 13)))
            for _ in range(6): prime(rng.getrandbits(bits) | 1 | (1 << (bits - 1)))
            prime(rng.getrandbits(bits) & ~1)
            if bits <= 300: prime(next_spsp2(rng, bits))
        for e in (61, 89, 107, 127, 521, 607): prime(2 ** e - 1); prime(2 ** e + 1)
        for e in (5, 6, 7, 8, 9): prime(2 ** (2 ** e) + 1)
        # challenges of pairs of forms; unreduced representatives denote the same pair
        for bits in ([64, 256, 512, 1024, 200, 1000, 768, 48][k], 1024):
            D = api.rand_disc(rng, bits)
            pool = [api.rand_form(rng, D), api.rand_form(rng, D), (1, 1), (2, 1)]
            for i in range(4):
                for j in range(4):
                    f, g = pool[i], pool[j]
                    ff = (f[0], f[1] + 2 * f[0] * rng.randrange(-2, 3))
                    out = srv.call("getb %s %s %s" % (hx(D), fs(ff), fs(g)))
                    ev.append({"op": "getb", "D": hx(D), "f": fj(f), "g": fj(g), "out": out})
        srv.close()
        path = os.path.join(c.work, "hp%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, len(ev), ev[3]
    gen = vlib.forkmap(one, range(NT), 8)
    c.sample(gen[0][2])

    def check(g):
        why = c.validate("ApiTrace", CFG, g[0], n=g[1])
        if why: c.violate("hash prime: " + why, key="trace")
    parallel([lambda g=g: check(g) for g in gen], 8)
    # a one-byte seed has a stream of period 256: when it holds no prime the call never returns
    s = api.Server(exe, timeout=4)
    if s.call("disc 00 1024") == "HANG":
        c.violate("CreateDiscriminant({0x00}, 1024) does not return: the counter wraps and the periodic stream holds no prime", key="disc:seed=00:bits=1024")
    s.close()
    c.extra["recorded_calls"] = sum(g[1] for g in gen)
    c.assumptions += ["BigInteger.isProbablePrime decides primality of the numbers tried (error < 2^-100)", "java MessageDigest implements SHA-256"]
