"""P04/P05: verification of (n-)Wesolowski blobs vs spec/Weso.tla.
Valid blobs are built with the generator arithmetic; every kind of single-field corruption, re-segmentation,
boundary argument and constructed false statement is offered to the real verifier; TLC decides each verdict."""
import hashlib, os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj
from p02 import py_encode, raw

CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
U64 = 1 << 64


def enc(D, f):
    f = api.reduce(D, *f)
    if f[1] == 1 and f[0] <= 2: return bytes([8 if f[0] == 2 else 4]) + bytes(99)
    return py_encode(f[0], f[1], (-D).bit_length())


def hash_prime(seed, bits, mask):
    sprout = int.from_bytes(seed, "big"); n = len(seed)
    while True:
        blob = b""
        while len(blob) < bits // 8:
            sprout = (sprout + 1) % (1 << (8 * n))
            blob += hashlib.sha256(sprout.to_bytes(n, "big")).digest()
        p = int.from_bytes(blob[:bits // 8], "big") | 1
        for b in mask: p |= 1 << b
        if api.is_prime(p): return p


def get_b(D, x, y): return hash_prime(enc(D, x) + enc(D, y), 264, [263])


def prove(D, x, n):
    y = api.sqn(D, x, n); B = get_b(D, x, y)
    return y, B, api.power(D, x, (1 << n) // B)


def seg(n, B, p, D): return (n % U64).to_bytes(8, "big") + B.to_bytes(33, "big") + enc(D, p)


def chain(D, x, lens):
    """segments in order; blob = y, proof of the last, then the earlier ones backwards"""
    parts = []
    for n in lens:
        y, B, p = prove(D, x, n); parts.append((x, n, y, B, p)); x = y
    return parts


def blob(D, parts, onlyb=False):
    _, n, y, B, p = parts[-1]
    b = (b"" if onlyb else enc(D, y)) + enc(D, p)
    for (_, n, y, B, p) in reversed(parts[:-1]): b += seg(n, B, p, D)
    return b


def mutations(rng, b, base):
    """byte-level corruptions of a blob: every field of every segment"""
    segs = (len(b) - base) // 141
    offs = [0, base - 100] if base == 200 else [0]
    for o in offs:
        yield b[:o] + bytes([b[o] ^ (1 << rng.randrange(8))]) + b[o + 1:]
        j = o + rng.randrange(1, 100); yield b[:j] + bytes([b[j] ^ (1 << rng.randrange(8))]) + b[j + 1:]
    for s in range(segs):
        o = base + 141 * s
        for lo, hi in ((0, 8), (7, 8), (8, 41), (40, 41), (41, 42), (42, 141)):
            j = o + rng.randrange(lo, hi); yield b[:j] + bytes([b[j] ^ (1 << rng.randrange(8))]) + b[j + 1:]


class Rec:
    def __init__(self, exe, D):
        self.s = api.Server(exe); self.ev = []
        self.D = D; self.dens = 1.0; self.rng = None; self.must = False

    def skip(self):          # thin out the expensive sizes; calls under `must` are always made
        return not self.must and self.dens < 1 and self.rng.random() > self.dens

    def verdict(self, out):
        return "reject" if out.startswith("throw") else out

    def verifyn(self, xb, b, it, depth, bits=None):
        if self.skip(): return None
        D = self.D; bits = (-D).bit_length() if bits is None else bits
        out = self.verdict(self.s.call("verifyn %s %s %s %s %d %s" % (hx(D), xb.hex(), b.hex() or "-", hx(it), bits, hx(depth))))
        self.ev.append({"op": "verifyn", "D": hx(D), "x": xb.hex(), "blob": b.hex(), "iters": hx(it), "bits": min(bits, 1 << 20), "depth": hx(depth), "out": out}); return out

    def verify1(self, xb, yb, pb, it):
        if self.skip(): return None
        D = self.D
        out = self.verdict(self.s.call("verify1 %s %s %s %s %s" % (hx(D), xb.hex(), yb.hex(), pb.hex(), hx(it))))
        self.ev.append({"op": "verify1", "D": hx(D), "x": xb.hex(), "y": yb.hex(), "p": pb.hex(), "iters": hx(it), "out": out}); return out

    def discn(self, seed, bits, xb, b, it, depth):
        if self.skip(): return None
        out = self.verdict(self.s.call("discverifyn %s %d %s %s %s %s" % (seed.hex() or "-", bits, xb.hex(), b.hex() or "-", hx(it), hx(depth))))
        self.ev.append({"op": "discverifyn", "seed": seed.hex(), "bits": min(bits, 1 << 20), "x": xb.hex(), "blob": b.hex(), "iters": hx(it), "depth": hx(depth), "out": out}); return out

    def verifyb(self, B, xb, b, it, depth):
        if self.skip(): return {'out': '0'}
        D = self.D
        out = self.s.call("verifyb %s %s %s %s %s %s" % (hx(D), hx(B), xb.hex(), b.hex() or "-", hx(it), hx(depth)))
        p = out.split(" ")
        e = {"op": "verifyb", "D": hx(D), "B": hx(B), "x": xb.hex(), "blob": b.hex(), "iters": hx(it), "depth": hx(depth), "y": ""}
        if out.startswith("throw"): e["out"] = "reject"
        else:
            e["out"] = p[0]
            if p[0] == "1": e["y"] = p[1]
        self.ev.append(e); return e

    def getb(self, xb, b, it, depth):
        if self.skip(): return None
        D = self.D
        out = self.verdict(self.s.call("getbproof %s %s %s %s %s" % (hx(D), xb.hex(), b.hex() or "-", hx(it), hx(depth))))
        self.ev.append({"op": "getbproof", "D": hx(D), "x": xb.hex(), "blob": b.hex(), "iters": hx(it), "depth": hx(depth), "out": out}); return out


def forgeries(rng, D, x):
    """false statements that satisfy part of the equations"""
    n = rng.randrange(20, 90)
    y, B, p = prove(D, x, n)
    g = api.power(D, (2, 1), rng.getrandbits(40) + 2)
    out = []
    # y' = y*g with proof p: equation fails; proof scaled so that pi^B x^r = y' holds for the *old* challenge
    out.append((api.compose(D, y, api.power(D, g, B)), B, api.compose(D, p, g)))
    out.append((api.compose(D, y, g), B, p))
    # inverse output / inverse proof
    out.append((api.reduce(D, y[0], -y[1]), B, p))
    out.append((y, B, api.reduce(D, p[0], -p[1])))
    # proof for a neighbouring iteration count
    out.append((api.sqn(D, x, n + 1), B, p))
    # prover-chosen y: y = pi^B x^r for an arbitrary prime B
    B2 = hash_prime(bytes([rng.randrange(256) for _ in range(20)]), 264, [263]); pi = g
    y2 = api.compose(D, api.power(D, pi, B2), api.power(D, x, pow(2, n, B2)))
    out.append((y2, B2, pi))
    # small or structured challenges in a segment
    for Bs in (0, 1, 2, 3, 1 << 263, (1 << 264) - 1):
        y3 = api.compose(D, api.power(D, pi, Bs), api.power(D, x, pow(2, n, Bs) if Bs else 0))
        out.append((y3, Bs, pi))
    return n, out


def gen(c, exe, k, mode):
    rng = random.Random("%s/%s/%d" % (c.seed, mode, k))
    bits = [64, 128, 200, 256, 384, 512, 768, 1024][k]
    seed = bytes(rng.randrange(256) for _ in range(rng.randrange(2, 40)))
    D = -hash_prime(seed, bits, [0, 1, 2, bits - 1])
    R = Rec(exe, D); R.rng = rng
    if not c.thorough: R.dens = {512: .6, 768: .35, 1024: .22}.get(bits, 1.0)
    reps = (6 if c.thorough else 1) * (2 if bits <= 256 else 1)
    B_ = mode == "p05"
    for rep in range(reps):
        x = [(2, 1), api.rand_form(rng, D), (1, 1)][rng.choice([0, 0, 1, 1, 2])] if rep else (2, 1)
        xb = enc(D, x)
        lens = [rng.choice([1, 2, 3, 10, 33, 64, 100, 263, 264, 300, 400]) for _ in range(4)]
        for nseg in (1, 2, 3, 4):
            L = lens[:nseg]
            if nseg == 4 and rng.random() < .5: L[1] = 0      # an empty segment
            parts = chain(D, x, L)
            it = sum(L); depth = nseg - 1
            b = blob(D, parts, B_)
            base = 100 if B_ else 200
            B = parts[-1][3]
            if not B_:
                R.must = True
                R.verifyn(xb, b, it, depth)
                R.discn(seed, bits, xb, b, it, depth)
                R.must = False
                for d in (1, -1, U64 // 2, -it): R.verifyn(xb, b, (it + d) % U64, depth)
                for d in (depth + 1, max(0, depth - 1), U64 - 1, U64 // 141 + depth, (1 << 32) + depth, (U64 - 200) // 141, (U64 - 200) // 141 + 1):
                    if d != depth: R.verifyn(xb, b, it, d)
                for bb in (0, 1, 1024, 1025, 1 << 31): R.verifyn(xb, b, it, depth, bb)
                for cut in (b[:-1], b + b"\0", b[141:], b[:-141], b[:100], b"", b + b[-141:]):
                    R.verifyn(xb, cut, it, depth)
                if depth: R.verifyn(xb, b[:200], it, 0); R.verifyn(xb, b[:-141], it, depth - 1); R.verifyn(xb, b + b[-141:], it + L[0], depth + 1)
                muts = list(mutations(rng, b, base))
                for m in muts if len(muts) < 16 else rng.sample(muts, 16): R.verifyn(xb, m, it, depth)
                if depth >= 2:      # segments in the wrong order
                    R.verifyn(xb, b[:200] + b[341:482] + b[200:341] + b[482:], it, depth)
                # iteration counts that wrap: two segment lengths moved by +-2^63 / sum preserved mod 2^64
                if depth >= 1:
                    o = 200 + 141 * (depth - 1)
                    n0 = int.from_bytes(b[o:o + 8], "big")
                    for nn in ((n0 + (1 << 63)) % U64, U64 - 1, it, it + 1, 0):
                        R.verifyn(xb, b[:o] + nn.to_bytes(8, "big") + b[o + 8:], it, depth)
                    R.verifyn(xb, b[:o] + ((n0 + 1) % U64).to_bytes(8, "big") + b[o + 8:], it + 1, depth)
                    # honest but over-long first segment: remaining count would underflow
                    long = chain(D, x, [L[0] + 50] + L[1:])
                    R.verifyn(xb, blob(D, long), L[0] + 49, depth)
                    R.verifyn(xb, blob(D, long), it, depth)
                    R.verifyn(xb, blob(D, long), it + 50, depth)
                R.verifyn(enc(D, api.compose(D, x, (2, 1))), b, it, depth)
                for xm in (bytes(100), b"\x04" + bytes(99), bytes([xb[0] ^ 1]) + xb[1:], xb[:-1] + b"\1"): R.verifyn(xm, b, it, depth)
                if nseg <= 2:
                    R.discn(seed[:-1] + bytes([seed[-1] ^ 1]), bits, xb, b, it, depth)
                    for bb in (bits - 8, bits + 8, 0, 1032, bits + 4, 1 << 31): R.discn(seed, bb, xb, b, it, depth)
                    R.discn(b"", bits, xb, b, it, depth)
                if nseg == 1:
                    yb, pb = b[:100], b[100:]
                    R.verify1(xb, yb, pb, it); R.verify1(xb, pb, yb, it); R.verify1(yb, xb, pb, it)
                    R.verify1(xb, yb, pb, it + 1)
                    # same elements given by other lenient encodings
                    for f in (parts[0][2], parts[0][4]):
                        cc = (f[1] ** 2 - D) // (4 * f[0])
                        e2 = py_encode(cc, -f[1], bits) if cc.bit_length() < bits // 2 + 8 else xb
                        if len(e2) == 100: R.verify1(xb, e2, pb, it); R.verify1(xb, yb, e2, it)
            else:
                R.must = True
                r = R.verifyb(B, xb, b, it, depth)
                yb = enc(D, parts[-1][2])
                R.getb(xb, yb + b, it, depth)
                R.must = False
                for Bx in (B + 2, B - 2, 0, 1, 2, 3, -B, -1, B * B, B + (1 << 264), 1 << 263, hash_prime(b"a%d" % rep, 264, [263])): R.verifyb(Bx, xb, b, it, depth)
                for d in (1, -1, U64 // 2, -it): R.verifyb(B, xb, b, (it + d) % U64, depth); R.getb(xb, yb + b, (it + d) % U64, depth)
                for d in (depth + 1, max(0, depth - 1), U64 - 1, (1 << 32) + depth, U64 // 141 + depth, (U64 - 100) // 141, (U64 - 100) // 141 + 1):
                    if d != depth: R.verifyb(B, xb, b, it, d); R.getb(xb, yb + b, it, d)
                for cut in (b[:-1], b + b"\0", b[141:], b[:-141], b"", b + b[-141:], yb + b): R.verifyb(B, xb, cut, it, depth); R.getb(xb, yb + cut, it, depth)
                if depth:
                    R.verifyb(B, xb, b[:100], it, 0); R.verifyb(B, xb, b[:-141], it, depth - 1); R.getb(xb, (yb + b)[:-141], it, depth - 1)
                    o = 100 + 141 * (depth - 1); n0 = int.from_bytes(b[o:o + 8], "big")
                    for nn in (U64 - 1, it, it + 1, 0, (n0 + 1) % U64):
                        R.verifyb(B, xb, b[:o] + nn.to_bytes(8, "big") + b[o + 8:], it, depth); R.getb(xb, yb + b[:o] + nn.to_bytes(8, "big") + b[o + 8:], it, depth)
                    zb = b[:o + 8] + bytes(33) + b[o + 41:]
                    R.verifyb(B, xb, zb, it, depth); R.getb(xb, yb + zb, it, depth)
                muts = list(mutations(rng, b, base))
                for m in muts if len(muts) < 14 else rng.sample(muts, 14): R.verifyb(B, xb, m, it, depth); R.getb(xb, yb + m, it, depth)
                for xm in (bytes(100), b"\x04" + bytes(99), bytes([xb[0] ^ 1]) + xb[1:]): R.verifyb(B, xm, b, it, depth); R.getb(xm, yb + b, it, depth)
                R.getb(xb, b[:100] + b, it, depth); R.getb(xb, bytes(100) + b, it, depth)
                # agreement: what the full verifier says of the rebuilt blob
                if r["out"] == "1": R.verifyn(xb, bytes.fromhex(r["y"]) + b, it, depth)
        n, fl = forgeries(rng, D, x)
        n2 = rng.randrange(5, 60)
        for (y, B, p) in fl:
            B &= (1 << 264) - 1
            if B_:
                R.verifyb(B, xb, enc(D, p), n, 0)
                y2, Bl, p2 = prove(D, y, n2)
                R.verifyb(Bl, xb, enc(D, p2) + seg(n, B, p, D), n + n2, 1)
                R.getb(xb, enc(D, y2) + enc(D, p2) + seg(n, B, p, D), n + n2, 1)
            else:
                R.verify1(xb, enc(D, y), enc(D, p), n)
                R.verifyn(xb, enc(D, y) + enc(D, p), n, 0)
                # the forged step as an inner segment followed by an honest last one
                y2, Bl, p2 = prove(D, y, n2)
                R.verifyn(xb, enc(D, y2) + enc(D, p2) + seg(n, B, p, D), n + n2, 1)
                # the forged step last, after an honest one
                y0, B0, p0 = prove(D, x, 7)
                R.verifyn(xb, enc(D, y) + enc(D, p) + seg(7, B0, p0, D), n + 7, 1)
    if bits == 512:       # oversized discriminants
        D2 = -((1 << 1031) | 7); R2 = Rec(exe, D2); R2.s = R.s; R2.ev = R.ev
        xb = b"\x08" + bytes(99)
        if B_: R2.verifyb(7, xb, xb, 1, 0); R2.getb(xb, xb + xb, 1, 0)
        else:
            R2.verifyn(xb, xb + xb, 1, 0, 1024); R2.verifyn(xb, xb + xb, 1, 0, 1032)
    R.s.close()
    path = os.path.join(c.work, "v%d.ndjson" % k)
    write_ndjson(path, R.ev)
    acc = sum(1 for e in R.ev if e.get("out") == "1")
    return path, len(R.ev), acc, R.ev[0]


def run(c, mode="p04"):
    exe = c.build("api", ["api.cpp"], opt="-O2")
    c.java()
    g = vlib.forkmap(lambda k: gen(c, exe, k, mode), range(8), 8)
    c.sample(g[0][3])

    def check(x):
        why = c.validate("ApiTrace", CFG, x[0], n=x[1])
        if why: c.violate("verification verdict: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.extra["recorded_calls"] = sum(x[1] for x in g)
    c.extra["accepted"] = sum(x[2] for x in g)
    if c.extra["accepted"] < 20 and not c.violations:
        raise vlib.MachineryError("vacuous: only %d accepted statements" % c.extra["accepted"])
