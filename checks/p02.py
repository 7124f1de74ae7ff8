"""P02: compressed forms vs spec/Bqfc.tla."""
import os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj
from p01 import parse_json_prints, num


def le(n, k): return (n & ((1 << (8 * k)) - 1)).to_bytes(k, "little") if k > 0 else b""


def py_encode(a, b, dbits):
    """generator-side encoder for arbitrary pairs (used only to manufacture adversarial inputs)"""
    import math
    d = (dbits + 31) // 32 * 32
    if a == b: A, t, g, b0 = a, 0, 0, 0
    else:
        t = api.cofactor(a, abs(b)); g = math.gcd(a, t); A = a // g; t //= g; b0 = abs(b) // A if g > 1 else 0
    return raw(A, t, g, b0, b < 0, dbits)


def raw(A, t, g, b0, neg, dbits, gs=None, flags=0):
    d = (dbits + 31) // 32 * 32
    if gs is None: gs = max(1, (g.bit_length() + 7) // 8) - 1
    body = bytes([(1 if neg else 0) | (2 if t < 0 else 0) | flags, gs & 255]) + le(A, d // 16 - gs) + le(abs(t), d // 32 - gs) + le(g, gs + 1) + le(b0, gs + 1)
    return (body + bytes(200))[:100]


def run(c):
    exe = c.build("api", ["api.cpp"], opt="-O1")
    c.java()
    r = c.model("MCClassGroup", """SPECIFICATION Spec
CONSTANT Replay = TRUE
CONSTANT Ds <- %s
INVARIANTS RoundTrip Injective StrictUnique
CHECK_DEADLOCK FALSE
""" % ("DsThorough" if c.thorough else "DsQuick"), workers=4, timeout=800)
    s = api.Server(exe)
    n = 0
    seen = set()
    for t in parse_json_prints(r.out):
        D = num(t["D"]); f = tuple(num(x) for x in t["f"])
        if (D, f) in seen: continue
        seen.add((D, f)); n += 1
        out = s.call("ser %s %s" % (hx(D), fs(f)))
        if out != t["enc"]: c.violate("encoding of %s at D=%d is %s, expected %s" % (f, D, out, t["enc"]), key="enc:%d:%s" % (D, f))
        for st in "10":
            out = s.call("deser %s %s %s" % (hx(D), st, t["enc"]))
            if out != fs(f) + " ok": c.violate("decoding (strict=%s) of %s at D=%d gives %s, expected %s" % (st, t["enc"], D, out, f), key="dec:%d:%s" % (D, f))
    c.cov["traces_validated_against_impl"] += n
    s.close()
    sizes = [3, 5, 8, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 63, 64, 65, 80, 95, 96, 97, 127, 128, 129, 160, 200, 255, 256, 257, 300, 383, 384, 385, 511, 512, 513,
             600, 700, 767, 768, 769, 800, 895, 896, 897, 960, 990, 991, 992, 993, 1000, 1008, 1016, 1023, 1024]
    NT = 8

    def one(k):
        rng = random.Random("%d/%d" % (c.seed, k))
        srv = api.Server(exe)
        ev = []

        def deser(D, h, strict):
            out = srv.call("deser %s %d %s" % (hx(D), strict, h.hex() or "-"))
            if out.startswith("throw"): o = ["reject"]
            elif out.endswith(" ok"): o = out.split()[0].split(",")
            else: o = ["bad", out]
            ev.append({"op": "deser", "D": hx(D), "strict": bool(strict), "h": h.hex(), "out": o})
            return o

        def ser(D, f):
            out = srv.call("ser %s %s" % (hx(D), fs(f)))
            ev.append({"op": "ser", "D": hx(D), "f": fj(f), "out": out})
            return bytes.fromhex(out) if len(out) == 200 else b""

        def pair(D, h, bits, strict):
            out = srv.call("deserbits %s %d %d %s" % (hx(D), strict, bits, h.hex()))
            ev.append({"op": "pair", "D": hx(D), "h": h.hex(), "bits": bits, "strict": bool(strict),
                       "out": [out] if out == "reject" else out.split(",")})
        for bits in sizes[k::NT] * (4 if c.thorough else 1) + [1024]:
            while True:
                D = -(rng.getrandbits(bits) | (1 << (bits - 1)) | 7)
                if bits == 3: D = -7; break
                if bits <= 16 and rng.random() < 0.5: D = -((-D) | 7)
                if api.is_prime(-D): break
            forms = [(1, 1), (2, 1), api.reduce(D, 2, -1)]
            if bits >= 8:
                g = (2, 1)
                for _ in range(5):
                    g = api.power(D, (2, 1), rng.getrandbits(bits)); forms.append(g); forms.append(api.reduce(D, g[0], -g[1]))
                # forms whose compression needs a large common factor or a non-zero quotient
                w, hits = api.compose(D, g, (2, 1)), 0
                for _ in range(1500 if bits <= 256 else 300):
                    w = api.compose(D, w, (2, 1))
                    e = py_encode(w[0], w[1], bits)
                    if e[1] > 0 or (rng.random() < 0.01): forms.append(w); hits += e[1] > 0
                    if hits > 2: break
            for i, f in enumerate(forms):
                h = ser(D, f)
                if len(h) != 100: continue
                deser(D, h, 1); deser(D, h, 0)
                # other representatives of the same form serialize identically
                ser(D, (f[0], f[1] + 2 * f[0] * rng.randrange(-3, 4)))
                muts = []
                d32 = (bits + 31) // 32 * 32
                gs = h[1]; la = d32 // 16 - gs; lt = d32 // 32 - gs
                for bit in (0, 1, 2, 3, 4, 5, 6, 7): muts.append(bytes([h[0] ^ (1 << bit)]) + h[1:])
                for v in (0, 1, gs + 1, max(0, d32 // 32 - 1), d32 // 32, 255): muts.append(h[:1] + bytes([v & 255]) + h[2:])
                for _ in range(4):
                    j = rng.randrange(100); muts.append(h[:j] + bytes([h[j] ^ (1 << rng.randrange(8))]) + h[j + 1:])
                end = 2 + la + lt + 2 * (gs + 1)
                if end < 100: muts.append(h[:end] + b"\1" + h[end + 1:]); muts.append(h[:99] + b"\x80")
                A = int.from_bytes(h[2:2 + la], "little"); t = int.from_bytes(h[2 + la:2 + la + lt], "little") * (-1 if h[0] & 2 else 1)
                gg = int.from_bytes(h[2 + la + lt:2 + la + lt + gs + 1], "little"); b0 = int.from_bytes(h[2 + la + lt + gs + 1:end], "little")
                neg = h[0] & 1
                for db0 in (1, 2, 4, 8, 3): muts.append(raw(A, t, gg, b0 + db0, neg, bits, gs))
                for dg in (0, 1, 2, gg + 1, gg * 2): muts.append(raw(A, t, dg, b0, neg, bits, gs))
                if A: muts.append(raw(A, t - A if t > 0 else t + A, gg, b0, neg, bits, gs))
                muts += [raw(A, -t, gg, b0, neg, bits, gs), raw(A, 0, gg, b0, neg, bits, gs), raw(0, t, gg, b0, neg, bits, gs), raw(A, 0, 0, 0, 0, bits, 0), raw(A + 1, t, gg, b0, neg, bits, gs)]
                a, b = f
                cc = (b * b - D) // (4 * a)
                for (x, y) in ((cc, -b), (cc, b), (a, b + 2 * a), (a, b - 2 * a), (a, -b), (cc, 2 * cc - b), (a + b + cc, 2 * a + b)):
                    if x > 0: muts.append(py_encode(x, y, bits))
                if gg > 1: muts.append(raw(A * gg, t * gg, 1, 0, neg, bits, 0))
                for m in muts[:]:
                    if i > 4 and rng.random() < 0.7: continue
                    m = m[:100]
                    deser(D, m, 1); deser(D, m, 0)
                if i < 3:
                    for ln in (0, 1, 99, 101, 200): deser(D, (h + h)[:ln], rng.randrange(2))
                # the low-level pair decoder, with its own notion of size
                for bb in (bits, 0, 1025, 2000, d32, max(1, bits - 32)): pair(D, h, bb, 0)
                for (x, y) in ((a, b), (cc, -b), (a, a), (cc, cc)):
                    if x.bit_length() < d32 // 2: pair(D, py_encode(x, y, bits), bits, 0)
            for m in (bytes(100), b"\xff" * 100, b"\xf0" + bytes(99), b"\x04" + b"\x55" * 99, b"\x08" + b"\xff" * 99, b"\x0c" + bytes(99), bytes(rng.randrange(256) for _ in range(100))):
                deser(D, m, 1); deser(D, m, 0)
        # oversized discriminants are refused outright
        for bits in (1025, 1056, 2048):
            D = -((1 << (bits - 1)) | 7)
            deser(D, b"\x08" + bytes(99), 1); deser(D, bytes(rng.randrange(256) for _ in range(100)), 0)
        srv.close()
        for _ in range(20): # the native stopping rule against its definition
            a = rng.getrandbits(rng.choice([64, 70, 130, 256, 400, 511, 512])) | 1
            ev.append({"op": "cofactor", "a": hx(a), "b": hx(rng.randrange(a))})
        path = os.path.join(c.work, "enc%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, len(ev), ev[7]

    gen = vlib.forkmap(one, range(NT), 8)
    c.sample(gen[0][2])

    def check(g):
        why = c.validate("ApiTrace", "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n", g[0], n=g[1])
        if why: c.violate("form encoding: " + why, key="trace")
    parallel([lambda g=g: check(g) for g in gen], 8)
    c.extra["recorded_calls"] = sum(g[1] for g in gen)
    c.extra["small_encodings_replayed"] = n
