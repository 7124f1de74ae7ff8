"""P18: the register codec and the board driver, recorded call by call over a recording transport and validated against the specification."""
import json, os, random, subprocess
import api, vlib, hw
from vlib import hx, write_ndjson, parallel

TCFG = "SPECIFICATION Spec\nCONSTANTS W = 16\n R = 19\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
SHAPES = [(84, 34), (164, 68), (44, 18)]          # bytes and digits of a,f / d / L


def fits(n): return 1 << (16 * (n - 1) + 18)


def numbers(rng, n, k):
    """numbers an image of n digits can carry: edges, runs of set and clear digits, random widths"""
    m = fits(n); out = [0, 1, -1, m - 1, -m, m - 2, 1 - m]
    for i in rng.sample(range(n), min(n, 12)):
        for e in (0, 1, -1): out += [s * ((1 << (16 * i + rng.choice([0, 15, 16]))) + e) for s in (1, -1)]
    while len(out) < k:
        t = rng.randrange(4)
        if t == 0: v = rng.randrange(-m, m)
        elif t == 1: v = rng.choice([1, -1]) * rng.getrandbits(rng.randrange(1, 16 * n))
        else: v = sum(rng.choice([0, 0xffff, 0x8000, 0x7fff, 1, rng.getrandbits(16)]) << (16 * i) for i in range(rng.randrange(1, n))) * rng.choice([1, -1])
        out.append(v)
    return [v for v in out if -m <= v < m]


def image(rng, words, n, v=None):
    """words of a register image; v: digits of that number with carries moved about, None: any digits"""
    if v is None:
        kind = rng.randrange(4)
        digs = [rng.choice([0, 1, (1 << 18) - 1, 1 << 18, (1 << 19) - 1, 0xffff, 0x10000]) if kind == 0 else rng.getrandbits(19) if kind == 1 else rng.choice([0, 0, 0, rng.getrandbits(19)]) if kind == 2 else rng.getrandbits(16) for _ in range(n)]
    else:
        digs, t = [], v
        for i in range(n - 1): digs.append(t & 0xffff); t >>= 16
        digs.append(t)
        for _ in range(rng.choice([0, 0, 5, 60])):
            i, k = rng.randrange(n - 1), rng.choice([1, -1, 2, -2, 3])
            lo, hi = digs[i] - (k << 16), digs[i + 1] + k
            if all(-(1 << 18) <= x < 1 << 18 for x in (lo, hi)): digs[i], digs[i + 1] = lo, hi
    img = sum((d & 0x7ffff) << (19 * i) for i, d in enumerate(digs))
    spare = 32 * words - 19 * n
    if rng.randrange(2): img |= rng.getrandbits(spare) << (19 * n)          # what lies beyond the digits means nothing
    return b"".join(((img >> (32 * i)) & 0xffffffff).to_bytes(4, "big") for i in range(words))


class Board:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.ev, self.calls = [{"k": "fresh"}], 0

    def raw(self, line):
        self.p.stdin.write(line + "\n"); self.p.stdin.flush()
        s = self.p.stdout.readline()
        if not s: raise EOFError("the driver died: status %s at '%s'" % (self.p.wait(10), line[:200]))
        return json.loads(s)

    def call(self, line, **args):
        r = self.raw(line); io = r.pop("io")
        for x in ("uhz", "v5"):
            if x in r: r[x] = hx(int(r[x]))
        self.calls += 1
        self.ev += [dict(args, k="call")] + io + [dict(r, k="ret", c=args["c"])]
        return r

    def mem(self, a, data):
        self.raw("mem %x %s" % (a, data.hex())); self.ev.append({"k": "mem", "a": a, "h": data.hex()})

    def close(self):
        self.p.stdin.close(); self.p.wait(20)


def u32(v): return (v & 0xffffffff).to_bytes(4, "big")


def codec(c, rng, b, k):
    for size, n in SHAPES:
        for v in numbers(rng, n, 40 * k): b.call("enc %d %d %s" % (size, n, hx(v)), c="enc", size=size, n=n, v=hx(v))
        for _ in range(40 * k):
            h = image(rng, size // 4, n, rng.choice([None, rng.choice(numbers(rng, n, 8))])).hex()
            b.call("dec %d %d %s" % (size, n, h), c="dec", size=size, n=n, h=h)
    for _ in range(6 * k):
        h = status(rng).hex(); b.call("deser " + h, c="deser", h=h)


def status(rng):
    it = rng.choice([0, 1, rng.getrandbits(16), rng.getrandbits(33), rng.getrandbits(64), 2 ** 32, 2 ** 32 - 1, 2 ** 64 - 1])
    def n():
        v = rng.choice([None, rng.choice([1, -1]) * rng.getrandbits(rng.choice([20, 256, 512, 540]))])
        return image(rng, 21, 34, v)
    return u32(rng.getrandbits(32)) + u32(it) + u32(it >> 32) + n() + n()


def set_status(rng, b, i, data=None):
    data = data or status(rng)
    b.mem(0x102000 + 0x10000 * i, data)
    if i == 0: b.mem(0x300014, data)                    # engine 0 is also seen in the burst window


def engines(c, rng, b, k):
    b.mem(0x300000, u32(rng.getrandbits(10)) + bytes(16))
    for i in range(3): set_status(rng, b, i)
    for _ in range(10 * k):
        t = rng.randrange(10)
        if t < 4:
            i = rng.randrange(3)
            if rng.randrange(3): D = api.rand_disc(rng, rng.choice([32, 100, 512, 1000, 1023, 1024])); a, f = api.rand_form(rng, D); f = rng.choice([f, -f])
            else: D = -rng.getrandbits(rng.choice([8, 1024, 1024])) - 3; a, f = rng.choice(numbers(rng, 34, 30)), rng.choice(numbers(rng, 34, 30))
            if rng.randrange(4) == 0: D = -(rng.randrange(2, 1 << 255) ** 4) + rng.choice([0, 1, -1]); D = min(D, -3)       # at a perfect fourth power
            n = rng.choice([1, 2 ** 32 - 1, 2 ** 32, rng.getrandbits(35) or 1, rng.getrandbits(64) or 1])
            b.call("job %d %x %s %s %s" % (i, n, hx(D), hx(a), hx(f)), c="job", idx=i, n=hx(n), d=hx(D), a=hx(a), b=hx(f))
        elif t < 5: i = rng.randrange(3); b.call("stop %d" % i, c="stop", idx=i)
        elif t < 7: set_status(rng, b, rng.randrange(3))
        else: m = rng.randrange(16); b.call("status %d" % m, c="status", mask=m)


def settings(c, rng, b, k, lines):
    b.mem(0x1c, u32(3))
    for _ in range(6 * k):
        u = rng.choice([rng.randrange(10 ** 6, 10 ** 9 * 3), rng.randrange(10 ** 8, 15 * 10 ** 8), rng.choice([100, 125, 500, 1000, 1100, 1200, 2400, 3000]) * 10 ** 6, rng.randrange(3000 * 10 ** 6 + 1, 4 * 10 ** 9)])
        r = b.call("freq %d.%06d 0" % (u // 10 ** 6, u % 10 ** 6), c="freq", uhz=hx(u))
        b.call("getfreq", c="getfreq")
        if r["rc"]:
            for i in range(3):
                if rng.randrange(2): b.mem(0x100000 + 0x10000 * i, u32(rng.choice([1, 0x10])))
            for _ in range(rng.randrange(4)):
                d = rng.choice([1, -1])
                if 2 < r["fidx"] < 7990: m = rng.randrange(8); r = b.call("adjust %d %d" % (m, d), c="adjust", mask=m, dir=d, fidx=r["fidx"]); b.call("getfreq", c="getfreq")
        if rng.randrange(4) == 0: b.mem(0, u32(rng.choice([1, 2, 8, 3, 4]))); b.call("getfreq", c="getfreq")
    for v in [rng.randrange(50000, 100000) for _ in range(4 * k)] + [49999, 49374, 49375, 49376, 99999, 100000, 99375 + 625, 100001, 100625, 24375, 24374, 0, 200000, 220000, 250000, 12345678, rng.randrange(0, 24375), rng.randrange(184375, 10 ** 6), 184999, 184375]:
        b.call("volt %d.%05d" % (v // 100000, v % 100000), c="volt", v5=v); b.call("getvolt", c="getvolt")
    for t in [rng.randrange(0, 125000) for _ in range(4 * k)] + [100000]:
        kind = rng.choice("ex"); b.call("alarm %s %d.%03d" % (kind, t // 1000, t % 1000), c="alarm", kind=kind, mc=t, legal=True)


def run(c):
    exe = hw.build(c, "regs", ["regs.cpp"]); c.java()
    k = 1 if not c.thorough else 20
    mc = lambda w, r, n, g, half: c.model("MCRegisters", "SPECIFICATION Spec\nCONSTANTS W = %d\n R = %d\n N = %d\n G = %d\n Half = %d\nINVARIANT NoLoss\nCHECK_DEADLOCK FALSE\n" % (w, r, n, g, half), workers=4, timeout=850) and None
    models = [lambda: mc(2, 4, 3, 4, 128), lambda: mc(1, 3, 5, 4, 64), lambda: mc(3, 5, 2, 8, 128)]
    if c.thorough: models += [lambda: mc(2, 4, 4, 4, 512), lambda: mc(2, 5, 4, 8, 1024), lambda: mc(4, 7, 3, 8, 16384)]

    def one(w):
        rng = random.Random("%d/p18/%d" % (c.seed, w)); b = Board(exe); bad = None
        try: codec(c, rng, b, k); engines(c, rng, b, 3 * k); settings(c, rng, b, k, None); b.close()
        except EOFError as e: bad = str(e)
        except ValueError as e: bad = "garbled answer: %s" % e
        p = os.path.join(c.work, "b%d.ndjson" % w); write_ndjson(p, b.ev)
        return p, b.calls, bad
    def check(w):
        p, n, bad = one(w)
        if bad: c.violate(bad, key="died")
        why = c.validate("DeviceTrace", TCFG, p, n=n)
        if why: c.violate("driver: " + why, key="trace")
        return n
    ns = parallel([lambda w=w: check(w) for w in range(8)] + models, 8)
    c.extra["driver calls"] = sum(n for n in ns if n)
    c.sample(open(os.path.join(c.work, "b0.ndjson")).read()[:600])
