"""P15: sessions of the real client with a scripted timelord, recorded byte for byte and validated against the specification."""
import os, random, time
import api, vlib, timelord as tl
from vlib import hx, write_ndjson, parallel
from p02 import py_encode

TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = 'SPECIFICATION Spec\nCONSTANTS Mode = "%s"\n Bounds = %s\n MaxReq = %d\n Cap = %d\n End = %d\n Record = %s\n'
PROPS = "INVARIANTS Whole Last Once Passed Quiet\nPROPERTIES Ends Answered Stops\n"
I = tl.iter_bytes
ASAN = {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=0"}


def build(c):
    jobs = [lambda: c.build("client", ["client.cpp"], vdf=True, libs=["-ldl"]),
            lambda: c.build("client_asan", ["client.cpp"], vdf=True, opt="-O1", extra=["-fsanitize=address", "-fno-omit-frame-pointer"], libs=["-ldl"])]
    c.asm(); c.java()
    return parallel(jobs, 2)


class Group:
    """a discriminant and starting form; h a multiple of the order of the form ("" when the group is big)"""
    def __init__(self, rng, bits, gen=False):
        self.D = api.rand_disc(rng, bits)
        x = (2, 1) if gen else api.rand_form(rng, self.D)
        self.h = hx(api.order_multiple(self.D, x)) if bits <= 40 else ""
        self.x, self.f = x, bytes([8]) + bytes(99) if x == (2, 1) else py_encode(x[0], x[1], abs(self.D).bit_length())


def record(s, g_h, waited, what):
    return {"inp": s.inp.hex(), "out": [[k, d, n] for k, d, n in s.out], "closed": s.closed or ("half" if getattr(s, "half", False) else ""),
            "half": bool(getattr(s, "half", False)), "waited": waited, "rc": s.rc, "h": g_h, "what": what}


def judge(c, what, s):
    """what needs no specification: the process died, hangs, or left an answer out"""
    if s.rc == -999: c.append(("hang", "%s: the client does not end (%d threads left)" % (what, getattr(s, "threads", 0))))
    elif s.rc == 77: c.append(("memory", "%s: %s" % (what, " ".join(s.err.split("\n")[1:3])[:300])))
    elif s.rc not in (0, 1): c.append(("dies", "%s: the client ends with status %s %s" % (what, s.rc, s.err[-200:].strip())))
    elif s.late: c.append(("unanswered", "%s: %s" % (what, s.late)))


def bad_iteration(rng):
    return rng.choice([b"xx", b"-1", b" 1", b"1 ", b"+3", b"0a", b"021x", b"02-5", b"99" + b"1" * 30, b"21" + b"1" * 21, b"20" + b"9" * 20, b"2018446744073709551616", b"\x00\x00", b"03 12", b"041e12", b"\xff\xff"])


def inits(rng, g, mode):
    """malformed first messages"""
    F, D = g.f, str(g.D).encode()
    m = mode.encode(); k = rng.randrange(20)
    def msg(d, f=F, sz=None): return m + (sz if sz is not None else b"%03d" % len(d)) + d + bytes([len(f) if len(f) < 256 else 255]) + f
    return [
        lambda: ("size 000", msg(D, sz=b"000")), lambda: ("size 350", msg(b"-" + b"7" * 349, sz=b"350")), lambda: ("size 999", msg(b"-" + b"7" * 998, sz=b"999")),
        lambda: ("size 349", msg(b"-" + b"7" * 348, sz=b"349")), lambda: ("size not digits", msg(D, sz=rng.choice([b"x05", b"-05", b"+5 ", b"0 5", b"\x00\x00\x00", b"1e2"]))),
        lambda: ("letters in the discriminant", msg(D[:3] + b"z" + D[3:])), lambda: ("positive discriminant", msg(D[1:])), lambda: ("zero discriminant", msg(b"0")), lambda: ("empty numeral", msg(b"-")),
        lambda: ("1100 bits", msg(str(-(2 ** 1100 + 7)).encode())), lambda: ("1032 bits", msg(str(-(2 ** 1031 + 7)).encode())), lambda: ("even discriminant", msg(str(g.D - 1).encode())),
        lambda: ("form size 0", m + tl.dec_disc(g.D) + b"\0"), lambda: ("form size 101", m + tl.dec_disc(g.D) + bytes([101]) + F + b"x"), lambda: ("form size 127", m + tl.dec_disc(g.D) + bytes([127]) + bytes(127)),
        lambda: ("form size 128", m + tl.dec_disc(g.D) + bytes([128]) + bytes(128)), lambda: ("form size 255", m + tl.dec_disc(g.D) + bytes([255]) + bytes(255)),
        lambda: ("random form", msg(D, bytes([rng.choice([0, 0, 1, 2, 3, 16, 32])]) + bytes(rng.randrange(256) for _ in range(99)))), lambda: ("form not reduced or not of the group", msg(D, bytes([F[0]]) + bytes(b ^ (rng.randrange(256) if rng.randrange(4) == 0 else 0) for b in F[1:]))),
        lambda: ("unknown type", bytes([rng.choice([0, 65, 110, 115, 116, 255])]) + msg(D)[1:]),
    ][k]()


def run(c):
    exe, asan = build(c)
    models = [("S", "{1, 2}", 2, 1, 2), ("N", "{1, 2}", 2, 1, 2), ("T", "{1, 2, 3}", 3, 2, 3)]
    if c.thorough: models += [("N", "{1, 2, 3}", 3, 1, 3), ("S", "{1, 2, 3}", 4, 1, 3), ("T", "{1, 2, 3, 4}", 4, 2, 4)]
    parallel([lambda m=m: c.model("Session", MODEL % (m + ("FALSE",)) + PROPS, workers=4, timeout=850) and None for m in models], 3)
    N = 1 if not c.thorough else 8

    def one(w):
        rng = random.Random("%d/p15/%d" % (c.seed, w)); ev, bad, T = [], [], []
        groups = [Group(rng, 24, True), Group(rng, 32), Group(rng, 36)]
        big = [Group(rng, rng.choice([120, 256, 512, 1000, 1024]), rng.randrange(2) == 0)]

        def go(what, steps, h, waited=False, ex=exe, **k):
            if bad: return
            t0 = time.time(); s = tl.Session(ex, steps, rng, env=ASAN, limit=250 if ex == asan else 200, **k)
            T.append((time.time() - t0, what)); judge(bad, what, s); ev.append(record(s, h, waited, what))

        # accepted requests, answered and awaited, then the stop
        for mode in "SNT":
            for rep in range((2 if mode == "T" else 4) * N):
                g = rng.choice(groups); d = rng.choice([1, 2, 3, 5])
                if mode == "S": its = [rng.choice([1, 2, 9, 10, 11, 99, 100, 101, rng.randrange(1, 3000), rng.randrange(3000, 20000), 32768])]
                elif mode == "T": its = rng.sample([1, 2, 3, 50, 99, 100, 101, 149, 150, 151, 299, 300, 301, 999] + [rng.randrange(1, 6000) for _ in range(14)], d)
                else: its = [rng.choice([1, 2, 9, 10, 11, rng.randrange(1, 2000), rng.randrange(1, 60000), 65535, 65536, 65537, 65536 + rng.randrange(1, 3000), 131072 + rng.randrange(3000), 65539] if rep == 0 and w % 4 == 0 else [1, 2, 10, 11, rng.randrange(1, 3000), rng.randrange(1, 30000)]) for _ in range(d)]
                steps = [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)]
                if mode == "T" and rng.randrange(2): its += [its[0]]; n = len(set(its))
                elif mode == "N" and rng.randrange(2): its += [its[0]]; n = len(its)
                else: n = len(set(its)) if mode == "T" else len(its)
                msg = b"".join(I(i) for i in its)
                if mode == "N" and max(its) >= 65536: steps += [("send", msg)]
                else: steps += [("send", msg)] if rng.randrange(2) else [s for i in its for s in (("send", I(i)), ("pause", rng.randrange(0, 30)))]
                if mode == "S" and rng.randrange(2): steps.insert(-1, ("send", I(its[0]))); steps[-1] = ("send", I(rng.randrange(1, 99)))
                steps += [("msgs", n), ("send", rng.choice([b"00", b"00", b"010", b"0500000"])), ("end",)]
                go("mode %s, requests %s" % (mode, its), steps, g.h, True, jitter=rng.choice([0, 0, 15]), ex=rng.choice([exe, exe, asan]) if mode != "T" else exe)
            # a big discriminant: the proof is judged by the verification rule
            g = big[0]; i = rng.randrange(1, 3000)
            go("mode %s, %d bits, request %d" % (mode, len(bin(g.D)) - 3, i), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",), ("send", I(i)), ("msgs", 1), ("send", b"00"), ("end",)], "", True)
        # malformed first messages; the stream ends after them
        for _ in range(9 * N):
            g = rng.choice(groups + big); mode = rng.choice("SNT"); name, b = inits(rng, g, mode)
            go("mode %s, %s" % (mode, name), [("send", b), ("pause", 10), (rng.choice(["half", "half", "close"]),)] + [("end",)][:1 if rng.randrange(3) else 0], g.h, ex=asan)
        # truncated first messages
        for _ in range(6 * N):
            g = rng.choice(groups); b = tl.init_bytes(rng.choice("SNT"), g.D, g.f, rng.choice([100, 100, 1, 40])); k = rng.randrange(0, len(b))
            go("first message cut after %d bytes" % k, [("send", b[:k]), (rng.choice(["half", "close", "reset"]),)], g.h, ex=asan)
        # short forms are padded with zeros
        g = Group(rng, 30, True)
        go("form of one byte", [("send", tl.init_bytes("S", g.D, g.f, 1)), ("ok",), ("send", I(50)), ("msgs", 1), ("send", b"00"), ("end",)], g.h, True, ex=asan)
        # malformed requests, before and after accepted ones
        for _ in range(7 * N):
            g = rng.choice(groups); mode = rng.choice("SNT"); pre = rng.choice([[], [rng.randrange(1, 500)], [rng.randrange(1, 500), 600]])
            b = bad_iteration(rng)
            go("mode %s, requests %s then %r" % (mode, pre, b), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)] + [("send", I(i)) for i in pre] + [("pause", rng.choice([0, 5, 60])), ("send", b), (rng.choice(["half", "pause", "pause"]), 1), ("end",)], g.h, ex=rng.choice([exe, asan]) if mode != "T" else exe)
        # numbers beyond 64 bits, which would come out as small counts
        for _ in range(2 * N):
            g = rng.choice(groups); mode = rng.choice("NT"); b = b"%d" % (2 ** 64 * rng.choice([1, 1, 1, 2, 10, 10 ** 30]) + rng.choice([1, 2, 3, 3, 50]))
            go("mode %s, request %s" % (mode, b.decode()), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",), ("send", b"%02d" % len(b) + b), ("pause", 500), ("half",), ("end",)], g.h, ex=exe)
        # 2-Wesolowski: unsupported counts, more than a hundred requests
        # (the memory checker makes these slow: one worker does it)
        g = rng.choice(groups); k = w % 3; ex = asan if w == 1 else exe
        if k == 0:
            its = [799500000, 10 ** 9, 2 ** 63, 2 ** 64 - 1, 799500000 + rng.randrange(10 ** 6), 2 ** 64 - 499900 + rng.randrange(1000)]
            rng.shuffle(its); its.insert(rng.randrange(len(its)), 77)
            go("mode T, unsupported counts", [("send", tl.init_bytes("T", g.D, g.f)), ("ok",)] + [("send", I(i)) for i in its] + [("msgs", 1), ("pause", 50), ("send", b"00"), ("end",)], g.h, True, ex=exe)
        else:
            its = rng.sample(range(200, 700), 100)
            more = sorted(rng.sample(range(1, min(its)), 25), reverse=True) if k == 1 else [rng.randrange(1, 700) for _ in range(40)]
            go("mode T, %d requests" % (len(its) + len(more)), [("send", tl.init_bytes("T", g.D, g.f)), ("ok",), ("send", b"".join(I(i) for i in its + more)), ("pause", 1500 if k == 1 else 300), ("send", b"00"), ("end",)], g.h, False, frag=False, ex=ex)
        p = os.path.join(c.work, "s%d.ndjson" % w); write_ndjson(p, ev)
        return p, len(ev), bad, T
    g = vlib.forkmap(one, range(8), 4)
    for r in g:
        for key, b in r[2]: c.violate(b, key=key)

    def check(r):
        why = c.validate("SessionTrace", TCFG, r[0], n=r[1])
        if why: c.violate("session: " + why, key="trace")
    c.sample(open(g[0][0]).readline()[:1500])
    parallel([lambda r=r: check(r) for r in g], 8)
    c.extra["sessions"] = sum(r[1] for r in g)
    if os.environ.get("P15T"):
        for t in sorted([t for r in g for t in r[3]], reverse=True)[:40]: print("%.2f %s" % t)
        print([round(sum(t[0] for t in r[3]), 1) for r in g])
