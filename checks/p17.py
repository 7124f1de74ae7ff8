"""P17: the hardware prover's software, driven report by report as the client's loop does; what it answers is validated against the specification."""
import json, os, random, time
import api, vlib, hw
from vlib import hx, write_ndjson, parallel
from p02 import py_encode

TCFG = "SPECIFICATION Spec\nCONSTANTS Interval = 4000\n Skips = 10\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION %s\nCONSTANTS %s\n%sCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS Contiguous Refs NoHoles Passed AtMostOnce Kept ResumeGood\nPROPERTIES Answered Ends\n"
SMALL = dict(Interval=2, Thres=4, Target=20, Aux=2, MaxP=1, MaxSeg=2, Skips=1, Record="FALSE", FilePrefix='"x"')
REAL = dict(Interval=4000, Thres=1000000, Skips=10, MaxSeg=61, Record="TRUE")
ENV = {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=0"}
FORM = 100
I4 = 4000


def consts(base, **k):
    d = dict(base); d.update(k)
    return "\n ".join("%s = %s" % x for x in d.items())


def models(c):
    jobs = [dict(Reports="{6, 13, 20}", Asks="{3, 8, 20}", MaxReq=2, MaxBad=1, MaxRep=0), dict(Reports="{6, 20}", Asks="{8, 19, 20}", MaxReq=3, MaxBad=0, MaxRep=0),
            dict(Reports="{5, 6, 13, 20}", Asks="{13}", MaxReq=1, MaxBad=2, MaxRep=2)]
    if c.thorough: jobs += [dict(Reports="{6, 13, 20}", Asks="{3, 8, 20}", MaxReq=3, MaxBad=1, MaxRep=0), dict(Reports="{7, 20}", Asks="{5, 12, 18, 20}", MaxReq=4, MaxBad=0, MaxRep=0, Aux=3, MaxP=3)]
    return [lambda k=k: c.model("HwProof", MODEL % ("FairSpec", consts(SMALL, **k), INV), workers=2 if not c.thorough else 4, timeout=880) and None for k in jobs]


def schedules(c, tag, n, seed, depth=150, **k):
    """behaviours of the model with the real constants"""
    d = os.path.join(c.work, "sched_" + tag); os.makedirs(d)
    cfg = MODEL % ("Spec", consts(REAL, FilePrefix='"%s/s"' % d, **k), "INVARIANTS Contiguous Refs Kept\n")
    r = c.tlc("HwProof", cfg, workers=1, timeout=300, args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(seed)])
    if r.violated: raise vlib.MachineryError("HwProof does not hold in simulation: %s" % r.out[-2000:])
    res = []
    for f in sorted(os.listdir(d)): res.append(json.load(open(os.path.join(d, f))))
    return [s for s in res if s]


class Died(Exception):
    pass


class Engine:
    """one harness process and the events it was put through"""
    def __init__(self, exe, rng, fast):
        self.s, self.rng, self.fast, self.ev, self.cur = api.Server(exe, env=dict(os.environ, **ENV), timeout=240), rng, fast, [], None

    def call(self, line, timeout=None):
        r = self.s.call(line, timeout)
        if r.startswith(("CRASH", "HANG")): raise Died("%s at '%s'" % (r, line[:160]))
        return r

    def start(self, g, T, aux, pr):
        """g: (D, x, h, values)"""
        if self.fast: self.call("order " + hx(g.h))
        f = (2, 1) if g.x == (2, 1) else g.x
        fb = (bytes([8]) + bytes(FORM - 1)) if f == (2, 1) else py_encode(f[0], f[1], abs(g.D).bit_length())
        r = self.call("start %d %s %d %d %d" % (g.D, fb.hex(), T, aux, pr)).split()
        self.g, self.target, self.off, self.last, self.open = g, int(r[0]), 0, 0, []
        self.ev.append({"k": "start", "D": hx(g.D), "f": api.fj(f), "h": hx(g.h), "T": T, "target": self.target, "out": [r[1], r[2]]})

    def dress(self, f):
        """the same class, as a board might give it: b out of range, or not reduced"""
        a, b = f; D = self.g.D; t = self.rng.randrange(10)
        if t < 5: return a, b
        if t < 8: return a, b + 2 * a * self.rng.randrange(-3, 4)
        k = self.rng.randrange(-5, 6); b2 = b + 2 * a * k
        return (b2 * b2 - D) // (4 * a), -b2

    def add(self, it, ab, bad=False):
        a, b = ab
        r = self.call("add %d %s %s" % (it, hx(a), hx(b))).split()
        e = {"k": "add", "it": min(it, 2000000000), "a": hx(a), "b": hx(b), "rc": int(r[0]), "quiet": False}
        if int(r[0]) < 0:
            e.update(pos=int(r[1]), out=[r[2], r[3]], left=int(r[4])); self.off = int(r[1])
        elif int(r[0]) == 0: self.last = self.off + it
        self.ev.append(e)
        return int(r[0])

    def value(self, v): return self.add(v - self.off, self.dress(self.g.val(v)))

    def values(self, vs):
        """a run of right values"""
        r = self.call("adds " + " ".join("%d %s %s" % (v - self.off, hx(f[0]), hx(f[1])) for v in vs for f in [self.dress(self.g.val(v))])).split()
        self.ev.append({"k": "adds", "its": [v - self.off for v in vs], "n": int(r[0]), "rc": int(r[1])})
        if int(r[1]) == 0: self.last = vs[-1]

    def bad(self):
        g, rng = self.g, self.rng
        v = min(self.target, max(self.off, self.last) + rng.randrange(1, 9000)); a, b = g.val(v); it = v - self.off
        kinds = [(it, (0, b)), (it, (-a, b)), (it, (a, b + 1)), (it, (a + 1, b)), (it, (4 * a * a + 8, b)), (it, (rng.getrandbits(1100) | 1 << 1100, rng.getrandbits(900))), (it, (0, 0)), (it, (-1, 1)), (it, (2 * a, b)), (it, (4 * a, b)), (it, (a, b + 2 * a + 1)), (it, (2 * a, b + 2 * a)), (it, (-(rng.getrandbits(300) | 1), rng.getrandbits(300))),
                 (self.target - self.off + rng.choice([1, 4000, 32 * 4000, 10 ** 8]), (a, b)), (2 ** 63 + rng.getrandbits(40), (a, b)), (2 ** 64 - 1 - rng.randrange(3), (a, b))]
        kinds = [k for k in kinds if k[0] > self.target - self.off or k[1][0] <= 0 or (k[1][1] ** 2 - g.D) % (4 * k[1][0])]      # none of them a form of the discriminant
        it, ab = kinds[rng.randrange(len(kinds))]
        return self.add(it, ab)

    def repeat(self):
        """the board is read again before it has moved"""
        v = self.last if self.last > self.off else self.off
        if v == self.off: return self.add(0, self.g.val(self.off))
        return self.add(v - self.off, self.g.val(v))

    def req(self, it): self.call("req %d" % it); self.open.append(it); self.ev.append({"k": "req", "it": it})

    def get(self):
        w = self.call("get").split()[1:]
        for q in w:
            p = q.split(":"); segs = [(int(p[2]), None, p[3])] + [(int(p[i]), p[i + 1], p[i + 2]) for i in range(4, len(p), 3)]
            out = p[1] + p[3] + "".join("%016x" % n + B + w_ for n, B, w_ in segs[1:])
            self.ev.append({"k": "got", "it": int(p[0]), "lens": [hx(n) for n, _, _ in reversed(segs)], "out": out})
            if int(p[0]) in self.open: self.open.remove(int(p[0]))
        return len(w)

    def finish(self, limit=100):
        """no more reports: everything within reach has to be answered"""
        t = time.time()
        while any(r <= self.last for r in self.open) and time.time() - t < limit:
            self.get(); self.call("tick"); self.call("nap 2000")
        self.get(); self.ev.append({"k": "quiet"})

    def stop(self): self.call("stop", 100); self.ev.append({"k": "stop"}); self.open = []

    def check(self):
        if self.fast:
            w = self.call("wrong").split()
            if w[0] != "0": return "a stored value at %s iterations is not the power it stands for" % w[1]


class Group:
    def __init__(self, rng, bits):
        self.D = api.rand_disc(rng, bits); self.x = (2, 1) if rng.randrange(3) == 0 else api.rand_form(rng, self.D); self.x = api.reduce(self.D, *self.x)
        self.h = api.order_multiple(self.D, self.x); self.v = {}

    def val(self, i):
        if i not in self.v: self.v[i] = api.power(self.D, self.x, pow(2, i, self.h))
        return self.v[i]


def replay(e, sched, g, T, aux, pr, cnt):
    """a schedule of the model, followed step by step where the code follows too"""
    e.start(g, T, aux, pr); e.call("gate 1")
    for s in sched:
        op = s[0]
        if op == "req": e.req(s[1])
        elif op == "rep":
            v = s[1]
            if v <= e.off: continue
            if e.rng.randrange(4) == 0:       # what lies between, partly reported too
                a = max(e.last, e.off); vs = [w for w in range(a // I4 * I4 + I4, v, I4) if e.rng.randrange(8)]
                if vs: e.values(vs); e.call("settle")
            e.value(v); e.call("settle")
        elif op == "bad": e.bad()
        elif op == "rpt": e.repeat()
        elif op == "tick":
            if e.last >= e.target: e.call("tick"); e.call("settle")
        elif op == "fin": cnt[e.call("fin %d" % s[1], 100)] += 1
        elif op == "get": e.get()
    e.call("free")
    if e.last < e.target: e.value(e.target)
    e.finish(); e.stop()


def wander(e, g, T, aux, pr, asks, mode, cut=None):
    """reports, requests, refusals and repetitions at random, all threads running freely; cut: end the session early"""
    rng = e.rng
    e.start(g, T, aux, pr)
    n = 0
    while e.last < e.target:
        t = rng.randrange(100)
        n += 1
        if cut is not None and n > cut: break
        if asks and rng.randrange(3) == 0: e.req(asks.pop())
        at = max(e.last, e.off) if rng.randrange(20) else e.off
        if t < mode.get("bad", 4): e.bad()
        elif t < mode.get("bad", 4) + mode.get("rep", 6):
            for _ in range(rng.choice([1, 1, 2, 5, 11, 12])): e.repeat()
        elif t < 40:
            k = rng.randrange(1, 40); vs = []
            for _ in range(k):
                at = at // I4 * I4 + I4 if rng.randrange(4) else at + rng.randrange(1, 9000)
                if at > e.target: break
                vs.append(at)
            vs = [v for v in vs if v != e.last and v > e.off]
            if vs: e.values(vs)
        else:
            v = rng.choice([at + rng.randrange(1, 5000), at // I4 * I4 + I4, at + rng.randrange(1, 60000), at // I4 * I4 + I4 * rng.randrange(1, 20), at // I4 * I4 + I4 - 1])
            v = min(v, e.target)
            if v > e.off: e.value(v)
        if rng.randrange(4) == 0: e.get()
        if rng.randrange(mode.get("nap", 3)) == 0: e.call("nap %d" % rng.randrange(3000))
    if cut is None:
        while asks: e.req(asks.pop())
        e.finish()
    e.stop()


def run(c):
    real = hw.build(c, "hwproof", ["hwproof.cpp"], watch=("hw/hw_proof.cpp",), asan=True, opt="-O1", libs=["-ldl"])
    fast = hw.build(c, "hwproof_fast", ["hwproof_fast.cpp"], watch=("hw/hw_proof.cpp",), libs=["-ldl"])
    c.java()
    bad, traces, cnt = [], [], {"schedules": 0, "sessions": 0, "swept_places": 0, "ok": 0, "absent": 0, "hang": 0}

    def work(tag, exe, quick, fn, seed):
        """fn(engine) puts one process through its sessions"""
        if bad: return
        rng = random.Random("%d/p17/%s/%s" % (c.seed, tag, seed)); e = Engine(exe, rng, quick)
        t0 = time.time()
        try: fn(e); what = e.check()
        except Died as x: what = "the engine does not survive: %s" % x
        finally: e.s.close()
        t1 = time.time()
        if what: bad.append((what, tag, e.ev[-40:]))
        p = os.path.join(c.work, "trace_%s_%s.ndjson" % (tag, seed)); write_ndjson(p, e.ev)
        r = c.validate("HwTrace", TCFG, p, n=sum(1 for x in e.ev if x["k"] == "start"), timeout=800) if e.ev and not what else None
        if os.environ.get("VERIF_TIMES"): print(tag, seed, "run %.1f judge %.1f" % (t1 - t0, time.time() - t1), len(e.ev), flush=True)
        if r: bad.append((r, tag, [x for x in e.ev][-40:]))

    K = 1 if not c.thorough else 8
    R8 = "{400000, 1001000, 1500000, 2700500, 3000000, 4400000, 5200000, 6000000}"
    A10 = "{1000, 4000, 700000, 1000000, 1000001, 1400000, 2700000, 4100000, 5900001, 6000000}"
    sched = parallel([lambda i=i, a=a: (a, schedules(c, "s%d" % i, 8 * K, c.seed * 100 + i, Target=6000000, Aux=a[0], MaxP=a[1], Reports=R8, Asks=A10, MaxReq=a[2], MaxBad=2, MaxRep=3))
                      for i, a in enumerate([(4, 3, 6), (2, 1, 5), (8, 7, 8), (3, 2, 4)])], 4)

    def replays(i, a, part):
        def fn(e):
            g = Group(e.rng, 30)
            for s in part: replay(e, s, g, 6000000, a[0], a[1], cnt); cnt["schedules"] += 1
        work("replay", fast, True, fn, i)

    def wanders(i):
        def fn(e):
            g = Group(e.rng, e.rng.choice([16, 24, 30, 34]))
            for k in range(5):
                if e.rng.randrange(2): e.call("jitter %d %d %d" % (e.rng.getrandbits(30), e.rng.choice([200, 2000, 20000]), e.rng.choice([50, 500])))
                else: e.call("jitter 1 0 0")
                T = e.rng.choice([30000, 100000, 250000, 399999, 8000, 1]); tt = (T + I4 - 1) // I4 * I4
                asks = [e.rng.choice([e.rng.randrange(1, tt + 1), e.rng.randrange(1, 30), tt, e.rng.randrange(1, tt // I4 + 1) * I4, e.rng.randrange(1, tt // I4 + 1) * I4 + e.rng.choice([-1, 1])]) for _ in range(e.rng.randrange(1, 7))]
                wander(e, g, T, e.rng.choice([2, 3, 4, 8]), e.rng.choice([0, 1, 1]), asks, {"bad": e.rng.choice([0, 3, 15]), "rep": e.rng.choice([0, 5, 20]), "nap": e.rng.choice([1, 3, 100])}, cut=e.rng.choice([None, None, None, e.rng.randrange(1, 20)]))
                cnt["sessions"] += 1
        work("wander", real, False, fn, i)

    def longer(i):
        def fn(e):
            g = Group(e.rng, 28)
            T = e.rng.choice([1100000, 1400000]); e.call("scale 200")
            wander(e, g, T, 6, 4, [T, e.rng.randrange(1, 100), e.rng.randrange(1000001, T)], {"bad": 2, "rep": 2, "nap": 100}); cnt["sessions"] += 1
        work("long", real, False, fn, i)

    jobs = models(c) + [lambda i=i, j=j, a=a, p=s[j::2]: replays("%d_%d" % (i, j), a, p) for i, (a, s) in enumerate(sched) for j in range(2)]
    jobs += [lambda i=i: wanders(i) for i in range(10 * K)] + [lambda i=i: longer(i) for i in range(2 * K)]
    jobs += sweeps(c, fast, work, cnt, 8 if not c.thorough else 8, c.thorough)
    parallel(jobs, 8)
    for what, tag, data in bad: c.violate("%s: %s" % (tag, what), data=data)
    c.extra.update(cnt)
    if not bad and (cnt["schedules"] < 20 or cnt["sessions"] < 40): raise vlib.MachineryError("too little was exercised: %s" % cnt)
    return 0


def short(e, g, rng):
    """a session that touches everything, quickly"""
    e.start(g, 60000, 4, 3)
    for r in rng.sample([3000, 20000, 20001, 44000, 60000, 59999], 4): e.req(r)
    for v in (4000, 8000, 21000, 24000): e.value(v)
    e.bad(); e.get()
    e.value(39000); e.bad(); e.call("nap %d" % rng.randrange(3000))        # the board goes back while values are being filled in
    for v in (28000, 32000, 36000, 39000, 52000):
        if v > e.off: e.value(v)
    e.value(60000); e.finish(30); e.stop()
    # ended while proofs run, then at once another one on the same engine
    e.start(g, 40000, 4, 3); e.req(10); e.req(30000); e.req(12000); e.value(13000); e.value(32000); e.call("nap %d" % rng.choice([0, 0, 300, 1500])); e.stop()
    e.start(g, 40000, 4, 1); e.call("nap %d" % rng.choice([0, 4000, 14000])); e.req(20000); e.req(100); e.value(24000); e.value(40000); e.finish(30); e.stop()


def wide(e, g, rng):
    """far apart values, while proofs of the first ones are made and values next to both are filled in"""
    T = 4096 * 4 * I4
    e.start(g, T, 6, 5)
    e.req(27000); e.req(30000)
    e.values([v * I4 for v in range(1, 10)]); at = 4096 * I4
    for k in range(3):
        for d in (-1, 1, I4 + 1, 2 * I4 + 1): e.value(at * (k + 1) + d)
        e.call("nap %d" % rng.choice([0, 300, 3000]))
    e.finish(30); e.stop()


def sweeps(c, exe, work, cnt, n, deep):
    """one thread held for long at one place, over all the places where the engine touches shared data; atomic operations at every one of their turns"""
    def part(i):
        def fn(e):
            g = Group(e.rng, 24)
            e.call("scale 100"); e.call("watch 1"); short(e, g, e.rng); wide(e, g, e.rng); e.call("watch 0")
            places = []
            for pc, kind, n_ in sorted(x.split(":") for x in e.call("sites").split()):
                turns = range(min(int(n_), 40) + 1) if kind in "45" else [e.rng.randrange(int(n_)) for _ in range(1 if not deep else 6)]
                places += [(pc, t) for t in turns]
            cnt["places"] = len(places)
            for pc, t in places[i::n]:
                e.call("slow %s %d 1 %d" % (pc, t if e.rng.randrange(2) else e.rng.randrange(200), e.rng.choice([1000, 6000]))); wide(e, g, e.rng)
                e.call("slow %s %d %d %d" % (pc, t, e.rng.choice([1, 1, 2]), e.rng.choice([4000, 12000]))); short(e, g, e.rng); cnt["swept_places"] += 1
        work("sweep", exe, True, fn, i)
    return [lambda i=i: part(i) for i in range(n)]
