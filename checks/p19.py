"""P19: the hardware client's event loop with real connections and a simulated board; what its timelords and the board see is validated against the specification."""
import json, os, random, re, socket, struct, threading, time
import api, vlib, hw, hwtl
from vlib import write_ndjson, parallel, forkmap
from hwtl import Client, Group, I4

TCFG = "SPECIFICATION Spec\nCONSTANTS Interval = 4000\n Skips = 10\n Target = %d\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION %s\nCONSTANTS %s\n%sCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS Engines Order Resume\nPROPERTIES Served Stops Ends Answered Starts\n"
SMALL = dict(Conns="{1, 2}", Target=6, Reports="{3, 6}", Asks="{2, 5}", Interval=2, MaxReq=1, MaxBad=0, MaxSess=1, MaxDown=0, Record="FALSE", FilePrefix='"x"')


def consts(**k):
    d = dict(SMALL); d.update(k)
    return "\n ".join("%s = %s" % x for x in d.items())


def models(c):
    jobs = [dict(), dict(Conns="{1}", MaxSess=2, MaxReq=2, MaxBad=1, MaxDown=1)]
    if c.thorough: jobs += [dict(MaxBad=1, MaxDown=1), dict(MaxReq=2), dict(Conns="{1}", MaxSess=2, MaxReq=3, MaxBad=2, MaxDown=1)]
    return [lambda k=k: c.model("HwClient", MODEL % ("FairSpec", consts(**k), INV), workers=2, timeout=880) and None for k in jobs]


def schedules(c, n, seed):
    d = os.path.join(c.work, "sched"); os.makedirs(d)
    cfg = MODEL % ("Spec", consts(Conns="{1, 2}", Target=10, Reports="{3, 6, 7, 10}", Asks="{2, 5, 6, 9}", MaxReq=5, MaxBad=1, MaxSess=2, MaxDown=1, Record="TRUE", FilePrefix='"%s/s"' % d), "INVARIANTS Engines Order Resume\n")
    r = c.tlc("HwClient", cfg, workers=1, timeout=300, args=["-simulate", "num=%d" % n, "-depth", "160", "-seed", str(seed)])
    if r.violated: raise vlib.MachineryError("HwClient does not hold in simulation: %s" % r.out[-2000:])
    res = [json.load(open(os.path.join(d, f))) for f in sorted(os.listdir(d))]
    return [s for s in res if s]


def finish(cl, limit=30):
    cl.told or cl.term(); cl.wait(limit)
    return cl.traces(), cl.target


def reset(x):
    """gone, and what it has not read yet with it"""
    x.note("leave"); x.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); x.close()


def ends(x, how, rng):
    if how == "zero":
        if rng.randrange(2) and not x.eof: x.req(rng.randrange(1, 5000))
        x.zero(rng if rng.randrange(2) else None, rng.choice([b"010", b"010", b"020000"[:4], b"00"])); x.bye(ack=rng.randrange(4) > 0)
    elif how == "leave": x.note("leave"); x.close()
    elif how == "reset": reset(x)
    elif how == "half": x.note("leave"); x.s.shutdown(socket.SHUT_WR); x.until(lambda: False, 20); x.close()
    else: x.until(lambda: False, 60)          # until the client is told to end


def talk(x, rng, steps, top, wild=True):
    """requests, and a board that does not behave"""
    e = x.engine()
    for _ in range(steps):
        op = rng.randrange(10 if wild else 5)
        if op < 5:
            cur = x.reached(); it = rng.choice([1, rng.randrange(1, 100), rng.randrange(1, top), I4 * rng.randrange(1, top // I4 + 1), I4 * rng.randrange(1, top // I4 + 1) + rng.choice([-1, 1]), max(1, cur), cur + 1, cur + rng.randrange(1, 9000)])
            it = min(it, top)
            for _ in range(rng.choice([1, 1, 1, 2, 4])): x.req(it if rng.randrange(3) else rng.randrange(1, top), rng if rng.randrange(2) else None)
        elif op == 5: x.c.tell("bad %d %d" % (e, rng.randrange(1, 8)))
        elif op == 6: x.c.tell("still %d %d" % (e, rng.choice([1, 5, 9, 10, 11, 12, 30])))
        elif op == 7: x.c.tell("step %d %d" % (e, rng.choice([1, 40, 1000, 4000, 8000])))
        elif op == 8: x.req(rng.choice([10 ** 15, 10 ** 9, 999999999999999, 1999999999]))
        x.pump(rng.choice([0, 0, 0.02, 0.2]))


def wander(exe, seed):
    rng = random.Random(seed); groups = [Group(rng, rng.choice([20, 28, 34, 38])) for _ in range(9)]; mx = threading.Lock(); cnt = [0]
    over = threading.Event()
    def run(x):
        with mx: cnt[0] += 1; k = cnt[0]
        if k > len(groups): x.until(lambda: False, 60); return
        r = random.Random(seed * 100 + k)
        g = groups[k - 1]
        if r.randrange(8) == 0: x.note("leave"); x.close(); return
        if r.randrange(8) == 0:                 # a first message that stays incomplete
            x.g = g; b = x.hello(g); x.note("hello"); x.send(b[:r.randrange(1, len(b))], r); x.pump(0.05)
            if r.randrange(2): reset(x)
            else: ends(x, "half", r)
            return
        x.start(g, r if r.randrange(3) else None)
        if not x.until(lambda: x.ok or x.eof, 30): x.note("late"); return
        if r.randrange(8): talk(x, r, r.randrange(1, 12), r.choice([20000, 60000, 90000]))
        if r.randrange(10) < 7 and not x.eof: x.c.tell("step %d 4000;still %d 0" % (x.engine(), x.engine())); x.until(lambda: x.reached() > max([q for q in x.open if q < 100000] + [0]), 30); x.quiet()
        ends(x, r.choice(["zero", "zero", "zero", "zero", "leave", "reset", "half", "stay"]), r)
    cl = Client(exe, rng, seed=seed, on_accept=run, env={"VDF_SNDBUF": rng.choice(["0", "0", "4608"])}, n=rng.choice([1, 2, 3, 3, 3]))
    cl.tell("pace %d" % rng.choice([300, 1000, 3000]))
    t = time.time() + rng.choice([2, 6, 10, 14])
    while time.time() < t and cnt[0] <= len(groups) and cl.p.poll() is None: time.sleep(0.05)
    return finish(cl)


def replay(exe, seed, scheds):
    """the model's schedules: one model step is one message, half a message, or one report of the board"""
    res = []
    for n, s in enumerate(scheds):
        rng = random.Random(seed * 1000 + n); cl = Client(exe, rng, n=2, seed=seed + n, env={"VDF_TARGET": "20000"}); cl.tell("pace 500;step 0 1;step 1 1;step 2 1"); conn, rest = {}, {}
        def fresh(i):
            t = time.time() + 20
            while time.time() < t:
                with cl.mx: free = [x for x in cl.sess if x not in conn.values() and not x.closed and not x.eof and not hasattr(x, "used")]
                if free: conn[i] = free[0]; free[0].used = True; return free[0]
                if cl.p.poll() is not None: break
                time.sleep(0.002)
            return None
        def gather():
            for x in list(cl.sess):
                if getattr(x, "used", False) and not x.closed: x.pump(0)
        try:
            for e in s:
                gather(); i = e[1] if len(e) > 1 else 0; x = conn.get(i)
                if x is None and e[0] in ("req", "zero", "rest", "report", "bad"): continue     # (reports go on while the end of the session is on its way)
                if e[0] == "hello":
                    if x is None: x = fresh(i)
                    if x is None: cl.odd.append("unserved"); break
                    g = Group(rng, 26); b = x.hello(g); time.sleep(0.005); x.note("hello"); k = rng.randrange(1, len(b)); x.send(b[:k]); rest[i] = b[k:]
                elif e[0] == "req":
                    if not x.until(lambda: x.ok, 20): x.note("late"); break
                    it = e[2] * 2000; b = str(it).encode(); b = b"%02d" % len(b) + b; k = rng.randrange(1, len(b)); x.note("req", it); x.open.append(it); x.send(b[:k]); rest[i] = b[k:]
                elif e[0] == "zero":
                    if not x.until(lambda: x.ok, 20): x.note("late"); break
                    x.note("zero"); x.send(b"01"); rest[i] = b"0"
                elif e[0] == "rest":
                    if x is None: continue
                    time.sleep(rng.choice([0, 0, 0.004])); x.send(rest.pop(i))
                    if x.ok and any(k[0] == "zero" for t, q, k in cl.ev if q is x): x.bye(); conn.pop(i)
                elif e[0] == "leave":
                    if x is None: x = fresh(i)
                    if x is None: continue
                    x.note("leave"); rng.choice([reset, lambda y: y.close()])(x); conn.pop(i, None)
                elif e[0] == "report":
                    if not x.until(lambda: x.ok, 20): x.note("late"); break
                    en = x.engine(); off = cl.offs[en]; v = e[2] * 2000
                    if v > off: cl.tell("goto %d %d" % (en, v - off)); x.until(lambda: x.reached() >= v or x.eof, 5)
                elif e[0] == "bad":
                    if not x.until(lambda: x.ok, 20): x.note("late"); break
                    cl.tell("bad %d %d" % (x.engine(), rng.randrange(1, 8))); x.pump(0.01)
                elif e[0] == "term": break
            for i, x in conn.items():
                if i not in rest and x.ok and not x.eof and not x.closed: x.quiet()
            cl.term()
            for x in list(cl.sess):
                if not x.closed and x.g: x.until(lambda: False, 10)
        except OSError as ex: cl.odd.append("lost"); print("lost", ex)
        tr, target = finish(cl); res += tr
    return res, target


def unreachable(exe, seed):
    """no timelord for a long time, with a small number of descriptors; then one"""
    rng = random.Random(seed); g = Group(rng, 28)
    def run(x):
        if any(y.g for y in cl.sess): x.until(lambda: False, 60); return
        x.start(g, rng)
        if not x.until(lambda: x.ok, 20): x.note("late"); return
        x.req(3000); x.req(17000); x.until(lambda: x.reached() > 17000, 20); x.quiet(); x.zero(); x.bye()
    cl = Client(exe, rng, n=1, seed=seed, listen=False, nofile=24, on_accept=run); time.sleep(4); cl.listen()
    t = time.time() + 30
    while time.time() < t and not any(x.g and x.closed for x in cl.sess): time.sleep(0.1)
    if not any(x.g for x in cl.sess): cl.odd.append("unserved")
    return finish(cl)


def told_early(exe, seed):
    """told to end while sessions wait for their first message, or have not connected"""
    rng = random.Random(seed); res = []
    for k in range(3):
        cl = Client(exe, rng, n=rng.choice([1, 2, 3]), seed=seed, listen=k != 2); time.sleep(rng.choice([0.1, 0.3, 1]))
        tr, target = finish(cl, 15); res += tr
    return res, target


def target(exe, seed):
    """the engine reaches its end with requests pending, and more follow"""
    rng = random.Random(seed); top = rng.choice([20000, 59999, 60000]); groups = [Group(rng, 28) for _ in range(6 if seed % 2 == 0 else 10)]; mx = threading.Lock(); cnt = [0]
    def run(x):
        with mx: cnt[0] += 1; k = cnt[0]
        if k > len(groups): x.until(lambda: False, 60); return
        r = random.Random(seed * 100 + k); x.start(groups[k - 1])
        if not x.until(lambda: x.ok, 30): x.note("late"); return
        end = x.c.target
        if end == hwtl.TARGET: x.zero(); x.bye(); return
        for _ in range(r.randrange(0, 8)): x.req(r.choice([end, end - 1, r.randrange(1, end), r.randrange(end - 4000, end), 4000]))
        e = x.engine(); how = r.randrange(4) if seed % 2 == 0 else r.choice([2, 2, 2, 0])
        if how == 0: x.until(lambda: x.reached() == end, 30)
        elif how == 1: x.pump(0.1); x.c.tell("goto %d %d" % (e, end - x.c.offs[e]))
        elif how == 2:                   # ends in the pass in which another engine has to be started again
            o = r.randrange(3); x.pump(r.choice([0.05, 0.5])); x.c.tell("bad %d 2;goto %d %d;bad %d 2" % ((e + 1) % 3, e, end - x.c.offs[e], (e + 2) % 3))
        x.until(lambda: x.reached() == end, 30); x.pump(r.choice([0, 0.1]))
        for _ in range(r.randrange(1, 6)): x.req(r.choice([end, end - 1, r.randrange(1, end), 4000]), r if r.randrange(2) else None)
        x.quiet(75)
        for _ in range(r.randrange(2)): x.req(r.randrange(1, end)); x.quiet(75)
        ends(x, r.choice(["zero", "zero", "leave", "reset"]), r)
    cl = Client(exe, rng, seed=seed, on_accept=run, args=["--auto-freq-period", "10"] if seed % 2 else [], env={"VDF_TARGET": str(top)}); cl.tell("pace 1000")
    t = time.time() + 280
    while time.time() < t and sum(x.finished for x in cl.sess) < len(groups) and cl.p.poll() is None: time.sleep(0.05)
    return finish(cl)


def not_reading(exe, seed):
    """one timelord does not read for a while; the others are served; then it gets everything"""
    rng = random.Random(seed); groups = [Group(rng, 28) for _ in range(3)]; mx = threading.Lock(); cnt = [0]; fed = threading.Event(); done = threading.Event()
    how = rng.choice(["read", "read", "zero", "reset"])
    def run(x):
        with mx: cnt[0] += 1; k = cnt[0]
        if k > 3: x.until(lambda: False, 60); return
        r = random.Random(seed * 100 + k); x.start(groups[k - 1])
        if not x.until(lambda: x.ok, 30): x.note("late"); return
        if k == 1:
            for _ in range(60): x.req(r.choice([r.randrange(1, 3000), 400, r.randrange(1, 1000)]))
            fed.set(); time.sleep(6); done.wait(30)
            if how == "reset": reset(x); return
            if how == "zero": x.zero(); x.bye(); return
            x.quiet(); x.zero(); x.bye()
        else:
            fed.wait(20); time.sleep(3)
            for _ in range(4): x.req(r.randrange(1, 20000), r)
            x.until(lambda: x.reached() > 20000, 20); x.quiet()
            if k == 2: done.set()
            x.zero(); x.bye()
    cl = Client(exe, rng, seed=seed, on_accept=run, rcvbuf=2304, env={"VDF_SNDBUF": "2304"}); cl.tell("pace 1000;step 0 1000;step 1 1000;step 2 1000")
    t = time.time() + 150
    while time.time() < t and sum(x.finished for x in cl.sess) < 3 and cl.p.poll() is None: time.sleep(0.05)
    return finish(cl)


def top_speed(exe, seed):
    """the clock is raised until it can be raised no further; the sessions go on"""
    rng = random.Random(seed); g = [Group(rng, 28) for _ in range(2)]; mx = threading.Lock(); cnt = [0]; over = threading.Event()
    def run(x):
        with mx: cnt[0] += 1; k = cnt[0]
        if k > 2: x.until(lambda: False, 60); return
        x.start(g[k - 1])
        if not x.until(lambda: x.ok, 30): x.note("late"); return
        while not over.is_set() and not x.eof: x.req(x.reached() + rng.randrange(3000)); x.pump(0.4)
        x.quiet(); x.zero(); x.bye()
    cl = Client(exe, rng, n=2, seed=seed, on_accept=run, args=["--auto-freq-period=10", "--freq", "2200"]); cl.tell("pace 40;step 0 200;step 1 200"); time.sleep(0.5)
    t = time.time() + 60; seen, since = 0, time.time()
    while time.time() < t and cl.p.poll() is None:
        cl.tell("clock 11"); time.sleep(0.04)
        with cl.mx: n = sum(1 for _, s_, k in cl.ev if s_ is None and k[:2] == ["clk", "0"])
        if n > seen: seen, since = n, time.time()
        if time.time() > since + 4: break
    over.set(); time.sleep(2)
    return finish(cl)


def malformed(exe, seed):
    """one timelord sends what is no message; the others do not notice"""
    rng = random.Random(seed); groups = [Group(rng, 28) for _ in range(14)]; mx = threading.Lock(); cnt = [0]; over = threading.Event(); res = []
    def spoil(b, r, g):
        d = str(g.D).encode()
        return r.choice([b"X" + b[1:], b"\x00" + b[1:], b[:1] + b"999" + b"-" + b"7" * 700, b[:1] + b"400" + b"-" + b"7" * 399 + b"\x64" + g.f, b"T012" + b"-12a45678901" + b"\x64" + g.f, b"T003" + b"000" + b"\x64" + g.f,
                         b"T%03d" % (len(d) - 1) + d[1:] + b"\x64" + g.f, b[:len(b) - 100] + b"\xff" * 100, b[:len(b) - 100] + b"\x00" + b"\xff" * 99, b"T" + b"\xff" * 500, b"T350" + b"-" + b"7" * 349 + b"\x64" + g.f, b[:len(b) - 101] + b"\xff" + g.f + b"\x00" * 400])
    def run(x):
        with mx: cnt[0] += 1; k = cnt[0]
        if k > len(groups): x.until(lambda: False, 60); return
        r = random.Random(seed * 100 + k); g = groups[k - 1]
        if k == 1:                        # the one that has to be left alone
            x.start(g)
            if not x.until(lambda: x.ok, 30): x.note("late"); return
            while not over.is_set() and not x.eof: x.req(x.reached() + r.randrange(3000)) if len(x.open) < 3 else None; x.pump(0.2)
            x.until(lambda: all(x.reached() > q for q in x.open), 10); x.quiet(); x.zero(); x.bye(); return
        if r.randrange(3) == 0:
            b = spoil(x.hello(g), r, g); x.g = None; x.send(b, r if r.randrange(2) else None); x.until(lambda: False, 0.5); reset(x); return
        x.start(g)
        if not x.until(lambda: x.ok, 30): x.note("late"); return
        x.req(r.randrange(1, 9000)); x.pump(0.1); x.note("junkmsg"); x.send(r.choice([b"99" + b"1" * 99, b"17" + b"1" * 17, b"20" + b"9" * 20, b"\xff\xff\xff\xff", b"ab12", b"16" + b"9" * 16, b"3" * 600, b"-1" + b"5" * 30]), r if r.randrange(2) else None); x.until(lambda: False, 0.6)
        reset(x)
    cl = Client(exe, rng, seed=seed, on_accept=run); cl.tell("pace 1000;step 0 2000;step 1 2000;step 2 2000")
    t = time.time() + 25
    while time.time() < t and sum(x.finished for x in cl.sess) < len(groups) - 1 and cl.p.poll() is None: time.sleep(0.05)
    over.set(); time.sleep(0.5); t = time.time() + 30
    while time.time() < t and not all(x.finished for x in cl.sess[:1]): time.sleep(0.1)
    return finish(cl)


SCENES = {"wander": (wander, 24), "unreachable": (unreachable, 1), "told_early": (told_early, 2), "target": (target, 6), "not_reading": (not_reading, 3), "top_speed": (top_speed, 1), "malformed": (malformed, 4)}


def run(c):
    exe = hw.build(c, "hwclient", ["hwclient.cpp"], asan=True, opt="-O1"); c.java()
    K = 4 if c.thorough else 1; seed = c.seed * 7919; only = os.environ.get("P19_ONLY")
    jobs = []
    sch = schedules(c, 24 * K, c.seed + 3) if not only or "replay" in only else []
    jobs += [("replay", replay, seed + 50 + i, sch[i::8]) for i in range(8) if sch]
    for name, (fn, n) in SCENES.items():
        if not only or name in only: jobs += [(name, fn, seed + i, None) for i in range(n * K)]
    jobs.sort(key=lambda j: {"top_speed": 0, "not_reading": 1, "target": 2, "malformed": 3, "replay": 4}.get(j[0], 5))
    def one(i):
        name, fn, s, a = jobs[i]
        try: return fn(exe, s) if a is None else fn(exe, s, a)
        except Exception as e:
            hwtl.kill_all()
            return [[{"k": "client"}, {"k": "broken", "what": repr(e)[:300]}]], hwtl.TARGET
    box = {}
    def play(): box["r"] = forkmap(one, list(range(len(jobs))), n=12)
    parallel([play] + (models(c) if not only else []), 4)
    cnt = dict(sessions=0, answers=0, restarts=0, reports=0, schedules=len(sch)); vals = []
    for (name, fn, s, a), (trs, top) in zip(jobs, box["r"]):
        for t in trs:
            if t[-1].get("k") == "broken": raise vlib.MachineryError("%s: %s" % (name, t[-1]["what"]))
            k = [e["k"] for e in t]; cnt["sessions"] += k[0] == "open"; cnt["answers"] += k.count("got"); cnt["restarts"] += max(0, k.count("job") - 1); cnt["reports"] += k.count("rep")
            vals.append((name, s, top, t))
    bad = []
    def check(part, j):
        for top in sorted(set(v[2] for v in part)):
            g = [v for v in part if v[2] == top]; p = os.path.join(c.work, "t%d_%d.ndjson" % (j, top))
            # one file of many sessions: each "open" or "client" starts afresh
            while g:
                at, ev = [], []
                for v in g: at.append(len(ev)); ev += v[3]
                write_ndjson(p, ev); r = c.validate("HwClientTrace", TCFG % top, p, n=len(g), heap="2g")
                if r is None: break
                m = re.match(r"line (\d+)", r)
                if not m: raise vlib.MachineryError(r)
                l = int(m.group(1)) - 1; i = max(x for x in range(len(at)) if at[x] <= min(l, len(ev) - 1))
                bad.append((g[i][0], g[i][1], r, g[i][3], ev[min(l, len(ev) - 1)])); g = g[i + 1:]
    parallel([lambda j=j: check(vals[j::6], j) for j in range(6)], 6)
    for name, s, r, t, e in bad[:20]: c.violate("%s (seed %d): not allowed by HwClientTrace: %s" % (name, s, json.dumps(e)[:300]), data={"trace": t, "event": e})
    c.extra.update(cnt)
    if not bad and not only and (cnt["sessions"] < 60 or cnt["answers"] < 200): raise vlib.MachineryError("too little was exercised: %s" % cnt)
    return 0
