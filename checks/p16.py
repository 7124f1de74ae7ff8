"""P16: a session ends at any moment: schedules of the session model driven into the real client, and stops of the n-weso manager."""
import json, os, random, time
import api, vlib, p11, p15, timelord as tl
from vlib import write_ndjson, parallel
from p15 import Group, judge, record, MODEL, PROPS, TCFG

I = tl.iter_bytes
ENDS = ("stop", "bad", "half", "close", "reset")
HUGE = {"S": lambda r: r.choice([10 ** 7, 3 * 10 ** 7]), "T": lambda r: r.randrange(5 * 10 ** 8, 799 * 10 ** 6), "N": lambda r: r.choice([1 << 33, 10 ** 12, 2 ** 64 - 1, 1 << 26])}


def schedules(c, mode, bounds, maxreq, cap, end, num, seed):
    r = c.tlc("Session", (MODEL % (mode, bounds, maxreq, cap, end, "TRUE")) + "INVARIANTS Emit\nCHECK_DEADLOCK FALSE\n", args=["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(seed)], timeout=300)
    out = []
    for l in r.prints:
        try: s = json.loads(json.loads(l)) if l.startswith('"') else json.loads(l)
        except ValueError: continue
        s = [x for x in s if x != ["-"]]
        if s and s not in out: out.append(s)
    if not out: raise vlib.MachineryError("no schedules: " + r.out[-1500:])
    return out


def varied(rng, scheds, n):
    """n schedules of as many kinds as there are"""
    kinds = {}
    for s in scheds: kinds.setdefault((sum(x[0] == "ask" for x in s), sum(x[0] == "sent" for x in s), s[-1][0], s[-2][0] if len(s) > 1 else ""), []).append(s)
    out, ks = [], sorted(kinds)
    for k in ks: rng.shuffle(kinds[k])
    while len(out) < n and ks:
        rng.shuffle(ks)
        for k in list(ks):
            out.append(kinds[k].pop())
            if not kinds[k]: ks.remove(k)
    return out[:n]


def steps_of(rng, mode, g, sched):
    """a schedule of the model as a timelord's script"""
    steps, n, vals, used = [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)], 0, {}, set()
    wanted = {x[1] for x in sched if x[0] == "sent"}
    for x in sched:
        pause = rng.choice([0, 0, 0, rng.randrange(30), rng.randrange(200)])
        if pause: steps.append(("pause", pause))
        if x[0] == "ask":
            b = x[1]
            if b not in vals:
                if b in wanted: v = rng.choice([1, rng.randrange(1, 99), rng.randrange(1, 3000), rng.randrange(1, 40000)])
                else: v = HUGE[mode](rng) if rng.randrange(2) else rng.randrange(1, 300000) if mode != "N" else rng.randrange(1, 65000)
                while v in used: v += 1
                used.add(v); vals[b] = v
            steps.append(("send", I(vals[b])))
        elif x[0] == "sent": n += 1; steps.append(("msgs", n))
        elif x[0] == "stop": steps.append(("send", rng.choice([b"00", b"00", b"010"])))
        elif x[0] == "bad": steps.append(("send", p15.bad_iteration(rng)))
        elif x[0] in ("half", "close", "reset"): steps.append((x[0],))
        elif x[0] == "vanish": steps.append((rng.choice(["close", "reset"]),))
    return steps + [("end",)]


def run(c):
    exe, asan = p15.build(c); man = c.build("manager", ["manager.cpp"], vdf=True)
    models = [("S", "{1, 2}", 2, 1, 2), ("N", "{1, 2}", 2, 1, 2), ("T", "{1, 2}", 3, 2, 2)]
    if c.thorough: models += [("N", "{1, 2}", 3, 1, 3), ("S", "{1, 2, 3}", 4, 1, 3), ("T", "{1, 2, 3}", 4, 2, 3)]
    jobs = [lambda m=m: c.model("Session", MODEL % (m + ("FALSE",)) + PROPS, workers=3, timeout=850) and None for m in models]
    k = 1 if not c.thorough else 6
    gens = [("S", "{1, 2}", 2, 1, 2, 2500 * k), ("N", "{1, 2, 3}", 3, 1, 3, 2500 * k), ("T", "{1, 2, 3}", 3, 2, 3, 2500 * k)]
    jobs += [lambda g=g: (g[0], schedules(c, *g, c.seed * 10 + ord(g[0]))) for g in gens]
    jobs += [lambda: ("M", p11.schedules(c, 2, 2, 9, (0, 4, 7, 8), 20 * k, c.seed)), lambda: ("M", p11.schedules(c, 3, 3, 22, (3, 8, 17, 21), 20 * k, c.seed + 1))]
    todo = {"S": [], "N": [], "T": [], "M": []}
    for r in parallel(jobs, 8):
        if r: todo[r[0]] += r[1]
    pick = random.Random("%d/p16" % c.seed)
    c.extra["distinct schedules of the model"] = {m: len(v) for m, v in todo.items()}
    for m, n in (("S", 96), ("N", 96), ("T", 48)): todo[m] = varied(pick, todo[m], n * k)
    pick.shuffle(todo["M"]); todo["M"] = todo["M"][:40 * k]
    c.extra["schedules"] = {m: len(v) for m, v in todo.items()}
    c.sample(json.dumps({m: v[0] for m, v in todo.items()})[:1500])

    def one(w):
        rng = random.Random("%d/p16/%d" % (c.seed, w)); ev, bad, T = [], [], []
        groups = [Group(rng, 24, True), Group(rng, 32), Group(rng, 36)]
        big = Group(rng, rng.choice([512, 1000, 1024]))

        def go(what, steps, h, ex=exe, limit=90, **kw):
            if bad: return
            t0 = time.time(); s = tl.Session(ex, steps, rng, limit=limit, hold=rng.choice([0, 0, 0.05, 0.3]), **kw)
            T.append((time.time() - t0, what)); judge(bad, what, s)
            if ("ok",) in steps and not any(o[0] == "ok" for o in s.out): bad.append(("refused", "%s: the session is refused" % what))
            ev.append(record(s, h, False, what))
            if s.left: bad.append(("left", "%s: %d threads still run when the stop is acknowledged" % (what, s.left)))

        for mode in "SNT":
            for i, sc in enumerate(todo[mode]):
                if i % 8 != w: continue
                g = rng.choice(groups); cpus = rng.choice(["8", "16"])
                go("mode %s, %s processors, schedule %s" % (mode, cpus, sc), steps_of(rng, mode, g, sc), g.h, ex=rng.choice([exe, exe, asan]) if mode != "T" else exe,
                   env=dict(p15.ASAN, VDF_CPUS=cpus), jitter=rng.choice([0, 0, 5, 30]), frag=rng.randrange(2) == 0)
            # the connection is lost while the client gets ready
            g = rng.choice(groups)
            for _ in range(2 * k):
                go("mode %s, connection lost before the answer" % mode, [("send", tl.init_bytes(mode, g.D, g.f)), ("pause", rng.choice([0, 0, 1, 3, 20])), (rng.choice(["reset", "reset", "close", "half"]),), ("end",)], g.h, frag=False, jitter=rng.choice([0, 15]), env={"VDF_CPUS": rng.choice(["8", "16"])})
            # a big discriminant, endless squaring on two threads, requests that wait
            its = [HUGE[mode](rng) for _ in range(rng.randrange(1, 3))]
            end = rng.choice([("send", b"00"), ("half",), ("close",), ("reset",), ("send", b"xx")])
            go("mode %s, big discriminant, requests %s, %s" % (mode, its, end), [("send", tl.init_bytes(mode, big.D, big.f)), ("ok",)] + [("send", I(i)) for i in its] + [("pause", rng.randrange(400)), end, ("end",)], "", frag=False, env={"VDF_CPUS": rng.choice(["8", "16"])})
            # squaring is over, proving goes on (it would take minutes)
            g = rng.choice(groups)
            if mode == "S": its, wait = [rng.randrange(10 ** 6, 3 * 10 ** 6)], ("ran", 20)
            elif mode == "T": its, wait = rng.sample(range(200000, 900000), 2), ("pause", rng.randrange(100, 900))
            else: its, wait = [rng.randrange(60000, 65000), rng.randrange(150000, 900000)], ("pause", rng.randrange(100, 900))
            end = rng.choice([("send", b"00"), ("send", b"00"), ("half",), ("close",)])
            go("mode %s, requests %s, slow proving, %s" % (mode, its, end), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)] + [("send", I(i)) for i in its] + [wait, ("slow",), ("pause", rng.randrange(50, 300)), end, ("end",)], g.h, frag=False, env={"VDF_CPUS": "8"})
        # squaring stands still at a chosen point, with proofs (which would take minutes) and waits in any phase
        for i in range(4 * k):
            g = rng.choice(groups); slow = rng.choice([0, 2000, 2000, 4000]); mode = "TTTSTTTN"[(w + i) % 8]; end = rng.choice([("send", b"00"), ("send", b"00"), ("half",), ("close",), ("reset",), ("send", b"xx")])
            if mode == "T":
                its = [rng.randrange(300000, 900000)]; lo, hi = [(0.02, 0.6), (0.68, 0.87), (0.91, 0.98), (1.03, 1.2)][(w + i) // 3 % 4]; hold = int(its[0] * rng.uniform(lo, hi))
                if rng.randrange(2): its.append(rng.randrange(300000, 900000))
            elif mode == "S": its = [rng.randrange(10 ** 6, 3 * 10 ** 6)]; hold = int(its[0] * rng.uniform(0.02, 0.98))
            else: its = [rng.randrange(1, 12) * 65536 - rng.randrange(1, 30000) for _ in range(rng.randrange(1, 4))]; hold = int(max(its) * rng.uniform(0.3, 1.3))
            go("mode %s, requests %s, squaring held at %d, slow %d, %s" % (mode, its, hold, slow, end), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)] + [("send", I(x)) for x in its] + [("idle", 12), end, ("end",)], g.h, frag=False, limit=45, env={"VDF_CPUS": "8", "VDF_HOLD": str(hold), "VDF_SLOW": str(slow)})
        # a thread of a request is in the middle of an operation when it is stopped
        for i in range(k):
            g = rng.choice(groups); mode = "N" if i % 2 == 0 else "ST"[w % 2]; its = {"N": [rng.randrange(2, 6) * 65536 - rng.randrange(1, 30000), rng.randrange(30000, 60000)], "S": [rng.randrange(300000, 10 ** 6)], "T": [rng.randrange(300000, 500000)]}[mode]
            go("mode %s, requests %s, very slow arithmetic" % (mode, its), [("send", tl.init_bytes(mode, g.D, g.f)), ("ok",)] + [("send", I(x)) for x in its] + [("pause", rng.randrange(1200, 1800)), ("send", b"00"), ("end",)], g.h, frag=False, env={"VDF_CPUS": "8", "VDF_SLOW": "25000"})
            go("mode N, request below the first segment, very slow arithmetic", [("send", tl.init_bytes("N", g.D, g.f)), ("ok",), ("send", I(rng.randrange(30000, 65536))), ("pause", rng.randrange(500, 1500)), ("send", b"00"), ("end",)], g.h, frag=False, env={"VDF_CPUS": "8", "VDF_SLOW": "150000", "VDF_HOLD": "40000"})
            # provers of long segments have been put aside for new short ones
            n = rng.choice([1, 2, 3, 3]) * 262144 - rng.randrange(100, 2000)
            go("mode N, squaring held at %d, provers put aside" % n, [("send", tl.init_bytes("N", g.D, g.f)), ("ok",), ("send", I(n + rng.randrange(10 ** 6))), ("idle", 12), ("pause", 100), ("slow",), ("on",), ("pause", rng.randrange(400, 1200)), rng.choice([("send", b"00"), ("send", b"00"), ("close",), ("half",)]), ("end",)], g.h, frag=False, limit=45, env={"VDF_CPUS": "8", "VDF_HOLD": str(n)})
        # the manager: stopped after any prefix of a schedule, and while it blocks
        g = groups[0]; R = p11.Runner(man, g.D, g.x, int(g.h, 16))
        for i, sc in enumerate(todo["M"]):
            if i % 8 != w or R.bad: continue
            cmds = p11.commands(rng, sc[2]); cmds = cmds[:rng.randrange(1, len(cmds) + 1)]
            # the last steps need not have come to rest
            cmds = [x if j < len(cmds) - 3 or x[0] != "Q" else "q" + x[1:] for j, x in enumerate(cmds)]
            R.script(sc[0], sc[1], "fake", rng.choice([0, 0, 30, 200]), cmds + ["S"], weak=True)
        for _ in range(2 * k):
            if R.bad: break
            d = rng.choice([30, 100, 200])
            R.script(2, rng.choice([1, 2, 3]), "fake", d, ["A%d" % (65536 + rng.randrange(9)), "q%d" % rng.randrange(1, 65536 * 8), "q%d" % (65536 * rng.randrange(2, 9)), "S"], weak=True)
        bad += R.bad; n = R.n
        try: R.srv.close()
        except Exception: pass
        p = os.path.join(c.work, "s%d.ndjson" % w); write_ndjson(p, ev)
        return p, len(ev), bad, T, n
    g = vlib.forkmap(one, range(8), 5)
    for r in g:
        for key, b in r[2]: c.violate(b, key=key)

    def check(r):
        why = c.validate("SessionTrace", TCFG, r[0], n=r[1])
        if why: c.violate("session: " + why, key="trace")
    parallel([lambda r=r: check(r) for r in g], 8)
    c.extra["sessions"] = sum(r[1] for r in g); c.extra["manager stops"] = sum(r[4] for r in g)
    if os.environ.get("P15T"):
        for t in sorted([t for r in g for t in r[3]], reverse=True)[:40]: print("%.2f %s" % t)
        print([round(sum(t[0] for t in r[3]), 1) for r in g])
