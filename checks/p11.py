"""P11: n-Wesolowski manager: scripts from the model, replayed step by step into the real manager; every proof checked."""
import json, os, random
import api, vlib
from vlib import hx, write_ndjson, parallel
from api import fs, fj

TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
MODEL = "SPECIFICATION Spec\nCONSTANTS Lengths = %d\n N = %d\n End = %d\n Bounds = %s\n MaxParts = %d\n Record = %s\nINVARIANTS %s\nVIEW View\n%s"
INV = "Limit First Busy Sound All Everything"
U = 65536


def lens_of(proof, T):
    b = bytes.fromhex(proof)[200:]; out = []
    while len(b) >= 141: out.append(int.from_bytes(b[:8], "big")); b = b[141:]
    out.reverse()
    return out + [max(0, T - sum(out))]


def schedules(c, lengths, n, end, bounds, num, seed):
    r = c.tlc("Manager", (MODEL % (lengths, n, end, "{" + ",".join(map(str, bounds)) + "}", 63, "TRUE", "Emit", "CHECK_DEADLOCK FALSE\n")).replace("VIEW View\n", ""),
              args=["-simulate", "num=%d" % num, "-depth", "400", "-seed", str(seed)], timeout=300)
    out = []
    for l in r.prints:
        try: s = json.loads(json.loads(l)) if l.startswith('"') else json.loads(l)
        except ValueError: continue
        if s and s not in out: out.append(s)
    if not out: raise vlib.MachineryError("no schedules: " + r.out[-1500:])
    return [(lengths, n, s) for s in out]


def commands(rng, sched, full=False):
    """the model's steps as commands; requests get a remainder, ends may be seen late by the manager"""
    out, used, off = [], set(), rng.randrange(0, 9000)
    for st in sched:
        if st[0] == "A": out.append("A%d" % (st[1] * U + off))
        elif st[0] == "F": out.append("%s%d:%d" % ("f" if rng.randrange(6) == 0 else "F", st[1] * U, st[2] * U))
        elif st[0] == "T": out.append("T")
        else:
            it = st[1] * U + (0 if st[2] == 0 else rng.choice([1, rng.randrange(1, 300), rng.randrange(1, 3000), rng.randrange(1, U) if full or rng.randrange(12) == 0 else 7]))
            if it in used: it += 11
            used.add(it); out.append("Q%d" % it)
    return out


class Runner:
    def __init__(self, exe, D, x, h):
        self.srv = api.Server(exe, timeout=120); self.D, self.x, self.h = D, x, h
        self.ev, self.proofs, self.bad, self.n = [], [], [], 0
        self.proofs.append({"op": "group", "D": hx(D), "f": fj(x), "h": hx(h)})

    def script(self, lengths, threads, mode, delay, cmds, weak=False, allow_hang=False):
        what = "n-Wesolowski manager, %d lengths, %d provers, %s: %s" % (lengths, threads, mode, " ".join(cmds))
        out = self.srv.call_lines("%s %s %s %d %d %s %d %s" % (hx(self.D), fs(self.x), hx(self.h), lengths, threads, mode, delay, " ".join(cmds)), timeout=150)
        self.n += 1
        recs, told = [json.loads(l) for l in out if l.startswith("{")], []
        asked = set()
        if out[-1] != "end" and not any(r.get("hang") for r in recs): self.bad.append(("fails", "%s: after %d steps: %s" % (what, len(recs), out[-1]))); self.srv.close(); return
        ev = [{"c": "start", "lengths": lengths, "threads": threads}]
        q = lambda i: [i, i // U, i % U]
        stale, lastn = False, 0       # an end that the manager saw late frees its place at the next event only
        for r in recs:
            if r.get("skip"): continue
            if r["c"] == "S" and "hang" in r and r["hang"]:
                self.bad.append(("stop-hangs", "%s: the stop does not end: %s" % (what, r["hang"]))); ev = None; self.srv.close(); break
            c = r["c"]
            if c[0] == "f": stale = True
            elif c[0] in "FDR" or r["n"] != lastn: stale = False
            lastn = r["n"]
            e = {"c": "F" if c[0] == "f" else c[0], "quiet": r["quiet"], "run": r["run"], "idle": r["idle"], "odd": r["odd"], "maxrun": r["maxrun"],
                             "ans": [q(a[0]) for a in r["ans"] if a[2]], "open": [q(i) for i in r["open"]], "sleep": [q(i) for i in r["sleep"]], "exact": not stale and not weak, "hang": "", "n": r["n"]}
            if c[0] in "Ff": a, b = c[1:].split(":")[:2]; e["s"], e["len"] = int(a) // U, int(b) // U
            if c[0] == "Q": i = int(c[1:]); e["id"], e["b"], e["rest"] = q(i)
            if c[0] == "R": e["asked"] = [q(i) for i in r["asked"] if i not in asked]
            asked |= set(r["asked"])
            if c[0] != "S":
                for a in r["ans"]:
                    if a[2] == "": self.bad.append(("empty", "%s: no proof for %d" % (what, a[0])))
            for a in r["ans"]:
                if a[2]:
                    T = a[0]; ls = lens_of(a[2], T)
                    if a[1] != len(ls) - 1: self.bad.append(("witness-type", "%s: witness type %d for %d parts" % (what, a[1], len(ls))))
                    self.proofs.append({"op": "multi", "D": hx(self.D), "f": fj(self.x), "h": hx(self.h), "T": hx(T), "lens": [hx(v) for v in ls], "out": a[2], "what": what[:300]})
            ev.append(e)
        if ev: self.ev += ev


def run(c):
    exe = c.build("manager", ["manager.cpp"], vdf=True)
    c.java()
    shapes = [(2, 2, 8, "{0, 5, 6}", 5, "FALSE", INV, "PROPERTY Answered\n"), (2, 1, 9, "{0, 5, 6}", 4, "FALSE", INV, "PROPERTY Answered\n"), (3, 2, 17, "{5}", 63, "FALSE", INV, "")]
    if c.thorough: shapes += [(2, 3, 9, "{0, 5, 6}", 63, "FALSE", INV, "PROPERTY Answered\n"), (3, 3, 18, "{4, 17}", 63, "FALSE", INV, ""), (2, 2, 13, "{0, 4, 9}", 6, "FALSE", INV, "PROPERTY Answered\n")]
    jobs = [lambda s=s: c.model("Manager", MODEL % s, workers=4, timeout=850) and None for s in shapes]
    scripts = []
    gens = [(2, 1, 6, (1, 3, 5)), (2, 2, 9, (0, 4, 7, 8)), (2, 3, 13, (1, 5, 8, 12)), (3, 2, 18, (0, 6, 16, 17)), (3, 3, 22, (3, 8, 17, 21)), (3, 4, 34, (5, 16, 20, 33)), (8, 3, 12, (0, 2, 9, 11))]
    k = 14 if not c.thorough else 120
    jobs += [lambda g=g: schedules(c, g[0], g[1], g[2], g[3], k, c.seed * 100 + i) for i, g in enumerate(gens)]
    for r in parallel(jobs, 8): scripts += r or []
    c.extra["schedules"] = len(scripts)
    c.sample(str(scripts[0])[:600])

    def one(w):
        rng = random.Random("%d/p11/%d" % (c.seed, w))
        D = api.rand_disc(rng, rng.choice([24, 32])); x = rng.choice([(2, 1), api.rand_form(rng, D)]); h = api.order_multiple(D, x)
        R = Runner(exe, D, x, h)
        for i, (lengths, threads, s) in enumerate(scripts):
            if i % 8 == w: R.script(lengths, threads, "fake", 0, commands(rng, s) + ["D", "S"])
        # longer segments that end out of order, requests at any time, ends that come together
        for _ in range(3 if not c.thorough else 15):
            lengths, threads = rng.choice([(2, 2), (2, 3), (3, 3), (4, 4), (8, 3), (3, 6)])
            R.script(lengths, threads, "fake", 0, ["A%d" % (U + rng.randrange(900)), "R%d:%d:%d" % (rng.randrange(1 << 30), rng.randrange(10, 60), rng.randrange(1, 5)), "D", "S"], weak=True)
        # the provers' own threads and witnesses
        for s in rng.sample([t for t in scripts if t[2][-1][0] and max(st[1] for st in t[2] if st[0] == "A") < 14], 2 if not c.thorough else 6):
            R.script(s[0], s[1], "real", 0, [x for x in commands(rng, s[2]) if x[0] != "f"] + ["D", "S"], weak=True)
        R.script(rng.choice([2, 3]), rng.choice([2, 3]), "real", 0, ["A%d" % U, "R%d:%d:%d" % (rng.randrange(1 << 30), rng.randrange(8, 16), 20), "D", "S"], weak=True)
        # storage by background workers, which may be ahead of the squaring loop
        steps, n = [], 0
        for _ in range(rng.randrange(5, 9)):
            n += rng.choice([32768, 33000, 40000, 70000]); steps.append("A%d" % n)
            if rng.randrange(2): steps.append("Q%d" % rng.randrange(1, n + 60000))
        R.script(2, rng.choice([1, 2, 3]), rng.choice(["fakefast", "realfast"]), 0, steps + ["D", "S"], weak=True)
        R.srv.close()
        p1 = os.path.join(c.work, "m%d.ndjson" % w); write_ndjson(p1, R.ev)
        p2 = os.path.join(c.work, "p%d.ndjson" % w); write_ndjson(p2, R.proofs)
        return p1, len(R.ev), p2, len(R.proofs), R.bad, R.n
    g = vlib.forkmap(one, range(8), 8)
    for r in g:
        for key, b in r[4]: c.violate(b, key=key)

    def check(j):
        why = c.validate(j[0], TCFG, j[1], n=j[2])
        if why: c.violate("n-Wesolowski mode: " + why, key="trace")
    parallel([lambda j=j: check(j) for r in g for j in (("ManagerTrace", r[0], r[1]), ("StoreTrace", r[2], r[3]))], 8)
    c.extra["scripts"] = sum(r[5] for r in g); c.extra["proofs"] = sum(r[3] for r in g)
