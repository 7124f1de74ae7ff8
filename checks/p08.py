"""P08: the squaring loop (repeated_square): every iteration delivered in order with the exact form, on every path."""
import json, os, random, subprocess, time
import api, vlib
from vlib import hx, MachineryError, parallel
from api import fs

MODEL = """SPECIFICATION Spec
CONSTANTS
  Batch = 3
  Seg = %d
  Max = %d
  Requested = %d
  TwoWeso = %s
  Switch = %d
  Round = %d
  Limit = %d
INVARIANTS Exact Published Complete NoOverrun Lag %s
PROPERTY Ends
"""
CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
TOK = {"C3": "C", "E0": "e0", "E1": "E333", "E2": "e9999", "X0": "X0", "X1": "X333", "X2": "X666", "X3": "X1000"}


def run(c):
    exe = c.build("loop", ["loop.cpp"], vdf=True)
    c.java()
    # --- the design model, all outcome sequences; with and without the 2-weso stride change and limit
    c.model("VdfLoop", MODEL % (4, 12 if c.thorough else 10, 7, "FALSE", 0, 1, 0, ""), timeout=300)
    c.model("VdfLoop", MODEL % (4, 16 if c.thorough else 13, 0, "TRUE", 6, 5, 12, ""), timeout=300)
    # --- every sequence of batch outcomes up to length 3 (and all of length 4 with the thorough tier), generated by TLC
    depth = 4 if c.thorough else 3
    r = c.tlc("VdfLoop", (MODEL % (4, 40, 30, "FALSE", 0, 1, 0, "Emit")).replace("PROPERTY Ends\n", "")
              + "CONSTRAINT Depth%d\n" % depth, timeout=300)
    scripts = set()
    for l in r.prints:
        if l.startswith('"'):
            s = json.loads(json.loads(l))
            if s: scripts.add(tuple(TOK["%s%d" % (o["kind"], o["k"])] for o in s))
    want = sum(8 ** k for k in range(1, depth + 1))
    if len(scripts) != want: raise MachineryError("TLC generated %d of %d outcome sequences:\n%s" % (len(scripts), want, r.out[-2000:]))
    scripts = sorted(scripts)
    rng = c.rng
    rng.shuffle(scripts)
    if not c.thorough:
        long = [s for s in scripts if len(s) == 3][:230]
        scripts = [s for s in scripts if len(s) < 3] + long
    lines = [[] for _ in range(8)]
    n = [0]

    def add(mode, bits, req, script, stop, every, x=None):
        k = n[0] % 8; n[0] += 1
        D = api.rand_disc(rng, bits)
        x = x or rng.choice([(2, 1), api.rand_form(rng, D)])
        lines[k].append("%s %s %s %d %s %s %d %d\n" % (mode, hx(D), fs(x), req, ",".join(script), stop, every, rng.randrange(1, 1 << 40)))
    # complete replay of the generated sequences, then completing batches until the request is passed
    for s in scripts:
        req = rng.choice([1, 9999, 10000, 10001, 15000, 20000]) if len(s) == 3 else rng.choice([20000, 32767, 32768, 34000])
        add(rng.choice(["plain", "plain", "nweso"]), rng.choice([33, 40, 64]), req, s + ("C",), "-", rng.choice([97, 1009, 5000]))
    # a stop request at any delivery or inside any batch; no request bound
    for _ in range(60 if not c.thorough else 400):
        s = [rng.choice(list(TOK.values())) for _ in range(rng.randrange(1, 5))] + ["C"]
        stop = rng.choice(["%d" % rng.randrange(1, 30000), "c%d" % rng.randrange(1, 6), "10000", "1"])
        add(rng.choice(["plain", "nweso"]), rng.choice([33, 64]), rng.choice([0, 0, 40000]), s, stop, 997)
    # long runs over many checkpoints
    for _ in range(4 if not c.thorough else 24):
        add(rng.choice(["plain", "nweso"]), 33, rng.randrange(90000, 170000), ["C", "E%d" % rng.randrange(1000), "C", "X500", "C", "C", "e9999", "C"], "-", 9973)
    # the real two-thread batches: early stops of their own, failing synchronisation points, corrupted values
    for _ in range(4 if not c.thorough else 40):
        for bits in (160, 200, 256, 320):
            for t in ("R", "S%d" % rng.choice([20, 60, 300, 2000]), "V%d" % rng.choice([20, 60, 300, 2000])):
                D = api.rand_disc(rng, bits)
                add(rng.choice(["plain", "nweso"]), bits, rng.choice([3000, 12000]), [t], "-", 499)
    for bits in (512, 768, 1000, 1024, 1024):
        for t in ("R", "S100", "V100", "V1000"):
            add("plain", bits, 100, [t], "%d" % rng.choice([10**6, 10**6, 3000]), 199)

    def one(k):
        path = os.path.join(c.work, "l%d.ndjson" % k)
        rng.shuffle(lines[k])
        text = "".join(lines[k])
        open(path + ".in", "w").write(text)
        try:
            r = subprocess.run([exe, path], input=text, text=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:
            return "hang", path
        if r.returncode: return "the loop died with status %d: %s" % (r.returncode, r.stderr[-300:]), path
        return None, path
    for attempt in range(2):
        g = parallel([lambda k=k: one(k) for k in range(8)], 8)
        if not any(x[0] for x in g) or any(x[0] == "hang" for x in g): break
    for why, path in g:
        if why:
            ran = [json.loads(l) for l in open(path, errors="replace") if l.startswith('{"e":"start"')] if os.path.exists(path) else []
            c.violate("%s in run %s" % (why, ran[-1] if ran else "?"), key="loop-dies")
    if c.violations: return

    def check(path):
        runs = sum(1 for l in open(path) if l.startswith('{"e":"start"'))
        why = c.validate("VdfLoopTrace", CFG, path, n=runs, timeout=500)
        if why:
            # name the run
            no = int(why.split()[1]); start = [l for l in open(path).read().splitlines()[:no] if l.startswith('{"e":"start"')][-1]
            c.violate("squaring loop: %s (run %s)" % (why, start[:700]), key="trace")
        return runs
    runs = sum(parallel([lambda p=p: check(p) for _, p in g], 8))
    for l in open(g[0][1]).read().splitlines()[:3]: c.sample(l[:300])
    c.extra.update(outcome_sequences=len(scripts), loop_runs=runs, recorded_events=sum(sum(1 for _ in open(p)) for _, p in g))
    c.assumptions += ["batch outcomes are imposed by replacing the accelerated batch behind the CHIAVDF_VERIF guard; the real batches run with "
                      "injected failures of synchronisation points and of intermediate values"]
