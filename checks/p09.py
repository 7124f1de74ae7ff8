"""P09: the two-thread squaring pipeline: exact forms under every schedule, fault and delay; no deadlock."""
import json, os, random, subprocess
import api, vlib
from vlib import hx, MachineryError, parallel
from api import fs

CFG = """SPECIFICATION Spec
CONSTANTS
  Iters = %d
  G = %d
  Faults = %s
  Corrupt = %s
  DropT = %d
  DropP = %d
  Record = %s
INVARIANTS NoStale Result %s
%s
"""
TCFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def run(c):
    exe = c.build("pipe", ["pipe.cpp"], vdf=True)
    c.java()
    th = c.thorough
    # --- the design: every interleaving, a fault or a detected corruption at any point, termination
    c.model("Pipeline", CFG % (3, 3 if th else 2, "FALSE", "FALSE", 0, 0, "FALSE", "", "PROPERTY Ends"))
    c.model("Pipeline", CFG % (4, 3 if th else 2, "TRUE", "TRUE", 0, 0, "FALSE", "", "PROPERTY Ends"))
    # which fences the design needs: leaving each one out in turn (the model must notice the load-bearing ones)
    need = []
    def drop(t, p):
        r = c.tlc("Pipeline", CFG % (2, 2, "FALSE", "FALSE", t, p, "FALSE", "", ""))
        if not r.ok: need.append((t, p))
    parallel([lambda t=t, p=p: drop(t, p) for t in (1, 2) for p in range(2, 50)], 8) if th else parallel(
        [lambda t=t, p=p: drop(t, p) for t, p in ((1, 2), (1, 14), (1, 21), (2, 2))], 4)
    if not need: raise MachineryError("leaving out any fence goes unnoticed by the model")
    # --- schedules of the model for replay
    num = 2000 if th else 300
    r = c.tlc("Pipeline", CFG % (3, 4, "FALSE", "FALSE", 0, 0, "TRUE", "Emit", ""),
              args=["-simulate", "num=%d" % num, "-depth", "1000", "-seed", str(c.seed)], timeout=300)
    scheds = sorted({"".join(map(str, json.loads(json.loads(l)))) for l in r.prints if l.startswith('"')})
    if len(scheds) < 20: raise MachineryError("no schedules from the model:\n" + r.out[-1500:])

    def one(k):
        rng = random.Random("%d/p09/%d" % (c.seed, k))
        lines = []
        for bits in [1024, 1000 - 8 * k, [160, 192, 256, 320, 384, 512, 640, 768][k]] + ([1024, 896, 1020] if th else []):
            D = api.rand_disc(rng, bits)
            x = api.rand_form(rng, D) if rng.random() < 0.8 else api.powf(D, (2, 1), 1 << 40) if hasattr(api, "powf") else api.rand_form(rng, D)
            pre = "%s %s %d " % (hx(D), fs(x), 3)
            s = rng.randrange(1, 1 << 30)
            cmds = ["seq", "one 1", "two %d %d" % (400 * (10 if th else 1), s), "rand 150 %d 500" % s, "rand 150 %d 50" % s, "rand 150 %d 950" % s,
                    "fault %d %d 300" % (600 * (10 if th else 1), s), "fault 200 %d 20" % s, "fault 200 %d 900" % s,
                    "delay 400 %d 3000" % s, "delay 400 %d 40000" % s, "value %d %d" % (300 * (10 if th else 1), s)]
            cmds += ["bits " + b for b in scheds[k::8]]
            lines += [pre + x for x in cmds]
            # all pairs of preemptions close to each other, on two squarings
            if bits == 1024: lines += ["%s %s 2 %s" % (hx(D), fs(x), m) for m in ("seq", "pair 1 %d" % (400 if th else 30))]
            # a longer batch, few preemptions
            lines += ["%s %s 12 %s" % (hx(D), fs(x), m) for m in ("seq", "two 200 %d" % s, "rand 100 %d 20" % s, "fault 200 %d 5" % s, "delay 100 %d 20000" % s, "value 60 %d" % s)]
        path = os.path.join(c.work, "p%d.ndjson" % k)
        def go():
            try: return subprocess.run([exe, path], input="\n".join(lines) + "\n", text=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=700 if th else 250)
            except subprocess.TimeoutExpired: return None
        r = go()
        if r is None or r.returncode: r = go()
        why = "a schedule does not terminate" if r is None else "the pipeline died with status %d: %s" % (r.returncode, r.stderr[-300:]) if r.returncode else None
        ev = [json.loads(l) for l in open(path)] if not why else []
        if why: done = sum(1 for _ in open(path))
        return path, sum(e["times"] for e in ev), len(ev), why, sum(e["hits"] for e in ev if e["e"] == "fault"), ev[:2]
    g = vlib.forkmap(one, range(8), 8)
    for x in g:
        if x[3]: c.violate("squaring pipeline: " + x[3], key="pipeline-dies")
    if c.violations: return

    def check(x):
        why = c.validate("PipelineTrace", TCFG, x[0], n=x[1])
        if why: c.violate("squaring pipeline: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in g], 8)
    c.sample(g[0][5][0])
    c.extra.update(pipeline_runs=sum(x[1] for x in g), distinct_outcomes=sum(x[2] for x in g), injected_faults=sum(x[4] for x in g),
                   model_schedules_replayed=len(scheds) * 3, load_bearing_fences=sorted(need))
    c.assumptions += ["schedules switch threads at synchronisation points (between them a thread runs undisturbed, except in the free-running runs)",
                      "x86 memory ordering"]
