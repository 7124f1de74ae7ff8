#!/usr/bin/env python3
"""Working tool for the planted changes (not used by any check).
  seed.py make ID           edit list in tools/seedlist.py -> seeded/ID/patch.diff + meta.json
  seed.py demo ID...        build scratch copies with and without the change, run demo.sh in both
  seed.py tests ID...       run the repository's tests on a scratch copy with the change
  seed.py check ID... [-t]  run the property's check against a scratch copy with the change
"""
import json, os, shutil, subprocess, sys, time, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
def sh(cmd, **k): return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def scratch(name, patch=None):
    d = "/tmp/seed/" + name
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    if patch:
        r = sh(["git", "-C", d + "/repo", "apply", patch])
        if r.returncode: raise SystemExit("patch %s: %s" % (patch, r.stdout))
    os.makedirs(d + "/vp")
    subprocess.run("cp -a /opt/vp/. %s/vp/ && sed -i 's#/repo#%s/repo#g; s#/opt/vp/\\(env.sh\\|build.sh\\|results.py\\|objcheck\\)#%s/vp/\\1#g' %s/vp/*.sh && sed -i 's#/repo#%s/repo#g' %s/vp/objcheck/CMakeLists.txt" % (d, d, d, d, d, d), shell=True, check=True)
    for x in ("_build", "_build-obj", "_build-results"): shutil.rmtree(d + "/repo/" + x, ignore_errors=True)
    return d
def make(i):
    sys.path.insert(0, V + "/tools")
    import seedlist
    e = seedlist.SEEDS[i]; d = "/tmp/seed/make_" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    for f, old, new in e["edits"]:
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) != 1: raise SystemExit("%s: %d matches of %r in %s" % (i, s.count(old), old, f))
        open(p, "w").write(s.replace(old, new))
    os.makedirs(S + "/" + i, exist_ok=True)
    open(S + "/" + i + "/patch.diff", "w").write(sh(["git", "-C", d, "diff"]).stdout)
    json.dump({"property": e["property"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(S + "/" + i + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
def demo(i):
    out = []
    for tag, patch in (("clean", None), ("bug", S + "/%s/patch.diff" % i)):
        d = scratch("d_%s_%s" % (i, tag), patch)
        if "_build" in open(S + "/%s/demo.sh" % i).read():     # otherwise the demonstration compiles what it needs itself
            r = sh(["bash", d + "/vp/build.sh"])
            if r.returncode: out.append((tag, "BUILD", r.stdout[-300:])); continue
        t = time.time()
        subprocess.run(["cp", "-a", S + "/" + i, d + "/demo"])
        try: r = sh(["bash", d + "/demo/demo.sh"], cwd=d + "/repo", timeout=300); out.append((tag, r.returncode, round(time.time() - t, 1), r.stdout[-120:] if r.returncode not in (0,) else ""))
        except subprocess.TimeoutExpired: out.append((tag, "TIMEOUT"))
        shutil.rmtree(d)
    return i, out
def tests(i):
    d = scratch("t_" + i, S + "/%s/patch.diff" % i)
    t = time.time()
    r = sh(["bash", d + "/vp/test.sh", d + "/out.json"])
    o = json.load(open(d + "/out.json")) if os.path.exists(d + "/out.json") else {"passed": [], "failed": []}
    base = json.load(open("/opt/vp/BASELINE.json"))
    need = base.get("stable") or base
    miss = sorted(set(need) - set(o["passed"])) if isinstance(need, list) else o["failed"]
    shutil.rmtree(d)
    return i, "passed=%d" % len(o["passed"]), "missing=%s" % miss, "%.0fs" % (time.time() - t)
def check(i, props=None, tier="quick"):
    d = scratch("c_" + i, S + "/%s/patch.diff" % i if i != "none" else None)
    res = []
    for p in props or [json.load(open(S + "/%s/meta.json" % i))["property"]]:
        t = time.time()
        r = sh([sys.executable, V + "/bin/check", p], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/work", VERIF_TIER=tier))
        res.append((p, r.returncode, round(time.time() - t), r.stdout[-700:]))
    shutil.rmtree(d)
    return i, res
if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    if ids == ["all"]: ids = sorted(os.listdir(S))
    n = {"make": 1, "demo": 4, "tests": 2, "check": 1}[cmd]
    f = {"make": make, "demo": demo, "tests": tests, "check": lambda i: check(i, None, "thorough" if "-t" in sys.argv else "quick")}[cmd]
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(f, ids):
            if r: print(*r, flush=True)
