"""P07: the C interface (and the Rust wrapper over it) and the Python module, alone and called concurrently,
answer what the specification answers; malformed arguments are contained."""
import json, os, random, sysconfig
import api, vlib, p04
from vlib import hx, write_ndjson, parallel, sh, SRC, HARN, REPO
from api import fs, fj

CFG = "SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
PY = "/opt/vp/venv/bin/python"
U64 = 1 << 64


def build(c):
    w = c.work
    lz = os.path.join(w, "lz.o")
    sh(["gcc", "-O2", "-fPIC", "-c", os.path.join(SRC, "refcode/lzcnt.c"), "-o", lz], check=True)
    base = ["g++", "-std=gnu++17", "-O1", "-g0", "-w", "-fPIC", "-DNDEBUG", "-I", SRC]
    inc = sh([PY, "-c", "import sysconfig,pybind11;print(sysconfig.get_path('include'));print(pybind11.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"], check=True).stdout.split()
    so = os.path.join(w, "libchiavdfc.so"); ext = os.path.join(w, "_chiavdf" + inc[2])

    def cc(): sh(base + ["-shared", os.path.join(SRC, "c_bindings/c_wrapper.cpp"), lz, "-o", so, "-lgmpxx", "-lgmp", "-lpthread"], check=True)
    def py(): sh(base + ["-shared", "-I", inc[0], "-I", inc[1], os.path.join(SRC, "python_bindings/fastvdf.cpp"), lz, "-o", ext, "-lgmpxx", "-lgmp", "-lpthread"], check=True)
    parallel([cc, py])
    r = os.path.join(w, "rust"); os.makedirs(r)
    open(os.path.join(r, "main.rs"), "w").write(open(os.path.join(HARN, "rust/main.rs")).read().replace("LIBRS", os.path.join(REPO, "rust_bindings/src/lib.rs")))
    open(os.path.join(r, "bindings.rs"), "w").write(open(os.path.join(HARN, "rust/bindings.rs")).read())
    env = {"OUT_DIR": r}
    sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "link_cplusplus", os.path.join(HARN, "rust/link_cplusplus.rs"), "-o", os.path.join(r, "liblink_cplusplus.rlib")], check=True, env=env)
    exe = os.path.join(r, "rs")
    sh(["rustc", "--edition", "2021", "-A", "warnings", "--crate-name", "rs", os.path.join(r, "main.rs"), "--extern", "link_cplusplus=" + os.path.join(r, "liblink_cplusplus.rlib"),
        "-L", w, "-l", "dylib=chiavdfc", "-C", "link-arg=-Wl,-rpath," + w, "-o", exe], check=True, env=env)
    return so, w, exe


def run(c):
    (so, mod, rs), _ = parallel([lambda: build(c), lambda: c.java()])

    def one(k):
        rng = random.Random("%d/p07/%d" % (c.seed, k))
        srv = api.Server(PY, [os.path.join(HARN, "bindsrv.py"), so, mod], timeout=40)
        rust = api.Server(rs, timeout=40)
        ev, seen, ncalls = [], set(), [0]

        def shape(call, out):
            """one call and its result as an event of ApiTrace"""
            op, a, api_ = call["op"], call["a"], call["api"]
            e = {"api": api_, "n": len(ev)}
            if isinstance(out, str) and out.startswith(("HANG", "CRASH", "overrun", "badop")): out_s = out
            else: out_s = None
            if op == "disc":
                o = out_s or out
                if api_ != "py" and not out_s and o != "reject": o = "-" + (o.lstrip("0") or "0")
                elif not out_s and o != "reject": o = hx(int(o, 0))
                e.update(op="disc", seed=a[0], bits=max(-(1 << 30), min(a[1], 1 << 30)), out=o)
            elif op == "prove":
                e.update(op="oneprove", seed=a[0], bits=min(a[1], 1 << 30), x=a[2], T=hx(a[3]), out=out_s or out or "reject")
            elif op == "verifyn":
                D = call["D"]
                e.update(op="verifyn", D=hx(D), x=a[1], blob=a[2], iters=hx(a[3]), depth=hx(a[4]), bits=call["bits"], out=out_s or out)
            elif op == "verify1":
                e.update(op="verify1", D=hx(call["D"]), x=a[1], y=a[2], p=a[3], iters=hx(a[4]), out=out_s or out)
            elif op == "discn":
                e.update(op="discverifyn", seed=a[0], bits=max(-(1 << 30), min(a[1], 1 << 30)), x=a[2], blob=a[3], iters=hx(a[4]), depth=hx(a[5]), out=out_s or out)
            elif op == "verifyb":
                e.update(op="verifyb", D=hx(call["D"]), B=hx(call["B"]), x=a[2], blob=a[3], iters=hx(a[4]), depth=hx(a[5]), out=out_s or (out if out == "reject" else out[0]), y="" if out_s or out == "reject" else out[1])
            elif op == "getb":
                e.update(op="getbproof", D=hx(call["D"]), x=a[1], blob=a[2], iters=hx(a[3]), depth=hx(a[4]), out=out_s or (out if out == "reject" else hx(int(out, 0))))
            elif op == "deser":
                if out_s: o = [out_s]
                elif out == "reject": o = ["reject"]
                else: o = [hx((-1 if x[:2] == "01" else 1) * int(x[2:] or "0", 16)) if x[:2] in ("00", "01") else "badsign" for x in out]
                e.update(op="deser", D=hx(call["D"]), strict=a[2] is not False, h=a[1], out=o)
            for f in ("x", "blob"):
                if e.get(f) == "null": e[f] = ""
            ncalls[0] += 1
            key = json.dumps({q: v for q, v in e.items() if q not in ("api", "n")}, sort_keys=True)
            if key not in seen:            # equal arguments with an equal answer need judging only once
                seen.add(key); ev.append(e)

        def batch(calls, threads):
            out = srv.call(json.dumps({"calls": calls, "threads": threads}))
            if out.startswith(("HANG", "CRASH")):
                if len(calls) == 1: shape(calls[0], out); return
                for x in calls: batch([x], 1)          # attribute it
                return
            for x, o in zip(calls, json.loads(out)): shape(x, o)

        def rcall(x):
            a = x["a"]
            z = lambda s: s or "-"
            if x["op"] == "disc": out = rust.call("disc %s %d" % (z(a[0]), a[1]))
            elif x["op"] == "prove": out = rust.call("prove %s %d %s %d" % (z(a[0]), a[1], z(a[2]), a[3]))
            else: out = rust.call("verifyn %s %s %s %d %d" % (z(a[0]), z(a[1]), z(a[2]), a[3], a[4]))
            x = dict(x); x["api"] = "rust"; shape(x, out)
        rb = lambda n: bytes(rng.randrange(256) for _ in range(n)).hex()
        good, bad = [], []
        bits = [64, 128, 256, 264, 512, 512, 1016, 1024][k]
        seed = rb(rng.randrange(2, 40))
        D = -p04.hash_prime(bytes.fromhex(seed), bits, [0, 1, 2, bits - 1])
        Ds = rng.choice([str(D), hex(D)]); Db = (-D).to_bytes(bits // 8, "big").hex()
        gx = "08" + "00" * 99
        vb = lambda **kw: kw
        # discriminants
        for b in (bits, 8 * rng.randrange(2, 129)):
            for ap in ("c", "py"): good.append(vb(api=ap, op="disc", a=[rb(rng.randrange(2, 70)), b]))
        for b in (0, 7, 12, 1032, 1 << 20, (1 << 31) - 8, 1 << 31, (1 << 32) + 512, (1 << 63), U64 - 8):
            bad.append(vb(api="c", op="disc", a=[seed, b]))
            if b < 1 << 31: bad.append(vb(api="py", op="disc", a=[seed, b])); bad.append(vb(api="py", op="disc", a=[seed, -b]))
        for ap in ("c", "py"): bad.append(vb(api=ap, op="disc", a=["", 512]))
        # one-call proofs
        x = api.rand_form(rng, D); xb = p04.enc(D, x).hex()
        for T in (1, 2, rng.randrange(3, 40), rng.randrange(260, 500)):
            for ap in ("c", "py"): good.append(vb(api=ap, op="prove", a=[seed, bits, rng.choice([gx, xb]), T]))
        for ap in ("c", "py"):
            for (s, b, xx) in ((seed, bits + 4, gx), (seed, 0, gx), ("", bits, gx), (seed, 1032, gx), (seed, bits, gx[:-2]), (seed, bits, gx + "00"), (seed, bits, ""), (seed, bits, "00" * 100), (seed, bits, "ff" * 100 if bits < 100 else rb(100))):
                bad.append(vb(api=ap, op="prove", a=[s, b, xx, 5]))
        # n-Wesolowski statements
        for nseg in (1, 2, 3):
            L = [rng.choice([1, 5, 40, 270]) for _ in range(nseg)]
            X, XB = rng.choice([((2, 1), gx), (x, xb)])
            parts = p04.chain(D, X, L); bl = p04.blob(D, parts).hex(); it = sum(L); dp = nseg - 1; B = parts[-1][3]
            both = lambda xx, blob, i, d: [vb(api="c", op="verifyn", a=[Db, xx, blob, i, d, 0], D=D, bits=bits), vb(api="py", op="verifyn", a=[Ds, xx, blob, i, d, bits], D=D, bits=bits)]
            good += both(XB, bl, it, dp)
            good.append(vb(api="py", op="discn", a=[seed, bits, XB, bl, it, dp]))
            good.append(vb(api="py", op="verifyb", a=[Ds, rng.choice([str(B), hex(B)]), XB, bl[200:], it, dp], D=D, B=B))
            good.append(vb(api="py", op="getb", a=[Ds, XB, bl, it, dp], D=D))
            if nseg == 1: good.append(vb(api="py", op="verify1", a=[Ds, XB, bl[:200], bl[200:], it], D=D))
            bad += both(XB, bl, it + 1, dp) + both(XB, bl, it, dp + 1) + both(XB, bl, it, U64 - 1) + both(XB, bl[:-2], it, dp) + both(XB, bl + "00", it, dp) + both(XB, "", it, dp) + both("00" * 100, bl, it, dp)
            j = rng.randrange(len(bl)); mut = bl[:j] + "%x" % (int(bl[j], 16) ^ (1 << rng.randrange(4))) + bl[j + 1:]
            bad += both(XB, mut, it, dp)
            bad.append(vb(api="c", op="verifyn", a=["00" + Db, XB, bl, it, dp, 0], D=D, bits=bits + 8))
            bad.append(vb(api="c", op="verifyn", a=["", XB, bl, it, dp, 0], D=0, bits=0))
            bad.append(vb(api="c", op="verifyn", a=["00" * 16, XB, bl, it, dp, 0], D=0, bits=128))
            bad.append(vb(api="c", op="verifyn", a=["ff" * 200, XB, bl, it, dp, 0], D=-((1 << 1600) - 1), bits=1600))
            bad.append(vb(api="c", op="verifyn", a=[Db, "null", bl, it, dp, 0], D=D, bits=bits))
            bad.append(vb(api="c", op="verifyn", a=[Db, XB, "null", it, dp, 200 + 141 * dp], D=D, bits=bits))
            for bb in (0, 1025, U64 - 1): bad.append(vb(api="py", op="verifyn", a=[Ds, XB, bl, it, dp, bb], D=D, bits=min(bb, 1 << 20)))
            for xx in (XB[:-2], XB[:20], "", XB + "00", "08"): bad.append(vb(api="py", op="verifyn", a=[Ds, xx, bl, it, dp, bits], D=D, bits=bits))
            for xx in (XB[:-2], "", XB + "00"):
                bad.append(vb(api="py", op="discn", a=[seed, bits, xx, bl, it, dp]))
                bad.append(vb(api="py", op="verifyb", a=[Ds, str(B), xx, bl[200:], it, dp], D=D, B=B))
                bad.append(vb(api="py", op="getb", a=[Ds, xx, bl, it, dp], D=D))
            for bb in (0, -8, bits + 4, 1032, (1 << 31) - 1): bad.append(vb(api="py", op="discn", a=[seed, bb, XB, bl, it, dp]))
            bad.append(vb(api="py", op="discn", a=["", bits, XB, bl, it, dp]))
            for Bx in (0, -1, -B, 1, B + 2): bad.append(vb(api="py", op="verifyb", a=[Ds, str(Bx), XB, bl[200:], it, dp], D=D, B=Bx))
            bad.append(vb(api="py", op="verifyb", a=[Ds, "nonsense", XB, bl[200:], it, dp], D=D, B=0))
            bad.append(vb(api="py", op="verifyb", a=[Ds, str(B), XB, bl, it, dp], D=D, B=B))
            bad.append(vb(api="py", op="getb", a=[Ds, XB, bl[200:], it, dp], D=D))
            if nseg == 1:
                for q in ([XB[:-2], bl[:200], bl[200:]], [XB, "", bl[200:]], [XB, bl[:200], bl[200:] + "00"], [bl[:200], XB, bl[200:]]): bad.append(vb(api="py", op="verify1", a=[Ds] + q + [it], D=D))
        # discriminants that are not negative, or no discriminants at all
        one_ = gx + gx
        for d in (0, 1, 7, 9, 17, -D, -D + 1, 2 ** 64 + 1, -1, -3, -4, -8):
            if d < 0 and d > -7: continue
            bad.append(vb(api="py", op="verifyn", a=[str(d), gx, one_, 5, 0, 64], D=d, bits=64))
            bad.append(vb(api="py", op="verify1", a=[str(d), gx, gx, gx, 5], D=d))
            bad.append(vb(api="py", op="verifyb", a=[str(d), "7", gx, gx, 5, 0], D=d, B=7))
            bad.append(vb(api="py", op="getb", a=[str(d), gx, one_, 5, 0], D=d))
            bad.append(vb(api="py", op="deser", a=[str(d), gx, True], D=d))
        for s in ("", "abc", "-", "0x", "-0xzz", "1 2 x"):
            bad.append(vb(api="py", op="verifyn", a=[s, gx, one_, 5, 0, 64], D=0, bits=64))
            bad.append(vb(api="py", op="deser", a=[s, gx, False], D=0))
        # low-level decoding
        for f in (x, (2, 1), (1, 1)):
            h = p04.enc(D, f).hex()
            for st in (None, True, False): good.append(vb(api="py", op="deser", a=[Ds, h, st], D=D))
            cc = (f[1] ** 2 - D) // (4 * f[0])
            al = p04.py_encode(cc, -f[1], bits).hex() if cc.bit_length() < bits // 2 + 1 else rb(100)
            for hh in (al, h[:-2], h + "00", "", h[:10] + "%02x" % (int(h[10:12], 16) ^ 1) + h[12:]):
                for st in (None, True, False): bad.append(vb(api="py", op="deser", a=[Ds, hh, st], D=D))
        if bits > 256 and not c.thorough: bad = [b for b in bad if rng.random() < (0.3 if bits < 1000 else 0.15)]
        batch(good, 1)
        for x_ in good:
            if x_["api"] == "c": rcall(x_)
        for i in range(0, len(bad), 6): batch(bad[i:i + 6], 1)
        for x_ in bad:
            if x_["api"] == "c" and "null" not in x_["a"] and (x_["op"] != "disc" or x_["a"][1] % 8 == 0 and x_["a"][1] < 1 << 24): rcall(x_)
        for xx in (gx[:-2], gx[:2], ""):  # the wrapper knows the length of the slice it was given
            rcall(vb(api="c", op="verifyn", a=[Db, xx, bl, it, dp], D=D, bits=bits))
        # the same calls from eight threads at once, shuffled together with malformed ones
        mix = good + good + rng.sample(bad, min(40, len(bad)))
        rng.shuffle(mix)
        batch(mix, 8)
        srv.close(); rust.close()
        path = os.path.join(c.work, "b%d.ndjson" % k)
        write_ndjson(path, ev)
        return path, ncalls[0], ev[0], sum(1 for e in ev if e["out"] == "1")
    t=__import__("time").time()
    g = vlib.forkmap(one, range(8), 8)
    if os.environ.get("VT"): print("gen", __import__("time").time()-t)
    c.sample(g[0][2])

    def check(x):
        t=__import__("time").time(); why = c.validate("ApiTrace", CFG, x[0], n=x[1])
        if os.environ.get("VT"): print(x[0][-10:], x[1], sum(1 for _ in open(x[0])), __import__("time").time()-t)
        if why: c.violate("binding: " + why, key="trace")
    parallel([lambda x=x: check(x) for x in sorted(g, key=lambda x: -os.path.getsize(x[0]))], 8)
    c.extra["recorded_calls"] = sum(x[1] for x in g)
    c.extra["accepted"] = sum(x[3] for x in g)
    c.assumptions += ["the Rust wrapper is compiled against a hand-written equivalent of the bindgen output (bindgen is not available offline)"]
