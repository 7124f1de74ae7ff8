"""Builds over /repo's hardware sources (the vendor's headers and the board are replaced by harness/hwstub and harness/fakedev.h)."""
import os
from vlib import SRC, HARN, parallel, sh, GUARD

COMMON = ["vdf_base.cpp", "prover_runtime.cpp", "hw/hw_util.cpp", "hw/hw_proof.cpp", "hw/hw_interface.cpp", "hw/chia_driver.cpp",
          "hw/ftdi_driver.cpp", "hw/vdf_driver.cpp", "hw/pll_freqs.cpp"]
STUB = os.path.join(HARN, "hwstub")


def build(c, name, mains, common=COMMON, extra=(), opt="-O2", libs=(), watch=(), asan=False):
    """compile the sources in parallel and link them; watch: sources whose accesses and atomic operations are reported to harness/watched.h"""
    d = os.path.join(c.work, "hwobj" + ("_asan" if asan else "")); os.makedirs(d, exist_ok=True)
    san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    objs = c.asm()
    def cc(src):
        p = src if os.path.isabs(src) else os.path.join(HARN, src) if os.path.exists(os.path.join(HARN, src)) else os.path.join(SRC, src)
        o = os.path.join(d, p.replace("/", "_") + ".o")
        if not os.path.exists(o):
            sh(["g++", "-std=gnu++17", opt, "-g0", "-w", "-no-pie", "-DNDEBUG", "-D" + GUARD + "=1", "-DVDF_MODE=0", "-DFAST_MACHINE=1", '-DCHIAVDF_VERSION="dev"',
                "-I", SRC, "-I", os.path.join(SRC, "hw"), "-I", STUB, "-I", HARN] + list(extra) + (["-fsanitize=thread"] if src in watch else san) + ["-c", p, "-o", o], check=True, timeout=400)
        return o
    os_ = parallel([lambda s=s: cc(s) for s in list(mains) + list(common)])
    out = os.path.join(c.work, name)
    sh(["g++", "-no-pie"] + san + list(extra) + os_ + objs + ["-o", out] + list(libs) + ["-lgmpxx", "-lgmp", "-lpthread"], check=True, timeout=200)
    return out
