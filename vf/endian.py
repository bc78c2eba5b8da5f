"""C21: the library with big-endian memory semantics."""
from .core import *
from .kem import summary, KEM_SRC, shards
from . import comp

BE = os.path.join(CDIR, "be", "becc.py")


def c21(ctx):
    cfgs = []
    for g in GEN:
        for o in ("REFERENCE", "FAST_GENERIC"):
            for tag, cc, f in (("BE", BE, ""), ("BEx", BE, "-U__BYTE_ORDER__"), ("LEx", "/usr/bin/gcc", "-O2 -U__BYTE_ORDER__")):
                cfgs.append(Cfg(g, o, cc=cc, cflags=f, extra=["ARCH=ARM"], tag=tag))
    cfgs += [Cfg(g, o, cc=BE, cflags="", extra=["ARCH=ARM"], tag="BE", toy=16) for g, o in (("AESO", "FAST_GENERIC"), ("SHAKE", "REFERENCE"), ("SHAKE", "FAST_GENERIC"), ("AESS", "REFERENCE"))]
    ok = ctx.build(cfgs)
    h = ctx.harness("h_kem", KEM_SRC)
    jobs = []
    for c in ok:
        for s in sorted(c.so, reverse=True):
            slow = c.opt == "REFERENCE" or c.gen == "AESS"
            for m in ("keygen", "enc", "dec", "rej", "tol"):
                if c.toy:
                    lv, k = (2 if ctx.thorough or m not in ("tol", "rej") else 1), 4 if ctx.thorough else 1
                elif ctx.thorough:
                    lv, k = (1, 4) if not (slow and c.gen == "AESS") else (0, 2)
                else:
                    if m in ("rej", "tol") and (s != 640 or c.tag != "BE" or slow):
                        continue
                    if c.tag != "BE" and (s == 1344 or c.gen == "AESS"):
                        continue
                    lv, k = (1, 2) if not slow and m not in ("tol", "rej") else (0, 1)
                jobs += shards(ctx, h, m, c, s, lv, k, 2000 if ctx.thorough else 420)
    jobs.sort(key=lambda j: "AESS-" not in j["name"])
    ctx.run(jobs)
    return summary(ctx, "%d builds with big-endian (or undetectable) byte order x 3 sets: key generation, encapsulation, decapsulation, rejection and error tolerance over the pattern alphabets, complete byte alphabets on reduced n" % len(ok),
                   ["big-endian execution is simulated: every multi-byte load, store and initialiser of the compiler's unoptimised IR for a big-endian target is byte-swapped"])
