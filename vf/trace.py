"""C15: equality of execution traces over secrets."""
from .core import *
from .kem import summary, ALL9, shards

CLANG = "-fsanitize-coverage=edge,no-prune,trace-pc -fsanitize=kernel-address -mllvm -asan-instrumentation-with-call-threshold=0 -mllvm -asan-stack=0 -mllvm -asan-globals=0"
GCC = "-fsanitize-coverage=trace-pc -fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=0 --param asan-globals=0"


def c15(ctx):
    G, C = "/usr/bin/gcc", "clang-18"
    cfgs = [Cfg(g, o, cc=G, cflags="-O3 " + GCC, tag="gcc") for g, o in ALL9]
    cfgs += [Cfg(g, o, cc=C, cflags="-O2 " + CLANG, tag="clang") for g, o in ALL9]
    toys = [("AESO", "FAST"), ("SHAKE", "FAST_GENERIC"), ("AESO", "REFERENCE")]
    cfgs += [Cfg(g, o, cc=G, cflags="-O3 " + GCC, tag="gcc", toy=16) for g, o in toys]
    cfgs += [Cfg(g, o, cc=C, cflags="-O2 " + CLANG, tag="clang", toy=16) for g, o in toys]
    cfgs += [Cfg("AESO", "FAST", cc=C, cflags="-O1 " + CLANG, tag="clangO1", toy=16), Cfg("SHAKE", "FAST", cc=G, cflags="-O1 " + GCC, tag="gccO1", toy=16)]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_ct", ["h_ct.c", "h.c", "model.c"], flags=["-fno-builtin", "-fno-tree-loop-distribute-patterns"], opt="-O2")
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            if c.gen == "AESS" and c.opt != "FAST" and s != 640 and not ctx.thorough:
                continue        # same KEM code as the OpenSSL builds; only the public matrix is made differently
            for mode in ("kp", "enc", "dec"):
                if c.toy:
                    lv, k = 2 if ctx.thorough or s == 640 else 1, 2
                elif ctx.thorough:
                    lv, k = (2, 8) if c.opt == "FAST" else (1, 4)
                else:
                    lv, k = (1, 1) if c.opt == "FAST" and c.gen == "AESO" and s == 640 else (0, 1)
                jobs += shards(ctx, h, mode, c, s, lv, k)
    ctx.run(jobs)
    return summary(ctx, "secrets: s and seedSE (patterns, bits, byte values), messages (same), secret keys (s bits, every S byte on reduced n, constants, prefixes of zeros, other keys) for honest ciphertexts and ciphertexts changed in c1/c2 that still decode; "
                        "the whole sequence of blocks and addresses (10^4..10^7 events per call) is compared; %d builds (gcc, clang)" % len(cfgs),
                   ["OpenSSL and the instruction level below the compilers' IR (latencies) are outside", "instrumented builds stand for the plain ones"])
