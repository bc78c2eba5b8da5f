"""C09: interleavings."""
from .core import *
from .kem import summary, ALL9, shards

TS = "-fsanitize=thread"


def c09(ctx):
    G, C = "/usr/bin/gcc", "clang-18"
    cfgs = [Cfg(g, o, cc=G, cflags="-O2 " + TS, tag="gcc", keep_rand=True) for g, o in ALL9]
    cfgs += [Cfg(g, o, cc=G, cflags="-O2 " + TS, tag="gcc", toy=16, keep_rand=True) for g, o in ALL9]
    cfgs += [Cfg(g, "FAST_GENERIC", cc=C, cflags="-O1 " + TS, tag="clang", toy=16, keep_rand=True) for g in ("AESO", "AESS", "SHAKE")]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_thr", ["h_thr.c", "h.c", "model.c"], flags=["-DNO_RANDOMBYTES", "-fno-builtin", "-fno-tree-loop-distribute-patterns"], opt="-O2")
    jobs = []
    rnd = next(c for c in cfgs if c.name == "AESO-FAST-gcc")
    jobs += shards(ctx, h, "rand", rnd, 640, 0, 8)
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            slow = c.gen == "AESS" and c.opt != "FAST"
            if c.toy:
                jobs += shards(ctx, h, "kem", c, s, 1 if ctx.thorough or s == 640 and c.opt != "REFERENCE" else 0, 4 if ctx.thorough else 1, 2000)
                jobs += shards(ctx, h, "func", c, s, 1, 4 if ctx.thorough else 1, 2000)
            else:
                if slow and (s != 640 or not ctx.thorough):
                    continue
                lv = (2 if c.opt == "FAST" else 1) if ctx.thorough and s == 640 else (1 if ctx.thorough or s == 640 and c.opt == "FAST" else 0)
                jobs += shards(ctx, h, "kem", c, s, lv, 4 if ctx.thorough else 1, 2000)
                if not slow and (s == 640 and c.opt == "FAST" or ctx.thorough):
                    jobs += shards(ctx, h, "func", c, s, 0, 1)
    ctx.run(jobs)
    return summary(ctx, "2 and 3 threads, 1 and 2 operations each out of 7 (two key pairs, shared inputs), fresh and used library state; preemption bound %s at conflicting accesses, atomics, locks and calls, bound 1%s at every function entry; "
                        "randombytes: 2 threads unbounded, 3 threads bound %s, with up to %s deviating system answers" % (("3", "-2", "4", "3") if ctx.thorough else ("2", "", "2-3", "2")),
                   ["sequentially consistent interleavings; races are reported separately by vector clocks", "OpenSSL calls are atomic steps", "-fsanitize=thread builds stand for the plain ones"])
