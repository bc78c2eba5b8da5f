"""C08: histories."""
from .core import *
from .kem import summary, ALL9, SLOW, std_cfgs, shards


def c08(ctx):
    cfgs = ctx.build([Cfg(g, o) for g, o in ALL9] + [Cfg(g, o, toy=16) for g, o in (("AESO", "FAST"), ("SHAKE", "FAST"), ("AESS", "FAST_GENERIC"), ("SHAKE", "REFERENCE"))]
                     + [Cfg("AESO", "FAST", cc="clang-18", tag="clang")])
    h = ctx.harness("h_hist", ["h_hist.c", "h.c", "model.c"])
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            fast = c.opt == "FAST" or (c.opt == "FAST_GENERIC" and c.gen != "AESS")
            slow = c.gen == "AESS" and c.opt != "FAST"
            t = ctx.thorough
            if c.toy:
                jobs += shards(ctx, h, "chain", c, s, 2 if c.name == "AESO-FAST-toy16" or t else 1, 1, 800)
                jobs += shards(ctx, h, "seq", c, s, 2 if c.name == "AESO-FAST-toy16" and s == 640 or t else 1, 13)
                jobs += shards(ctx, h, "pair", c, s, 2, 4)
            else:
                if slow and s != 640 and not t:
                    continue
                jobs += shards(ctx, h, "seq", c, s, (2 if t and fast else 1) if not slow and (t or (c.opt == "FAST" or s == 640) and not c.tag and (s, c.gen) != (1344, "SHAKE")) else 0, 13 if s == 640 or t else 4)
                if t or not c.tag and (c.opt == "FAST" and s == 640 or s == 640 and not slow and c.opt != "REFERENCE" or c.name == "AESO-FAST"):
                    jobs += shards(ctx, h, "pair", c, s, 2 if t and fast else 1, 4)
                jobs += shards(ctx, h, "chain", c, s, 0 if slow or c.opt != "FAST" and not t else 1, 1, 800)
            jobs += shards(ctx, h, "state", c, s, 1, 1)
    ctx.run(jobs)
    return summary(ctx, "all sequences of %s operations out of 13 (key generation, encapsulation, accepting and rejecting decapsulation, failing generator; 4 keys of which two share seedA; same and different buffers; dirty stack and heap) from a fresh process; "
                        "op(x), op(x'), op(x) for every single-byte and several compensating changes x' of each input; histories of 300 to 140000 calls; search over all reachable states of the writable static data" % ("4" if ctx.thorough else "3 (4 on reduced n)"))
