"""C16, C17: the symmetric primitives."""
from .core import *
from .kem import summary
from .comp import protos, SHA_PROTO, SHA4_PROTO, AES_PROTO


def c16(ctx):
    C = "clang-18"
    cfgs = [Cfg("SHAKE", "FAST", sets=(640,)), Cfg("SHAKE", "FAST_GENERIC", sets=(640,)), Cfg("SHAKE", "FAST", cc=C, tag="clang", sets=(640,)),
            Cfg("SHAKE", "FAST", cc="gcc", tag="native", sets=(640,)), Cfg("SHAKE", "FAST", cflags="-O0", tag="O0", sets=(640,)),
            Cfg("SHAKE", "REFERENCE", cc=C, cflags="-O1 -fsanitize=undefined -fno-sanitize=alignment,signed-integer-overflow,shift-base -fsanitize-undefined-trap-on-error", tag="ub", sets=(640,))]
    if ctx.thorough:
        cfgs += [Cfg("SHAKE", "FAST", cc=C, cflags="-O1", tag="clangO1", sets=(640,)), Cfg("SHAKE", "FAST", cflags="-O2", tag="O2", sets=(640,))]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_sha", ["h_sha.c", "h.c", "model.c"])
    have = "," + ",".join(protos(ctx, "sha3/fips202.h", SHA_PROTO) + protos(ctx, "sha3/fips202x4.h", SHA4_PROTO)) + ","
    # lengths beyond 2^32 (in the optimised build; a job takes about half a minute)
    jobs = [dict(name="sha-wide/%s/%d%d" % (cfgs[0].name, w, o), env={"HAVE": have}, cmd=[h, cfgs[0].so[640], "1", str(w), str(o)], stuck=400) for w in (0, 1) for o in (0, 1)]
    for c in cfgs:
        k = 8
        lv = 2 if ctx.thorough else 1
        jobs += [dict(name="sha/%s/%d" % (c.name, i), env={"SHARD": "%d/%d" % (i, k), "HAVE": have}, cmd=[h, c.so[640], str(lv)]) for i in range(k)]
    ctx.run(jobs)
    return summary(ctx, "input and output lengths 0..2000, all pairs of lengths 0..345, all pairs around block boundaries, large lengths across 2^16/2^17/2^18 and 2^32, every message bit on 3 backgrounds, "
                        "all squeeze splits of 5 blocks, 4-way: input lengths 0..345, output 0..1400, every bit per lane, all 65536 row indices; outputs end at an inaccessible page")


def c17(ctx):
    C = "clang-18"
    cfgs = [Cfg("AESS", "FAST", sets=(640,)), Cfg("AESS", "FAST_GENERIC", sets=(640,)), Cfg("AESS", "FAST", cc=C, tag="clang", sets=(640,)),
            Cfg("AESS", "REFERENCE", cc=C, tag="clang", sets=(640,)), Cfg("AESS", "FAST", cflags="-O0", tag="O0", sets=(640,)),
            Cfg("AESS", "REFERENCE", cflags="-O1 -fsanitize=undefined -fno-sanitize=signed-integer-overflow,shift-base -fsanitize-undefined-trap-on-error", tag="ub", sets=(640,))]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_aes", ["h_aes.c", "h.c", "model.c"])
    have = "," + ",".join(protos(ctx, "aes/aes.h", AES_PROTO)) + ","
    k = 8
    jobs = [dict(name="aes/%s/%d" % (c.name, i), env={"SHARD": "%d/%d" % (i, k), "HAVE": have}, cmd=[h, c.so[640], "2" if ctx.thorough else "1"])
            for c in cfgs for i in range(k)]
    ctx.run(jobs)
    return summary(ctx, "9 key/block backgrounds x every key bit, block bit, key byte value, block byte value; all values of adjacent byte pairs of key and block; block counts 0..64 and around powers of two to 2^16 in place and not, 17 alignments, ending at an inaccessible page; counter blocks")
