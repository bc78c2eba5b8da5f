"""C13: buffers."""
import os, re
from .core import *
from .kem import summary, ALL9, kem_jobs, KEM_SRC


def announced(ctx, s, src):
    """the sizes a user of the public header sees"""
    p = os.path.join(ctx.out, "api%d.c" % s)
    open(p, "w").write('#include <stddef.h>\n#include <stdint.h>\n#include <stdio.h>\n#include "api_frodo%d.h"\nint main(void) { printf("%%ld %%ld %%ld %%ld", '
                       "(long)(CRYPTO_PUBLICKEYBYTES), (long)(CRYPTO_SECRETKEYBYTES), (long)(CRYPTO_CIPHERTEXTBYTES), (long)(CRYPTO_BYTES)); return 0; }\n" % s)
    must(["/usr/bin/gcc", "-I", src, "-o", p[:-2], p])
    return must([p[:-2]]).split()


# everything the compiler can trap on; implementation-defined conversions are not included
UB = "-O1 -fsanitize=undefined -fsanitize-trap=undefined -fno-sanitize=vptr,function,signed-integer-overflow,shift-base"


def c13(ctx):
    C = "clang-18"
    cfgs = [Cfg(g, o) for g, o in ALL9] + [Cfg(g, o, cc=C, cflags=UB, tag="ub") for g, o in ALL9]
    cfgs += [Cfg("AESO", "FAST", toy=16), Cfg("SHAKE", "FAST_GENERIC", toy=16), Cfg("AESO", "FAST", cc=C, cflags=UB, tag="ub", toy=16), Cfg("AESS", "FAST_GENERIC", cc=C, cflags=UB, tag="ub", toy=16),
             Cfg("SHAKE", "REFERENCE", cc=C, cflags=UB, tag="ub", toy=16), Cfg("AESO", "FAST", cc=C, cflags="-O0", tag="clangO0"), Cfg("SHAKE", "FAST", cc=C, cflags="-O3", tag="clangO3")]
    ASAN = "-O1 -fsanitize=address -fno-omit-frame-pointer"
    asan = [Cfg(g, o, cc=C, cflags=ASAN, tag="asan", ldflags=["-fsanitize=address", "-shared-libasan"]) for g, o in ALL9]
    cfgs = ctx.build(cfgs + asan)
    h = ctx.harness("h_buf", ["h_buf.c", "h.c", "model.c"])
    hk = ctx.harness("h_kem", KEM_SRC)
    ha, aenv = ctx.asan_harness("h_kem_asan", KEM_SRC)
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            src = os.path.join(ctx.out, "b-" + c.name, "src")
            if c.tag == "asan":
                slow = c.gen == "AESS" and c.opt != "FAST" or c.opt == "REFERENCE"
                for mode in ("keygen", "enc", "dec"):
                    jobs.append(dict(name="asan-%s/%s/%d" % (mode, c.name, s), timeout=420, env=aenv,
                                     cmd=[ha, mode, c.so[s], str(s), str(s), str(c.mgen), "1" if ctx.thorough and not slow else "0"]))
                continue
            sz = announced(ctx, s, src)
            if c.gen == "AESS" and c.opt != "FAST" and s != 640 and not ctx.thorough:
                continue
            lvl, k = (2, 4) if c.toy else (1, 3) if c.opt == "FAST" and c.gen != "SHAKE" and not c.tag else (0, 2)
            if ctx.thorough:
                lvl, k = (2, 8) if c.toy or c.opt == "FAST" else (1, 4)
            jobs += [dict(name="buf/%s/%d/%d" % (c.name, s, i), timeout=420, env={"SHARD": "%d/%d" % (i, k)}, cmd=[h, c.so[s], str(s), str(c.n(s)), str(c.mgen), str(lvl)] + sz) for i in range(k)]
    # undefined behaviour on the extreme-value alphabets of the API
    ub = [c for c in cfgs if c.tag == "ub"]
    jobs += kem_jobs(ctx, hk, ["keygen", "enc", "dec"], ub, lambda m, c, s: (1, 2) if c.toy or ctx.thorough and c.opt == "FAST" else (0, 1))
    ctx.run(jobs)
    return summary(ctx, "each buffer at 33 alignments from both page borders, all combinations of %s alignments, 3 prior contents, inputs read-only, guard pages, accepting and rejecting; trap-on-undefined-behaviour builds and address-sanitised builds over the API alphabets; announced sizes" % ("16" if ctx.thorough else "4 (16 on reduced n)"))
