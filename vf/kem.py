"""C01-C06: the KEM API against the reference model."""
import os
from .core import *

ALL9 = [(g, o) for g in GEN for o in OPT]
SLOW = {("AESS", "REFERENCE"), ("AESS", "FAST_GENERIC"), ("AESO", "REFERENCE"), ("SHAKE", "REFERENCE")}
KEM_SRC = ["h_kem.c", "h.c", "model.c"]


def shards(ctx, h, mode, cfg, s, level, k, timeout=420):
    return [dict(name="%s/%s/%d/%d" % (mode, cfg.name, s, i), timeout=timeout, env={"SHARD": "%d/%d" % (i, k)},
                 cmd=[h, mode, cfg.so[s], str(s), str(cfg.n(s)), str(cfg.mgen), str(level)]) for i in range(k)]


def kem_jobs(ctx, h, modes, cfgs, levels):
    """levels(mode, cfg, set) -> (level, shards) or None"""
    jobs = []
    for mode in modes:
        for c in cfgs:
            for s in sorted(c.so, reverse=True):
                r = levels(mode, c, s)
                if r:
                    jobs += shards(ctx, h, mode, c, s, *r)
    return jobs


def std_cfgs(ctx, toys=(("AESO", "FAST"), ("SHAKE", "FAST_GENERIC")), n=16):
    cs = [Cfg(g, o) for g, o in ALL9]
    cs += [Cfg(g, o, toy=n) for g, o in toys]
    if ctx.thorough:
        have = {c.name for c in cs}
        cs += [c for c in (Cfg(g, o, toy=n) for g, o in ALL9) if c.name not in have]
    return cs


def summary(ctx, exhaustive_note, extra_assumptions=()):
    c = ctx.counters
    cov = dict(states=c.get("cases", 0), transitions=c.get("calls", 0), traces_validated_against_impl=c.get("cmps") or c.get("jobs", 0),
               counts="states: enumerated cases; transitions: calls of the real code; traces: outputs of the real code compared with the oracle",
               exhaustive=False, bound=exhaustive_note, samples=ctx.samples[:8],
               **{k: v for k, v in c.items() if k not in ("cases", "calls", "aux", "cmps")})
    return ctx.finish("model_checking", cov, list(extra_assumptions) + [
        "the reference model (c/model.c) is the specification; it is checked against published Keccak/AES vectors on every start",
        "reduced-dimension instances are the same sources with only the dimension and the dependent sizes changed, used only if they agree with the model on honest runs"])


def c01(ctx):
    cfgs = ctx.build(std_cfgs(ctx))
    h = ctx.harness("h_kem", KEM_SRC)

    def lv(mode, c, s):
        if c.toy:
            return 2, 4
        if ctx.thorough:
            return (2, 16) if (c.gen, c.opt) not in SLOW else (1, 8)
        if (c.gen, c.opt) in (("AESO", "FAST"), ("SHAKE", "FAST")) and s == 640:
            return 2, 4
        if (c.gen, c.opt) == ("AESO", "FAST") and s in (976, 1344):
            return 2, 8
        if c.opt == "FAST" or (c.gen, c.opt) in (("AESO", "FAST_GENERIC"), ("SHAKE", "FAST_GENERIC")):
            return 1, 3
        return (1, 2) if s == 640 else (0, 1)
    ctx.run(kem_jobs(ctx, h, ["keygen"], cfgs, lv))
    return summary(ctx, "all 27 zero/one/base field patterns, all single-bit deviations, all values of each byte; reduced n: also all byte "
                        "values on two more backgrounds and bit pairs; 3 sets x 9 builds (slow builds: patterns and diagonals)")


def c02(ctx):
    cfgs = ctx.build(std_cfgs(ctx))
    h = ctx.harness("h_kem", KEM_SRC)

    def lv(mode, c, s):
        if c.toy:
            return 2, 4
        if ctx.thorough:
            return (2, 16) if (c.gen, c.opt) not in SLOW else (1, 8)
        if (c.gen, c.opt) == ("AESO", "FAST"):
            return 2, 8
        if (c.gen, c.opt) == ("SHAKE", "FAST") and s == 640:
            return 2, 4
        if c.opt == "FAST" or (c.gen, c.opt) in (("AESO", "FAST_GENERIC"), ("SHAKE", "FAST_GENERIC")):
            return 1, 2
        return (1, 2) if s == 640 else (0, 1)
    ctx.run(kem_jobs(ctx, h, ["enc"], cfgs, lv))
    return summary(ctx, "all message bits and byte values on 3 backgrounds, every public-key byte, constant and one-hot public matrices over 20 extreme "
                        "values, extreme seeds; reduced n: also all message bit pairs and key byte values")


def c03(ctx):
    cfgs = ctx.build(std_cfgs(ctx))
    h = ctx.harness("h_kem", KEM_SRC)

    def lv(mode, c, s):
        if c.toy:
            return 2, 4
        if ctx.thorough:
            return (2, 16) if (c.gen, c.opt) not in SLOW else (1, 8)
        if (c.gen, c.opt) == ("AESO", "FAST"):
            return 2, 8
        if c.opt == "FAST" or (c.gen, c.opt) in (("AESO", "FAST_GENERIC"), ("SHAKE", "FAST_GENERIC")):
            return 1, 3
        return (1, 4) if s == 640 and c.gen != "AESS" else (0, 1)
    def lv2(mode, c, s):
        if c.toy:
            return 2 if mode == "tol" or c.opt == "FAST" else 1, 4
        if ctx.thorough:
            return lv(mode, c, s)
        return (1, 4) if (c.gen, c.opt) == ("AESO", "FAST") and s == 640 else (-1 if (c.gen, c.opt) in SLOW else 0, 1)
    ctx.run(kem_jobs(ctx, h, ["dec"], cfgs, lv) + kem_jobs(ctx, h, ["tol", "rej", "rejz"], cfgs, lv2))
    return summary(ctx, "borderline and out-of-tolerance errors, changed ciphertexts (alphabets of C04, C05, thinned out at full n); secret keys: constant/one-hot/+-1 S over 20 extreme 16-bit values, every bit of s and pkh, every byte of the embedded key; "
                        "ciphertexts: constants, every coefficient, 20x20 extreme products; accepted for every message bit and byte value; reduced n: every byte value of sk and ct")


def c04(ctx):
    cfgs = ctx.build(std_cfgs(ctx))
    h = ctx.harness("h_kem", KEM_SRC)

    def lv(mode, c, s):
        if c.toy:
            return 2, 4
        if ctx.thorough:
            return (2, 16) if (c.gen, c.opt) not in SLOW else (1, 8)
        if (c.gen, c.opt) == ("AESO", "FAST"):
            return (2, 8) if s == 640 else (1, 8)
        if c.gen == "AESS" and c.opt != "FAST" or s != 640 and c.opt != "FAST":
            return 0, 1
        return 1, 4
    from . import comp
    jobs = kem_jobs(ctx, h, ["tol"], cfgs, lv)
    jobs += comp.comp_jobs(ctx, ["code"], [c for c in cfgs if not c.toy], lambda m, c, s: (1, 1) if c.gen == "AESO" else None)
    ctx.run(jobs)
    return summary(ctx, "every error value inside the tolerance interval at every one of the 64 coefficients (simultaneously, rotated), every value of Z_q at a "
                        "single coefficient, boundary values alone at every coefficient, 4 messages; honest round trips over all message bits and enumerated keys")


def c05(ctx):
    cfgs = ctx.build(std_cfgs(ctx))
    h = ctx.harness("h_kem", KEM_SRC)

    def lv(mode, c, s):
        if c.toy:
            return (2, 8) if c.opt == "FAST" or ctx.thorough else (1, 4)
        if ctx.thorough:
            return (2, 24) if (c.gen, c.opt) not in SLOW else (1, 8)
        if (c.gen, c.opt) == ("AESO", "FAST"):
            return (2, 8) if s == 640 and mode == "rej" else (1, 8)
        if s == 640 and mode == "rejz" and (c.gen, c.opt) in (("SHAKE", "FAST_GENERIC"), ("AESS", "FAST")):
            return 1, 4
        return 0, 2
    from . import comp
    jobs = kem_jobs(ctx, h, ["rej", "rejz"], cfgs, lv)
    jobs += comp.comp_jobs(ctx, ["select"], [c for c in cfgs if not c.toy], lambda m, c, s: (1, 2) if c.gen == "AESO" and c.opt == "FAST" else None)
    ctx.run(jobs)
    return summary(ctx, "every ciphertext bit (640), every coefficient (976, 1344); k copies of every bit, complementary differences in coefficient pairs, swaps, constants; "
                        "with honest keys and with S=0 keys (decoded message independent of the change); reduced n: bit pairs and coefficient values")


# ---------------------------------------------------------------------------------------------- C06
def c06(ctx):
    G, C = "/usr/bin/gcc", "clang-18"
    cfgs = [Cfg(g, o) for g, o in ALL9]
    cfgs += [Cfg(g, o, cc=C, cflags="-O3", tag="clangO3") for g, o in ALL9]
    cfgs += [Cfg(g, o, cc=C, cflags="-O0", tag="clangO0") for g, o in (("AESO", "FAST"), ("SHAKE", "FAST"), ("AESS", "FAST"), ("SHAKE", "FAST_GENERIC"))]
    cfgs += [Cfg(g, "FAST", cc="gcc", cflags="-O3", tag="native") for g in GEN]
    cfgs += [Cfg(g, o, cc=G, cflags="-O0", tag="gccO0") for g, o in (("AESO", "FAST"), ("AESO", "FAST_GENERIC"), ("SHAKE", "FAST"), ("SHAKE", "FAST_GENERIC"))]
    cfgs += [Cfg(g, o, cc=G, cflags="-O2 -funsigned-char", tag="gccO2u") for g, o in (("AESO", "FAST"), ("AESO", "REFERENCE"), ("SHAKE", "FAST_GENERIC"), ("AESS", "FAST_GENERIC"))]
    cfgs += [Cfg(g, o, cc=G, cflags="-Os -fno-strict-aliasing -ftrivial-auto-var-init=pattern", tag="gccOs") for g, o in (("AESO", "FAST_GENERIC"), ("SHAKE", "FAST"), ("SHAKE", "REFERENCE"))]
    cfgs += [Cfg(g, "", cc=G, extra=["ARCH=x86"], tag="x86") for g in ("AESO", "SHAKE")]
    cfgs += [Cfg(g, "", cc=G, extra=["ARCH=ARM"], tag="ARM") for g in ("AESO", "SHAKE")]
    cfgs += [Cfg("AESO", "", cc=G, tag="default"), Cfg("SHAKE", "", cc=G, tag="default")]
    if ctx.thorough:
        cfgs += [Cfg(g, o, cc=cc, cflags=f, tag=t) for g, o in ALL9 for cc, f, t in (
            (G, "-O1", "gccO1"), (G, "-O2 -flto -ffat-lto-objects", "gcclto"), (C, "-O1 -ftrivial-auto-var-init=pattern", "clangO1"), (C, "-Os", "clangOs"),
            (G, "-O3 -funroll-loops -ftree-vectorize", "gccunroll"))]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_kem", KEM_SRC)
    jobs = []
    for c in sorted(cfgs, key=lambda c: ((c.gen, c.opt) not in SLOW, c.name)):
        for s in sorted(c.so, reverse=True):
            slow = (c.gen == "AESS" and c.opt != "FAST") or "O0" in c.tag or c.opt == "REFERENCE"
            for mode in ("keygen", "enc", "dec"):
                lvl = 0 if slow else 1
                if ctx.thorough and not slow:
                    lvl = 1
                jobs += shards(ctx, h, mode, c, s, lvl, 1)
            for mode in ("tol", "rej", "rejz"):
                jobs += shards(ctx, h, mode, c, s, (0 if slow else 1) if ctx.thorough else -1 if slow or c.tag else 0, 1)
    ctx.run(jobs)
    ctx.counters["builds"] = len(cfgs)
    return summary(ctx, "%d builds x 3 sets; per build: key generation, encapsulation, decapsulation over the pattern and diagonal alphabets, borderline errors and changed ciphertexts; equality of every output with the "
                        "model implies pairwise equality" % len(cfgs))
