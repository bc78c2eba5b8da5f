"""Component-level enumerations (C18, C19, C20, parts of C04/C05)."""
import os
from .core import *
from .kem import std_cfgs, kem_jobs, shards, summary, KEM_SRC, ALL9, SLOW

PROTO = {
    "frodo_pack": "void(*)(unsigned char*, const size_t, const uint16_t*, const size_t, const unsigned char)",
    "frodo_unpack": "void(*)(uint16_t*, const size_t, const unsigned char*, const size_t, const unsigned char)",
    "frodo_sample_n": "void(*)(uint16_t*, const size_t)",
    "ct_verify": "int8_t(*)(const uint16_t*, const uint16_t*, size_t)",
    "ct_select": "void(*)(uint8_t*, const uint8_t*, const uint8_t*, size_t, int8_t)",
    "clear_bytes": "void(*)(uint8_t*, size_t)",
    "frodo_mul_add_as_plus_e": "int(*)(uint16_t*, const uint16_t*, const uint16_t*, const uint8_t*)",
    "frodo_mul_add_sa_plus_e": "int(*)(uint16_t*, const uint16_t*, uint16_t*, const uint8_t*)",
    "frodo_mul_add_sb_plus_e": "void(*)(uint16_t*, const uint16_t*, const uint16_t*, const uint16_t*)",
    "frodo_mul_bs": "void(*)(uint16_t*, const uint16_t*, const uint16_t*)",
    "frodo_add": "void(*)(uint16_t*, const uint16_t*, const uint16_t*)",
    "frodo_sub": "void(*)(uint16_t*, const uint16_t*, const uint16_t*)",
    "frodo_key_encode": "void(*)(uint16_t*, const uint16_t*)",
    "frodo_key_decode": "void(*)(uint16_t*, const uint16_t*)",
}
SHA_PROTO = {
    "shake128": "void(*)(unsigned char*, unsigned long long, const unsigned char*, unsigned long long)",
    "shake256": "void(*)(unsigned char*, unsigned long long, const unsigned char*, unsigned long long)",
    "shake128_absorb": "void(*)(uint64_t*, const unsigned char*, unsigned int)",
    "shake256_absorb": "void(*)(uint64_t*, const unsigned char*, unsigned int)",
    "shake128_squeezeblocks": "void(*)(unsigned char*, unsigned long long, uint64_t*)",
    "shake256_squeezeblocks": "void(*)(unsigned char*, unsigned long long, uint64_t*)",
}
SHA4_PROTO = {
    "shake128_4x": "void(*)(unsigned char*, unsigned char*, unsigned char*, unsigned char*, unsigned long long, const unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, unsigned long long)",
    "shake128_absorb4x": "void(*)(__m256i*, const unsigned char*, const unsigned char*, const unsigned char*, const unsigned char*, unsigned long long)",
    "shake128_squeezeblocks4x": "void(*)(unsigned char*, unsigned char*, unsigned char*, unsigned char*, unsigned long long, __m256i*)",
}
AES_PROTO = {
    "AES128_load_schedule": "void(*)(const uint8_t*, uint8_t*)",
    "AES256_load_schedule": "void(*)(const uint8_t*, uint8_t*)",
    "AES128_ECB_enc_sch": "void(*)(const uint8_t*, const size_t, const uint8_t*, uint8_t*)",
    "AES256_ECB_enc_sch": "void(*)(const uint8_t*, const size_t, const uint8_t*, uint8_t*)",
    "AES128_free_schedule": "void(*)(uint8_t*)",
    "AES256_free_schedule": "void(*)(uint8_t*)",
}


def protos(ctx, header, table, flags=("-DNIX", "-D_AMD64_", "-D_FAST_", "-D_AES128_FOR_A_", "-mavx2", "-maes")):
    """Which of the internal functions still have the prototype the component drivers call them with."""
    def one(item):
        f, t = item
        src = os.path.join(ctx.out, "proto-%s.c" % f)
        open(src, "w").write('#include <stddef.h>\n#include <stdint.h>\n#include "%s"\n_Static_assert(__builtin_types_compatible_p(__typeof__(&%s), %s), "");\n' % (header, f, t))
        rc, _ = sh(["/usr/bin/gcc", "-std=gnu11", "-fsyntax-only", "-I", os.path.join(REPO, "src")] + list(flags) + [src])
        return f if rc == 0 else None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return [f for f in ex.map(one, table.items()) if f]


def comp_jobs(ctx, modes, cfgs, levels):
    h = ctx.harness("h_comp", ["h_comp.c", "h.c", "model.c"])
    have = "," + ",".join(protos(ctx, "frodo_macrify.h", PROTO)) + ","
    jobs = kem_jobs(ctx, h, modes, cfgs, levels)
    for j in jobs:
        j["env"]["HAVE"] = have
    return jobs


def noise_jobs(ctx, cfgs, levels):
    h = ctx.harness("h_noise", ["h_noise.c", "h.c", "model.c"])
    have = "," + ",".join(protos(ctx, "sha3/fips202.h", SHA_PROTO)) + ","
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            r = levels(c, s)
            if r:
                jobs += [dict(name="noise/%s/%d/%d" % (c.name, s, i), timeout=420, env={"SHARD": "%d/%d" % (i, r[1]), "HAVE": have},
                              cmd=[h, c.so[s], str(s), str(c.n(s)), str(c.mgen), str(r[0])]) for i in range(r[1])]
    return jobs


def c18(ctx):
    cfgs = ctx.build([Cfg("AESO", "FAST"), Cfg("SHAKE", "REFERENCE"), Cfg("AESO", "FAST_GENERIC", cc="clang-18", tag="clang"),
                      Cfg("AESO", "FAST", toy=16), Cfg("SHAKE", "FAST_GENERIC", toy=16)])
    jobs = comp_jobs(ctx, ["sample"], [c for c in cfgs if not c.toy], lambda m, c, s: (2, 4) if c.opt == "FAST" or ctx.thorough else (1, 2))
    jobs += noise_jobs(ctx, cfgs, lambda c, s: (2, 6) if c.toy else (1, 4) if c.opt == "FAST" else (0, 1))
    if ctx.thorough:
        jobs += noise_jobs(ctx, [c for c in cfgs if c.name == "AESO-FAST"], lambda c, s: (2, 32) if s == 640 else (1, 8))
    h = ctx.harness("h_kem", KEM_SRC)
    jobs += kem_jobs(ctx, h, ["keygen"], cfgs, lambda m, c, s: None if c.toy else (1, 2) if c.opt == "FAST" else (0, 1))
    ctx.run(jobs)
    return summary(ctx, "all 65536 words at every position of the sampled arrays (component; and through the API with the noise XOF scripted, reduced n), 64 rotations at full n; API keys")


def c19(ctx):
    cfgs = ctx.build([Cfg("AESO", "FAST"), Cfg("SHAKE", "FAST_GENERIC", cc="clang-18", tag="clang"), Cfg("SHAKE", "REFERENCE"), Cfg("AESO", "FAST", toy=16)])
    full = [c for c in cfgs if not c.toy]
    jobs = comp_jobs(ctx, ["pack"], full, lambda m, c, s: (2, 8) if c.name == "AESO-FAST" or ctx.thorough else (1, 2))
    h = ctx.harness("h_kem", KEM_SRC)
    jobs += kem_jobs(ctx, h, ["keygen", "enc", "dec"], cfgs, lambda m, c, s: (2, 4) if c.toy else (1, 2) if c.opt == "FAST" else (0, 1))
    ctx.run(jobs)
    return summary(ctx, "every bit of every coefficient (and above D) on zero/one backgrounds, every wire bit back, all 65536 values at every position, for n*8 and 64 coefficients, D=15,16; API traces")


def c20(ctx):
    cfgs = ctx.build([Cfg(g, o) for g, o in ALL9] + [Cfg("AESO", "FAST", toy=16), Cfg("SHAKE", "FAST_GENERIC", toy=16), Cfg("AESO", "FAST", cc="clang-18", tag="clang")])
    full = [c for c in cfgs if not c.toy]

    def lv(m, c, s):
        slow = (c.gen, c.opt) in SLOW
        if ctx.thorough:
            return (2, 16) if not slow else (1, 8)
        if c.gen == "AESS" and c.opt != "FAST" or c.opt == "REFERENCE":
            return (1, 4) if s == 640 and c.gen != "AESS" else (0, 2)
        return (2, 8) if c.name == "AESO-FAST" and s == 640 else (1, 4)
    jobs = comp_jobs(ctx, ["arith"], full, lv)
    h = ctx.harness("h_kem", KEM_SRC)
    jobs += kem_jobs(ctx, h, ["keygen", "enc"], cfgs, lambda m, c, s: (2, 4) if c.toy else (1, 2) if c.opt == "FAST" else (0, 1))
    jobs += kem_jobs(ctx, h, ["dec"], cfgs, lambda m, c, s: (1, 2) if c.toy else (0, 1))
    jobs += noise_jobs(ctx, [c for c in cfgs if c.name == "AESO-FAST" or c.toy], lambda c, s: (1, 2))
    ctx.run(jobs)
    return summary(ctx, "whole matrix A through basis matrices for base/zero/one seeds and per-bit seed changes, dense extreme noise, all one-term products over extreme and (3 positions) all 16-bit values; API traces")
