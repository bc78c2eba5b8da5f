"""C14: residue of secrets."""
from .core import *
from .kem import summary, ALL9
from .comp import protos, SHA_PROTO


def c14(ctx):
    C = "clang-18"
    cfgs = [Cfg(g, o) for g, o in ALL9] + [Cfg(g, o, cc=C, tag="clang") for g, o in ALL9]
    cfgs += [Cfg(g, o, cflags="-O0", tag="O0") for g, o in (("AESO", "FAST"), ("SHAKE", "FAST_GENERIC"))]
    cfgs += [Cfg("AESO", "FAST", cflags="-Os", tag="Os"), Cfg("AESO", "FAST_GENERIC", cflags="-O3 -flto", tag="lto", ldflags=["-O3", "-flto"]), Cfg("AESO", "FAST", cc="gcc", tag="native")]
    TINY = (("AESO", "FAST"), ("SHAKE", "FAST_GENERIC"), ("AESO", "REFERENCE"))
    cfgs += [Cfg(g, o, cc=cc, cflags="-O2", tag=t) for g, o in TINY for cc, t in (("/usr/bin/gcc", "gccO2"), (C, "clangO2"))]
    if ctx.thorough:
        cfgs += [Cfg(g, o, cc=cc, cflags=f, tag=t) for g, o in ALL9 for cc, f, t in (("/usr/bin/gcc", "-O1", "gccO1"), (C, "-O1", "clangO1"), (C, "-Os", "clangOs"))]
    cfgs = ctx.build(cfgs)
    h = ctx.harness("h_res", ["h_res.c", "h.c", "model.c"])
    have = "," + ",".join(protos(ctx, "sha3/fips202.h", SHA_PROTO)) + ","
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            if c.tag in ("", "clang", "gccO2", "clangO2") and (c.gen, c.opt) in TINY and (ctx.thorough or s != 976 or c.opt == "FAST"):
                jobs.append(dict(name="residue-tiny/%s/%d" % (c.name, s), env={"HAVE": have}, set=s, cc=c.cc, base=(c.gen, c.opt), cmd=[h, c.so[s], str(s), str(s), str(c.mgen), "0", "tiny"]))
            if c.tag in ("gccO2", "clangO2") and not ctx.thorough:
                continue
            lv, k = (2, 4) if ctx.thorough else (1, 2) if c.opt == "FAST" and not (c.tag == "clang" and c.gen == "AESS") else (0, 1)
            jobs += [dict(name="residue/%s/%d/%d" % (c.name, s, i), env={"SHARD": "%d/%d" % (i, k), "HAVE": have}, set=s, cc=c.cc,
                          cmd=[h, c.so[s], str(s), str(s), str(c.mgen), str(lv)]) for i in range(k)]
            if ctx.thorough or c.tag in ("", "clang"):
                jobs.append(dict(name="residue-short/%s/%d" % (c.name, s), env={"HAVE": have}, set=s, cc=c.cc, cmd=[h, c.so[s], str(s), str(s), str(c.mgen), str(lv), "short"]))
    # A compiler may spill registers that hold secrets, in a way no source text controls; what the source leaves behind
    # is there whichever compiler builds it. So a secret counts as left when both compilers' builds leave it.
    # Single bytes and coefficients: only what all four builds (two compilers, -O2 and -O3) of the same options leave counts.
    seen, small, ran = {}, {}, {}
    for r in ctx.run(jobs):
        if "base" in r["job"]:
            ran.setdefault((r["job"]["base"], r["job"]["set"]), set()).add(r["name"])
        for x in r.get("hits", []):
            op, name, where = x.split("|", 2)
            if op.startswith("tiny "):
                ix = set()
                for ab in where.rstrip(".").rstrip(",").split(","):
                    a, b = ab.split("-")
                    ix |= set(range(int(a), int(b) + 1))
                small.setdefault((r["job"]["base"], r["job"]["set"], op[5:], name), {}).setdefault(r["name"], [set(), r])[0].update(ix)
                continue
            seen.setdefault((r["job"]["set"], op, name), {}).setdefault("clang" if "clang" in r["job"]["cc"] else "gcc", []).append((r, where))
    for (s, op, name), by in sorted(seen.items()):
        if len(by) == 2:
            r, where = by["gcc"][0]
            ctx.fails.append(dict(job=r["name"], what="%d after %s: %s" % (s, op, where), cmd=r["job"]["cmd"], env=r["job"]["env"]))
        else:
            cc, l = list(by.items())[0]
            ctx.note("only %s builds leave %s after %s (%s): taken for a register spill" % (cc, name, op, l[0][1][:150]))
    for (base, s, op, name), by in sorted(small.items()):
        if len(ran[base, s]) == 4 and len(by) == 4:
            ix = sorted(set.intersection(*[v[0] for v in by.values()]))
            if ix:
                r = list(by.values())[0][1]
                ctx.fails.append(dict(job=r["name"], what="%d after %s: %d bytes or coefficients of %s from index %d are left at a fixed place by every compiler" % (s, op, len(ix), name, ix[0]), cmd=r["job"]["cmd"], env=r["job"]["env"]))
    del ctx.fails[3:]
    return summary(ctx, "key generation, encapsulation, accepting and five kinds of rejecting decapsulation, %d builds x 3 sets; after each the whole stack (every byte offset), static and thread-local data and every released heap block "
                        "are searched for every 16-coefficient window of the secret matrices and every 8-byte window of the secret seeds, message and keys; and for every 4-coefficient and 4-byte piece that is left at the same place "
                        "for five different secrets, and for every single byte and coefficient left at the same place for 16 different secrets. A secret counts as left when builds of both compilers leave it (single bytes and coefficients: gcc and clang at -O2 and -O3)" % len(cfgs),
                   ["the dead scratch of the hash functions (below their callers' frames) is not counted", "registers are not inspected", "what only one compiler's builds leave is taken for a register spill and listed as a note"])
