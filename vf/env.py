"""C10-C12: environment answers (random source, generator failures, OpenSSL failures)."""
import os
from .core import *
from .kem import summary, ALL9


def fsum(ctx, rule, assumptions=()):
    c = ctx.counters
    cov = dict(evaluations=c.get("calls", 0), distinct_nontrivial=c.get("cases", 0), rule=rule, samples=ctx.samples[:8], exhaustive=True,
               **{k: v for k, v in c.items() if k not in ("cases", "calls", "aux")})
    return ctx.finish("fault_enumeration", cov, assumptions)


def c10(ctx):
    variants = [("gccO3", "/usr/bin/gcc", ["-O3"]), ("gccO0", "/usr/bin/gcc", ["-O0"]), ("clangO2", "clang-18", ["-O2"])]
    src = os.path.join(REPO, "src", "random", "random.c")
    h = ctx.harness("h_rand", ["h_rand.c", "h.c", "model.c"], flags=["-DNO_RANDOMBYTES", "-fno-builtin"])
    jobs, huge = [], []
    # the object the makefile builds for the library, and direct builds with other compilers
    cfg = ctx.build([Cfg("AESS", "FAST", sets=(640,), keep_rand=True)])[0]
    libs = [("lib", cfg.so[640])]
    for tag, cc, fl in variants:
        so = os.path.join(ctx.out, "rand-%s.so" % tag)
        rc, out = sh([cc, "-std=gnu11", "-DNIX", "-D_AMD64_", "-D_FAST_", "-D_AES128_FOR_A_", "-fPIC", "-shared", "-I", os.path.join(REPO, "src"), "-o", so] + fl + [src])
        if rc == 0:
            libs.append((tag, so))
        else:
            ctx.note("random.c alone does not compile with %s: %s" % (tag, out[-150:].replace("\n", " ")))
    lv = "2" if ctx.thorough else "1"
    jobs += [dict(name="rand-fork/lib/%d" % i, env={"SHARD": "%d/8" % i}, cmd=[h, libs[0][1], "fork", lv]) for i in range(8)]
    for tag, so in libs:
        if not ctx.thorough and tag in ("gccO0",):
            jobs.append(dict(name="rand-chain/%s" % tag, cmd=[h, so, "chain", lv]))
            continue
        jobs += [dict(name="rand-seq/%s/%d" % (tag, i), env={"SHARD": "%d/8" % i}, cmd=[h, so, "seq", lv]) for i in range(8)]
        jobs.append(dict(name="rand-chain/%s" % tag, cmd=[h, so, "chain", lv]))
    ctx.run(jobs)
    sizes = [2**31 + 5, 2**32 + 7] if not ctx.thorough else [2**31 - 1, 2**31, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7]
    for n in sizes:
        huge.append(dict(name="rand-huge/%d" % n, timeout=120, cmd=[h, libs[0][1], "huge", lv, str(n)]))
    ctx.run(huge, workers=2)
    # Windows branch with stand-in headers
    so = os.path.join(ctx.out, "rand-win.so")
    rc, out = sh(["/usr/bin/gcc", "-std=gnu11", "-O2", "-DWINDOWS", "-D_AMD64_", "-D_FAST_", "-D_AES128_FOR_A_", "-fPIC", "-shared",
                  "-I", os.path.join(CDIR, "winstub"), "-I", os.path.join(REPO, "src"), "-o", so, src])
    if rc == 0:
        hw = ctx.harness("h_randw", ["h_randw.c", "h.c", "model.c"], flags=["-DNO_RANDOMBYTES"])
        ctx.run([dict(name="rand-windows", cmd=[hw, so])])
        wl = [2**30 + 1, 2**31 + 5, 2**32 + 7] if not ctx.thorough else [2**30 - 1, 2**30, 2**30 + 1, 2**31 - 1, 2**31 + 5, 2**32 - 1, 2**32, 2**32 + 7]
        ctx.run([dict(name="rand-windows/%d" % n, timeout=120, cmd=[hw, so, str(n)]) for n in wl], workers=2)
    else:
        ctx.note("Windows branch of random.c does not compile with the stand-in headers: skipped")
    return fsum(ctx, "every sequence of %s answers out of {ok, 1 byte, n-1, n/2, EINTR, EAGAIN, EIO, EOF} to open/read for 12 request sizes from the initial state (descriptor 0 too), then three more requests; "
                     "every request size 0..4200 and around powers of two; requests beyond 2^31 and 2^32; 70000 requests in a row; 0-2 requests, fork, four requests by parent or child in every order (no system byte handed out twice). A case is one history; non-trivial: at least one system call was answered" % ("5" if ctx.thorough else "4"),
                ["a system that fails for ever makes the request wait for ever; after the enumerated answers the system answers normally",
                 "the Windows branch is compiled against stand-in headers"])


def c11(ctx):
    cfgs = ctx.build([Cfg(g, o) for g, o in ALL9] + [Cfg("AESO", "FAST", cc="clang-18", tag="clang")])
    h = ctx.harness("h_fault", ["h_fault.c", "h.c", "model.c"])
    jobs = [dict(name="rng/%s/%d" % (c.name, s), cmd=[h, "rng", c.so[s], str(s), str(c.n(s)), str(c.mgen)]) for c in cfgs for s in sorted(c.so, reverse=True)]
    ctx.run(jobs)
    return fsum(ctx, "each request to the generator made by key generation and encapsulation fails (three codes, buffer untouched, half or completely filled), after each of 8 histories of earlier succeeding/failing operations; then all operations again with a working generator; "
                     "3 sets x 9 builds. A case is (operation, failing request, history)")


def c12(ctx):
    cfgs = ctx.build([Cfg("AESO", o) for o in OPT] + [Cfg("AESO", "FAST", cc="clang-18", tag="clang")])
    h = ctx.harness("h_fault", ["h_fault.c", "h.c", "model.c"])
    jobs = []
    for c in cfgs:
        for s in sorted(c.so, reverse=True):
            jobs += [dict(name="backend/%s/%d/%d" % (c.name, s, i), env={"SHARD": "%d/2" % i}, cmd=[h, "backend", c.so[s], str(s), str(c.n(s)), str(c.mgen)]) for i in range(2)]
    ctx.run(jobs)
    if not ctx.counters.get("backend_calls"):
        ctx.note("the OpenSSL builds made no interposable backend call")
    return fsum(ctx, "for key generation, encapsulation, accepting and rejecting decapsulation: each single OpenSSL call fails (also after damaging its output), each pair of neighbouring or next but one calls and each suffix of calls fails, in a child process, followed by all operations with a working backend if the failure was reported; allocation balance over repeated calls. A case is (operation, failing call)",
                ["calls of OpenSSL functions outside the interposed set are assumed not to fail"])
