"""C07: the Python implementation against the model."""
import os
from .core import *
from .kem import summary

PY = "/opt/vp/pyvenv/bin/python"
VARIANTS = ["FrodoKEM-%d-%s" % (s, g) for s in (1344, 976, 640) for g in ("AES", "SHAKE")]


def worker(ctx):
    so = os.path.join(ctx.out, "libmodel.so")
    must(["/usr/bin/gcc", "-O3", "-mavx2", "-shared", "-fPIC", "-I", CDIR, "-o", so, os.path.join(CDIR, "pymodel.c"), os.path.join(CDIR, "model.c")])
    w = os.path.join(VERIF, "vf", "pyworker.py")
    py = PY if os.path.exists(PY) else "python3"
    return py, w, so


def c07(ctx):
    py, w, so = worker(ctx)
    jobs = []

    def add(mode, v, n, level, k=1, timeout=600):
        for i in range(k):
            jobs.append(dict(name="py-%s/%s-n%d/%d" % (mode, v, n, i), timeout=timeout, env={"SHARD": "%d/%d" % (i, k)},
                             cmd=[py, "-B", w, REPO, so, mode, v, str(n), str(level)]))
    for v in VARIANTS:
        s = int(v.split("-")[1])
        add("full", v, s, 1 if ctx.thorough else 0, 3)
        add("len", v, s, 1, 1)
        add("comp", v, s, 2 if ctx.thorough else 1 if "AES" in v else 0, 6)
        add("kem", v, 8, 2, 4)
        add("dec", v, 16, 2 if ctx.thorough else 1, 4)
        if ctx.thorough:
            add("kem", v, 24, 1, 2)
            add("dec", v, s, 0, 2)
    add("names", "any", 640, 1)
    ctx.run(jobs)
    return summary(ctx, "per variant: every word sampled, every value of Z_q decoded (rotated over the positions) and all rounding borders at every position, every byte value encoded, every bit packed and unpacked, full-dimension A for 3 seeds; "
                        "one full-dimension history with honest and changed ciphertexts; reduced n: 27 field patterns and all bytes of the random input, message bits, key and ciphertext bytes, chosen accumulated errors; "
                        "every wrong length up to twice the right one; one-character variations of the variant names")


def c22(ctx):
    py, w, so = worker(ctx)
    V = VARIANTS[::-1]
    jobs = []

    def add(mode, v, level, k):
        for i in range(k):
            jobs.append(dict(name="py-%s/%s-l%d/%d" % (mode, v, level, i), env={"SHARD": "%d/%d" % (i, k)}, cmd=[py, "-B", w, REPO, so, mode, v, "8", str(level)]))
    th = ctx.thorough
    for a in V:
        for b in V:
            if th or a == b or (a.split("-")[1] == b.split("-")[1]):
                add("hist", a + "+" + b, 1 if th or (a == b and a == V[3]) or (a, b) == (V[0], V[1]) else 0, 8)
            else:
                add("hist", a + "+" + b, 0, 2)
    for a in V if th else (V[0], V[4]):
        add("inter", a + "+" + a, 0, 8)
    for a, b in ((V[0], V[1]), (V[2], V[5])):
        add("inter", a + "+" + b, 1, 8)
    for a in V if th else (V[2], V[5]):
        add("inter", a + "+" + a, 2, 8)
        add("inter", a + "+" + a, 12, 8)
    for a in V if th else (V[1],):
        add("inter", a + "+" + a, 10, 8)
    for a, b in ((V[0], V[1]), (V[5], V[4])):
        add("inter", a + "+" + b, 11, 4)
    for a in V:
        add("near", a, 0, 4)
    ctx.run(jobs)
    return summary(ctx, "reduced n, all six variants: all sequences of two operations (three for some pairs; thorough: for all pairs) out of 33 on two objects of the same or different variants (same and different keys, sharing the seed of A; "
                        "accepted and changed ciphertexts, wrong lengths, failing random source, printing of intermediate values, objects made anew), every prefix from its own process; "
                        "every operation interrupted by a whole other operation, on the same object and on another, at every function call and every line of the operation; two variants (thorough: all): also by all three operations in a row at every line of every function, in its first and last activation, the first, middle and last time the line is reached; interruptions also with every run in a process in which nothing ran before; op(x), op(x'), op(x) for every single-byte change x' of the keys and the ciphertext",
                   ["interruptions: one preemption, the other operation runs to completion", "objects of reduced dimension"])


def c23(ctx):
    py, w, so = worker(ctx)
    jobs = [dict(name="py-rand/%s/%d" % (v, i), env={"SHARD": "%d/4" % i}, cmd=[py, "-B", w, REPO, so, "rand", v, str(int(v.split("-")[1])), "1"]) for v in VARIANTS for i in range(4)]
    jobs = [dict(name="py-kat/%d" % i, env={"SHARD": "%d/8" % i}, cmd=[py, "-B", w, REPO, so, "kat", "any", "640", "2" if ctx.thorough else "1"], stuck=300) for i in range(8)] + jobs
    ctx.run(jobs)
    return summary(ctx, "one history of some 22000 requests over two objects (all sizes 0..299, up to 65536, all patterns of four requests of four sizes on two objects) against a scripted, never repeating system stream: no delivered 8-byte window repeats, never more delivered than drawn; value counts per position and bit over 8192 requests per size; three forked children and their parent; "
                        "known-answer program: all ordered pairs of variants at n=8, two variants (thorough: all) at full n, against an independent CTR_DRBG and the model",
                   ["a random source that bypasses os.urandom/os.getrandom is only checked not to be a seeded generator"])
