#!/usr/bin/env python3
"""Compiler that gives C code big-endian memory semantics on this machine.

Compiles for a big-endian 64-bit target up to unoptimised LLVM IR, reverses the bytes of every multi-byte integer at each
load, store and static initialiser, and compiles the result natively. Called like cc -c ... file.c -o file.o"""
import os, re, subprocess, sys

INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "inc")
W = {"i16": 2, "i32": 4, "i64": 8}


def swapc(m):
    t, v = m.group(1), int(m.group(2))
    n = W[t]
    return "%s %d" % (t, int.from_bytes((v % (1 << (8 * n))).to_bytes(n, "little"), "big"))


def rewrite(ll):
    out, n = [], 0
    for line in ll.split("\n"):
        if line.startswith("target datalayout"):
            line = 'target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"'
        elif line.startswith("target triple"):
            line = 'target triple = "x86_64-pc-linux-gnu"'
        elif line.startswith("attributes #"):
            line = re.sub(r'"(target-cpu|target-features|tune-cpu)"="[^"]*"', "", line)
        elif line.startswith("@"):
            if re.search(r"\b(i24|i40|i48|i56|i128|float|double)\b", line):
                raise SystemExit("becc: unsupported initialiser: " + line[:120])
            line = re.sub(r"\b(i16|i32|i64) (-?\d+)\b", swapc, line)
        else:
            m = re.match(r"^(\s+)(%[\w.]+) = load (atomic |volatile |atomic volatile )?(\w+), (.*)$", line)
            if m:
                ty = m.group(4)
                if ty in W:
                    n += 1
                    out.append("%s%%be.l%d = load %s%s, %s" % (m.group(1), n, m.group(3) or "", ty, m.group(5)))
                    line = "%s%s = call %s @llvm.bswap.%s(%s %%be.l%d)" % (m.group(1), m.group(2), ty, ty, ty, n)
                elif ty not in ("ptr", "i8", "i1"):
                    raise SystemExit("becc: unsupported load: " + line)
            else:
                m = re.match(r"^(\s+)store (atomic |volatile |atomic volatile )?(\w+) (\S+), (.*)$", line)
                if m:
                    ty = m.group(3)
                    if ty in W:
                        n += 1
                        out.append("%s%%be.s%d = call %s @llvm.bswap.%s(%s %s)" % (m.group(1), n, ty, ty, ty, m.group(4)))
                        line = "%sstore %s%s %%be.s%d, %s" % (m.group(1), m.group(2) or "", ty, n, m.group(5))
                    elif ty not in ("ptr", "i8", "i1"):
                        raise SystemExit("becc: unsupported store: " + line)
                elif re.match(r"^\s+(%\S+ = )?(load|store) ", line):
                    raise SystemExit("becc: unsupported access: " + line)
        # unnamed values are numbered consecutively; named ones do not disturb the numbering
        out.append(line)
    t = "\n".join(out)
    for ty in W:
        if "@llvm.bswap.%s(" % ty in t and not re.search(r"^declare .*@llvm\.bswap\.%s\(" % ty, t, re.M):
            t += "\ndeclare %s @llvm.bswap.%s(%s)\n" % (ty, ty, ty)
    return t


def main():
    src = obj = None
    args, i, a = [], 0, sys.argv[1:]
    undef = []
    while i < len(a):
        x = a[i]
        if x == "-o":
            obj = a[i + 1]; i += 1
        elif x in ("-D", "-I", "-U"):
            if not (x == "-I" and a[i + 1] == "/usr/include"):
                args += [x, a[i + 1]]
            i += 1
        elif x.startswith(("-D", "-U")) or x.startswith("-I") and x != "-I/usr/include" or x.startswith("-std="):
            args.append(x)
        elif x.endswith(".c"):
            src = x
        i += 1
    if src is None or obj is None:
        raise SystemExit("becc: only -c file.c -o file.o")
    ll = subprocess.run(["clang-18", "--target=aarch64_be-unknown-linux-gnu", "-fPIC", "-ffreestanding", "-nostdlibinc", "-isystem", INC, "-w",
                         "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-o", "-"] + args + [src],
                        stdout=subprocess.PIPE, check=True).stdout.decode()
    if "define" not in ll:
        pass
    t = rewrite(ll)
    p = obj + ".be.ll"
    with open(p, "w") as f:
        f.write(t)
    subprocess.run(["clang-18", "-w", "-O2", "-fPIC", "-c", p, "-o", obj], check=True)
    os.unlink(p)


if __name__ == "__main__":
    main()
