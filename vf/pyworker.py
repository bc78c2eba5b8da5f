"""Runs the Python implementation of the repository through enumerated inputs (C07), histories and interleavings (C22)
and random sources (C23).
usage: pyworker.py REPO libmodel.so MODE VARIANT N LEVEL   (SHARD, CASEFILE, VERIF_SEED in the environment)"""
import contextlib, ctypes, hashlib, importlib.util, io, json, mmap, os, random, struct, sys, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
repo, mso, mode, variant, N, level = sys.argv[1:7]
N, level = int(N), int(level)
M = ctypes.CDLL(mso)
M.pm_size.restype = ctypes.c_long
M.pm_init()
SEED = os.environ.get("VERIF_SEED", "1")
TH = os.environ.get("VERIF_TIER") == "thorough"
shard, nsh = (int(x) for x in os.environ.get("SHARD", "0/1").split("/"))
st = dict(cases=0, calls=0, cmps=0, accepted=0, rejected=0, refused=0, samples=[], notes=[])
nfail = 0
idx = 0
case_text = "(start)"
cfile = None
if os.environ.get("CASEFILE"):
    f = open(os.environ["CASEFILE"], "r+b")
    cfile = mmap.mmap(f.fileno(), 4096)


def mine():
    global idx
    idx += 1
    return (idx - 1) % nsh == shard


def case(fmt, *a):
    global case_text
    case_text = "%s n=%d " % (variant, N) + (fmt % a if a else fmt)
    st["cases"] += 1
    if cfile:
        b = case_text.encode()[:3900]
        cfile[:len(b) + 1] = b + b"\0"


def done():
    print("DONE " + json.dumps(st), flush=True)
    os._exit(1 if nfail else 0)


def fail(fmt, *a):
    global nfail
    print("FAIL %s :: %s" % (case_text, fmt % a if a else fmt), flush=True)
    nfail += 1
    if nfail >= 3:
        done()


def note(s):
    st["notes"].append(s)


def xof(n, label):
    b = ("py base %s/" % SEED + label).encode()
    o = ctypes.create_string_buffer(n)
    M.pm_xof(o, n, b, len(b))
    return o.raw


# a scripted system random source, in place before the implementation is loaded
class Sys:
    on, pos, drawn, calls, key, blk, cur = False, 0, 0, 0, b"", -1, b""


def sysbytes(n, *a):
    """the system's generator, replaced by a stream that never repeats"""
    if not Sys.on:
        return real_urandom(n)
    Sys.calls += 1
    Sys.drawn += n
    o = b""
    while len(o) < n:
        if Sys.pos >> 16 != Sys.blk:
            Sys.blk = Sys.pos >> 16
            Sys.cur = hashlib.shake_128(b"sys" + Sys.key + Sys.blk.to_bytes(8, "big")).digest(65536)
        i = Sys.pos & 65535
        x = Sys.cur[i:i + n - len(o)]
        o += x
        Sys.pos += len(x)
    return o


real_urandom = os.urandom
if mode == "rand":
    os.urandom = random._urandom = sysbytes
    if hasattr(os, "getrandom"):
        os.getrandom = sysbytes

spec = importlib.util.spec_from_file_location("frodokem", os.path.join(repo, "python3", "frodokem.py"))
mod = importlib.util.module_from_spec(spec)
sys.path.insert(0, os.path.join(repo, "python3"))
spec.loader.exec_module(mod)

VARIANTS = ["FrodoKEM-%d-%s" % (s, g) for s in (640, 976, 1344) for g in ("AES", "SHAKE")]


def par(variant):
    _, s, g = variant.split("-")
    return int(s), 0 if g == "AES" else 1


SET, GENM = par(variant) if variant in VARIANTS else (640, 0)
if "+" in variant:
    SET, GENM = par(variant.split("+")[0])
PKB, SKB, CTB, MUB, RNDB, CB, D, B = (M.pm_size(SET, N, i) for i in range(8))
q = 1 << D


class Rnd:
    def __init__(self):
        self.b, self.used, self.over = b"", 0, False

    def feed(self, b):
        self.b, self.used, self.over = b, 0, False

    def __call__(self, k):
        o = self.b[self.used:self.used + k]
        if len(o) < k:
            self.over = True
            o += b"\xEE" * (k - len(o))
        self.used += k
        return o


rnd = Rnd()


def make(memo=True):
    k = mod.FrodoKEM(variant)
    k.randombytes = rnd
    if N != SET:
        k.n = N
        k.len_sk_bytes, k.len_pk_bytes, k.len_ct_bytes = SKB, PKB, CTB
    if memo and callable(getattr(k, "gen", None)):
        cache, g = {}, k.gen
        def gen(seedA, *a):
            key = bytes(seedA)
            if key not in cache:
                if len(cache) > 64:
                    cache.clear()
                cache[key] = g(seedA, *a)
            return [list(r) for r in cache[key]]
        k.gen = gen
    return k


def m_keypair(r):
    pk, sk = ctypes.create_string_buffer(PKB), ctypes.create_string_buffer(SKB)
    M.pm_keypair(SET, N, GENM, r, pk, sk)
    return pk.raw, sk.raw


def m_enc(pk, mu):
    ct, ss = ctypes.create_string_buffer(CTB), ctypes.create_string_buffer(CB)
    M.pm_enc(SET, N, GENM, pk, mu, ct, ss)
    return ct.raw, ss.raw


def m_dec(sk, ct):
    ss = ctypes.create_string_buffer(CB)
    acc = M.pm_dec(SET, N, GENM, sk, ct, ss)
    return acc, ss.raw


def first(a, b):
    if len(a) != len(b):
        return "has length %d instead of %d" % (len(a), len(b))
    for i in range(len(a)):
        if a[i] != b[i]:
            return "byte %d is %02x, specified %02x" % (i, a[i], b[i])


def guard(f, *a):
    st["calls"] += 1
    st["cmps"] += 1
    try:
        return True, f(*a)
    except Exception as e:
        return False, "%s: %s" % (type(e).__name__, e)


def one_keygen(k, r, what, *a):
    case("keygen[" + what + "] rnd=%s", *a, r.hex())
    rnd.feed(r)
    ok, v = guard(k.kem_keygen)
    if not ok:
        return fail("raised %s", v)
    pk, sk = m_keypair(r)
    if rnd.used != RNDB or rnd.over:
        fail("drew %d random bytes instead of %d", rnd.used, RNDB)
    elif bytes(v[0]) != pk:
        fail("public key %s", first(v[0], pk))
    elif bytes(v[1]) != sk:
        fail("secret key %s", first(v[1], sk))


def one_enc(k, pk, mu, what, *a):
    case("encaps[" + what + "] mu=%s", *a, mu.hex())
    rnd.feed(mu)
    ok, v = guard(k.kem_encaps, pk)
    if not ok:
        return fail("raised %s", v)
    ct, ss = m_enc(pk, mu)
    if rnd.used != MUB or rnd.over:
        fail("drew %d random bytes instead of %d", rnd.used, MUB)
    elif bytes(v[0]) != ct:
        fail("ciphertext %s", first(v[0], ct))
    elif bytes(v[1]) != ss:
        fail("shared secret %s", first(v[1], ss))


def one_dec(k, sk, ct, what, *a):
    case("decaps[" + what + "]", *a)
    rnd.feed(b"")
    ok, v = guard(k.kem_decaps, sk, ct)
    if not ok:
        return fail("raised %s", v)
    acc, ss = m_dec(sk, ct)
    st["accepted" if acc else "rejected"] += 1
    if rnd.used:
        fail("drew random bytes")
    elif bytes(v) != ss:
        fail("shared secret %s (%s)", first(v, ss), "accept" if acc else "reject")
    return acc


def flip(b, i, m=None):
    b = bytearray(b)
    if m is None:
        b[i // 8] ^= 1 << (i % 8)
    else:
        b[i] = m
    return bytes(b)


def unpack(b, cnt):
    o = (ctypes.c_uint16 * cnt)()
    M.pm_unpack(o, b, cnt, D)
    return list(o)


def pack(v):
    o = ctypes.create_string_buffer(len(v) * D // 8)
    M.pm_pack(o, (ctypes.c_uint16 * len(v))(*v), len(v), D)
    return o.raw


def encode(mu):
    o = (ctypes.c_uint16 * 64)()
    M.pm_encode(SET, o, mu)
    return list(o)


EXT = [0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x1FFF, 0x2000, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF]


def toy_gate(k):
    if N == SET:
        return True
    try:
        r, mu = xof(RNDB, "gate"), xof(MUB, "gate mu")
        rnd.feed(r)
        pk, sk = k.kem_keygen()
        rnd.feed(mu)
        ct, ss = k.kem_encaps(pk)
        ok = (bytes(pk), bytes(sk)) == m_keypair(r) and (bytes(ct), bytes(ss)) == m_enc(bytes(pk), mu) and bytes(k.kem_decaps(sk, ct)) == ss
    except Exception as e:
        ok = False
    if not ok:
        note("%s: reduced dimension %d does not agree with the model on an honest run: not used" % (variant, N))
    return ok


# ------------------------------------------------------------------------------------------------
def mode_kem():
    """key generation and encapsulation over enumerated random bytes and public keys"""
    k = make()
    if not toy_gate(k):
        return
    base, mub = xof(RNDB, "kg"), xof(MUB, "mu")
    f = [(0, CB), (CB, 2 * CB), (2 * CB, RNDB)]
    for a in range(27):
        if level == 0 and a not in (0, 13, 26):
            continue
        v = [a % 3, a // 3 % 3, a // 9]
        r = b"".join((b"\0" * (e - s), b"\xff" * (e - s), base[s:e])[v[i]] for i, (s, e) in enumerate(f))
        if mine():
            one_keygen(k, r, "pattern %d", a)
    if level >= 1:
        for i in range(8 * RNDB):
            if level == 1 and i % 8 != (i // 8) % 8:
                continue
            if mine():
                one_keygen(k, flip(base, i), "bit %d", i)
    pk, sk = m_keypair(base)
    for i in range(8 * MUB):
        if level == 0 and i % 64 or level == 1 and i % 8 != (i // 8) % 8:
            continue
        if mine():
            one_enc(k, pk, flip(mub, i), "message bit %d", i)
    for i, mu in enumerate((b"\0" * MUB, b"\xff" * MUB)):
        if mine():
            one_enc(k, pk, mu, "message pattern %d", i)
    if level >= 1:
        for v in EXT:
            if mine():
                one_enc(k, pk[:16] + pack([v] * (N * 8)), mub, "public matrix constant %d", v)
        for i in range(PKB if level >= 2 else min(PKB, 64)):
            if mine():
                one_enc(k, flip(pk, 8 * i + i % 8), mub, "public key byte %d", i)
    if level >= 2 and TH:
        for i in range(MUB):
            for v in range(256):
                if mine():
                    one_enc(k, pk, flip(mub, i, v), "message byte %d=%d", i, v)


def solve(Bp, e):
    """S (8 columns of B' used) with B'*S = e mod 2^D, or None"""
    n = 8
    A = [[Bp[i * N + c] for c in range(n)] + e[8 * i:8 * i + 8] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] & 1), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        inv = pow(A[c][c], -1, q)
        A[c] = [x * inv % q for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                m = A[r][c]
                A[r] = [(x - m * y) % q for x, y in zip(A[r], A[c])]
    return [[A[r][8 + j] for j in range(8)] for r in range(n)]


def mode_dec():
    """decapsulation: accepting, rejecting, borderline errors, arbitrary keys"""
    k = make()
    if not toy_gate(k):
        return
    base, mu = xof(RNDB, "dk"), xof(MUB, "dmu")
    pk, sk = m_keypair(base)
    ct, ss = m_enc(pk, mu)
    if mine():
        one_dec(k, sk, ct, "honest")
    for i in range(8 * CTB):
        full = level >= 2 or level == 1 and i % 8 == (i // 8) % 8
        if full or i in (0, 7, 8 * (CTB - 8 * D) - 1, 8 * CTB - 1):
            if level == 0 and i in (0, 7):
                continue
            if mine():
                one_dec(k, sk, flip(ct, i), "ciphertext bit %d", i)
    if level == 0:
        return
    o = CB + PKB
    for i in range(8 * CB):
        if mine():
            one_dec(k, flip(sk, i), flip(ct, i), "rejection value bit %d", i)
        if mine():
            one_dec(k, flip(sk, 8 * (SKB - CB) + i), ct, "pkh bit %d", i)
    for i in range(CB, SKB - CB):
        if level == 1 and i % 5:
            continue
        if mine():
            one_dec(k, flip(sk, 8 * i + (i % 8)), ct, "secret key byte %d", i)
    for v in EXT:
        if mine():
            one_dec(k, sk[:o] + struct.pack("<H", v) * (N * 8) + sk[SKB - CB:], ct, "S constant %d", v)
        if mine():
            one_dec(k, sk, pack([v % q] * (N * 8 + 64)), "ciphertext constant %d", v)
    # equal differences in two coefficients: must not cancel in the comparison
    cc = unpack(ct, N * 8 + 64)
    zs = sk[:o] + b"\0" * (16 * N) + sk[SKB - CB:]
    # crafted instances: honest re-encryption, chosen accumulated error
    tol = 1 << (D - B - 1)
    tries = 0
    pkb = pk[:16] + pack([0] * (N * 8))
    pkh = base[:CB]
    while True:
        m2 = xof(MUB, "tol %d" % tries)
        c2, kk = ctypes.create_string_buffer(CTB), ctypes.create_string_buffer(CB)
        M.pm_enc_pkh(SET, N, GENM, pkb, pkh, m2, c2, kk)
        c2 = c2.raw
        co = unpack(c2, N * 8 + 64)
        Bp, C = co[:N * 8], co[N * 8:]
        if solve(Bp, [0] * 64) is not None:
            break
        tries += 1
        if tries > 50:
            return note("no invertible block found")
    enc = encode(m2)

    def craft(e):
        S = solve(Bp, [(C[i] - enc[i] - e[i]) % q for i in range(64)])
        ST = [[0] * N for _ in range(8)]
        for r in range(8):
            for j in range(8):
                v = S[r][j]
                ST[j][r] = v
        return sk[:CB] + pkb + b"".join(struct.pack("<%dH" % N, *row) for row in ST) + pkh
    for v in list(range(-tol, tol, max(1, tol // (64 if level == 1 else 512)))):
        e = [(v + i * (2 * tol // 64) + (i & 1) + tol) % (2 * tol) - tol for i in range(64)]
        if mine():
            if one_dec(k, craft(e), c2, "errors rotated by %d", v) == 0:
                note("crafted error was rejected by the model")
    for b in (-tol - 1, -tol, -tol + 1, -1, 1, tol - 1, tol, tol + 1, q // 2, q // 2 - 1, 3 * tol - 1, 3 * tol, -3 * tol, -3 * tol - 1):
        for i in range(64):
            if level == 1 and i % 3 != b % 3:
                continue
            if mine():
                e = [0] * 64
                e[i] = b
                one_dec(k, craft(e), c2, "error %d at %d", b, i)
        if mine():
            one_dec(k, craft([b] * 64), c2, "error %d everywhere", b)


def mode_comp():
    """public component methods, complete domains"""
    k = make(False)
    if level == 0:
        have = lambda *n: n == ("gen",) and callable(getattr(k, "gen", None))
    else:
        have = lambda *n: all(callable(getattr(k, x, None)) for x in n)
    names = have
    z, o = [[0] * 8 for _ in range(8)], xof(MUB, "gate")
    W = [[(977 * i + j) % q for j in range(8)] for i in range(8)]
    flat = [x for r in W for x in r]
    # a component whose plain use differs from the expected interface is left to the API-level modes
    gates = {"sample": lambda: k.sample(2) == M.pm_sample(SET, 2), "decode": lambda: bytes(k.decode(z)) == bytes(MUB),
             "encode": lambda: [x for r in k.encode(o) for x in r] == encode(o),
             "pack": lambda: bytes(k.pack(W)) == pack(flat), "unpack": lambda: k.unpack(pack(flat), 8, 8) == W,
             "gen": lambda: len(mod.FrodoKEM(variant).gen(b"\0" * 16)) == SET}
    bad = set()
    for g, f in gates.items():
        try:
            if names(g) and not f():
                bad.add(g)
        except Exception:
            bad.add(g)
    if bad:
        note("component interface differs, left to the API modes: " + " ".join(sorted(bad)))
    have = lambda *n: names(*n) and not bad & set(n)
    if have("sample"):
        if mine():
            for r in range(65536):
                case("sample(%d)", r)
                ok, v = guard(k.sample, r)
                if not ok:
                    fail("raised %s", v)
                elif v != ctypes.c_int(M.pm_sample(SET, r)).value:
                    fail("is %s, specified %d", v, M.pm_sample(SET, r))
    if have("decode"):
        for v in range(0, q, 64 if level < 2 and D > 15 else 16 if level < 2 else 1):
            if not mine():
                continue
            K = [(v + i * (1 + q // 64)) % q for i in range(64)] if level >= 2 else [(v + (i if D > 15 else i % 16) + (q // 64) * (i if v % 128 else 63 - i)) % q for i in range(64)]
            case("decode(rotation %d)", v)
            ok, r = guard(k.decode, [K[8 * i:8 * i + 8] for i in range(8)])
            o = ctypes.create_string_buffer(MUB)
            M.pm_decode(SET, o, (ctypes.c_uint16 * 64)(*K))
            if not ok:
                fail("raised %s", r)
            elif bytes(r) != o.raw:
                fail("%s", first(r, o.raw))
        half = q >> (B + 1)
        for c in range(1 << B):
            for d in (-1, 0, 1):
                if not mine():
                    continue
                v = ((2 * c + 1) * half + d) % q
                for i in range(64):
                    K = [0] * 64
                    K[i] = v
                    case("decode(%d at %d)", v, i)
                    ok, r = guard(k.decode, [K[8 * i:8 * i + 8] for i in range(8)])
                    o = ctypes.create_string_buffer(MUB)
                    M.pm_decode(SET, o, (ctypes.c_uint16 * 64)(*K))
                    if not ok:
                        fail("raised %s", r)
                    elif bytes(r) != o.raw:
                        fail("%s", first(r, o.raw))
    if have("encode"):
        mu0 = xof(MUB, "enc")
        for i in range(MUB):
            for v in range(256):
                if not mine():
                    continue
                case("encode(byte %d=%d)", i, v)
                mu = flip(mu0, i, v)
                ok, r = guard(k.encode, mu)
                if not ok:
                    fail("raised %s", r)
                elif [x for row in r for x in row] != encode(mu):
                    fail("wrong matrix")
    if have("pack", "unpack"):
        for rows, cols in ((8, 8), (8, 24), (24, 8)):
            n = rows * cols
            for bg in (0, q - 1):
                for i in range(n * D):
                    if level < 2 and n > 64 and i % 7:
                        continue
                    if not mine():
                        continue
                    v = [bg] * n
                    v[i // D] ^= 1 << (i % D)
                    case("pack/unpack %dx%d bit %d of coefficient %d on %d", rows, cols, i % D, i // D, bg)
                    w = pack(v)
                    Mx = [v[cols * r:cols * r + cols] for r in range(rows)]
                    ok, r = guard(k.pack, Mx)
                    if not ok:
                        fail("raised %s", r)
                    elif bytes(r) != w:
                        fail("pack: %s", first(r, w))
                    ok, r = guard(k.unpack, w, rows, cols)
                    if not ok:
                        fail("raised %s", r)
                    elif r != Mx:
                        fail("unpack: wrong matrix")
    if have("gen"):
        for t, seed in enumerate((b"\0" * 16, b"\xff" * 16, xof(16, "A"))):
            if not mine():
                continue
            case("gen(%s) full dimension", seed.hex())
            ok, A = guard(mod.FrodoKEM(variant).gen, seed)
            o = (ctypes.c_uint16 * (SET * SET))()
            M.pm_A(SET, SET, GENM, seed, o)
            if not ok:
                fail("raised %s", A)
            else:
                for i in range(SET):
                    if list(A[i]) != o[i * SET:i * SET + SET]:
                        fail("row %d differs", i)
                        break


def mode_full():
    """full dimension, one history: key generation, encapsulation, decapsulations"""
    k = make(False)
    r, mu = xof(RNDB, "full"), xof(MUB, "full mu")
    if mine():
        one_keygen(k, r, "full")
    pk, sk = m_keypair(r)
    if mine():
        one_enc(k, pk, mu, "full")
    ct, ss = m_enc(pk, mu)
    if mine():
        one_dec(k, sk, ct, "honest")
    pos = [0, 8 * CTB - 1] if level == 0 else [0, 7, 8 * (CTB - 8 * D) - 1, 8 * (CTB - 8 * D), 4 * CTB, 8 * CTB - 1]
    for i in pos:
        if mine():
            one_dec(k, sk, flip(ct, i), "ciphertext bit %d", i)
    if level >= 1:
        for i in range(4):
            r2 = xof(RNDB, "full %d" % i)
            if mine():
                one_keygen(k, r2, "full %d", i)


def mode_len():
    """every wrong length up to twice the right one is refused; empty too"""
    k = make()
    r, mu = xof(RNDB, "len"), xof(MUB, "len mu")
    pk, sk = m_keypair(r)
    ct, ss = m_enc(pk, mu)
    for what, good, f in (("public key", pk, lambda x: k.kem_encaps(x)), ("ciphertext", ct, lambda x: k.kem_decaps(sk, x)), ("secret key", sk, lambda x: k.kem_decaps(x, ct))):
        for n in range(0, 2 * len(good) + 1):
            if n == len(good) or not mine():
                continue
            if level == 0 and n > 64 and abs(n - len(good)) > 128 and n % 97:
                continue
            case("%s of %d bytes instead of %d", what, n, len(good))
            rnd.feed(mu)
            b = (good + good)[:n]
            ok, v = guard(f, b)
            if ok:
                fail("accepted")
            else:
                st["refused"] += 1


def mode_names():
    names = {"", "FrodoKEM", "FrodoKEM-640", "640", "AES", "FrodoKEM-640-AES128", "FrodoKEM-640-SHAKE128", "FrodoKEM-1344", "FrodoKEM-640-", "FrodoKEM--AES", "eFrodoKEM-640-AES", "Unknown variant"}
    for v in VARIANTS:
        for i in range(len(v)):
            names |= {v[:i] + v[i + 1:], v[:i], v[i:] if i else "", v[:i] + v[i].swapcase() + v[i + 1:], v[:i] + " " + v[i:], v[:i] + "0" + v[i + 1:]}
            for d in "0123456789_-":
                names.add(v[:i] + d + v[i + 1:])
        names |= {v.lower(), v.upper(), v + " ", " " + v, v + "\n", v + "X", v.replace("-", "_")}
    for a in ("512", "640", "768", "976", "1024", "1344", "0"):
        for g in ("AES", "SHAKE", "AES256", "SHAKE256", "CSHAKE", ""):
            names.add("FrodoKEM-%s-%s" % (a, g))
    for nm in sorted(names - set(VARIANTS)) + [None, 640]:
        case("variant %r", nm)
        ok, v = guard(mod.FrodoKEM, nm)
        if ok:
            fail("was accepted")
        else:
            st["refused"] += 1
    for nm in VARIANTS:
        case("variant %r", nm)
        ok, v = guard(mod.FrodoKEM, nm)
        if not ok:
            fail("was refused: %s", v)


# ------------------------------------------------------------------------------------------------ C22
class Obj:
    """an object of the implementation with reduced n, and what the model expects of it"""
    def __init__(self, variant, n):
        self.variant, self.n = variant, n
        self.set, self.gen = par(variant)
        self.pkb, self.skb, self.ctb, self.mub, self.rndb, self.cb = (M.pm_size(self.set, n, i) for i in range(6))
        self.k = None

    def make(self):
        self.k = mod.FrodoKEM(self.variant)
        self.k.n = self.n
        self.k.len_sk_bytes, self.k.len_pk_bytes, self.k.len_ct_bytes = self.skb, self.pkb, self.ctb

    def prepare(self):
        """two key pairs with the same public seed, one with another, two messages, and their results"""
        r0 = xof(self.rndb, "h")
        z = xof(16, "h z")
        self.r = [r0[:2 * self.cb] + z, xof(self.rndb, "h2")[:2 * self.cb] + z, xof(self.rndb, "h3")[:2 * self.cb] + xof(16, "h z3")]
        self.mu = [xof(self.mub, "h mu"), xof(self.mub, "h mu2")]
        B = ctypes.create_string_buffer
        self.key, self.enc = [], {}
        for r in self.r:
            pk, sk = B(self.pkb), B(self.skb)
            M.pm_keypair(self.set, self.n, self.gen, r, pk, sk)
            self.key.append((pk.raw, sk.raw))
        for i in range(3):
            for j in range(2):
                ct, ss = B(self.ctb), B(self.cb)
                M.pm_enc(self.set, self.n, self.gen, self.key[i][0], self.mu[j], ct, ss)
                self.enc[i, j] = ct.raw, ss.raw

    def dec(self, sk, ct):
        ss = ctypes.create_string_buffer(self.cb)
        M.pm_dec(self.set, self.n, self.gen, sk, ct, ss)
        return ss.raw


def source(b):
    pos = [0]
    def f(n):
        if pos[0] + n > len(b):
            raise OSError("no random bytes")
        o = b[pos[0]:pos[0] + n]
        pos[0] += n
        return o
    return f


def operations(o):
    """name -> function that runs the operation and returns None or what is wrong"""
    def kg(i):
        def f():
            o.k.randombytes = source(o.r[i])
            pk, sk = o.k.kem_keygen()
            return None if (bytes(pk), bytes(sk)) == o.key[i] else "wrong key pair"
        return f
    def en(i, j):
        def f():
            o.k.randombytes = source(o.mu[j])
            ct, ss = o.k.kem_encaps(o.key[i][0])
            return None if (bytes(ct), bytes(ss)) == o.enc[i, j] else "wrong ciphertext or secret"
        return f
    def de(i, i2, j, bad=None):
        ct = o.enc[i2, j][0]
        if bad is not None:
            ct = flip(ct, bad)
        want = o.dec(o.key[i][1], ct)
        def f():
            o.k.randombytes = source(b"")
            return None if bytes(o.k.kem_decaps(o.key[i][1], ct)) == want else "wrong secret"
        return f
    def wrong(what):
        def f():
            o.k.randombytes = source(o.mu[0])
            try:
                if what == 0:
                    o.k.kem_encaps(o.key[0][0][:-1])
                elif what == 1:
                    o.k.kem_decaps(o.key[0][1], o.enc[0, 0][0] + b"\0")
                else:
                    o.k.kem_decaps(o.key[0][1][:-2], o.enc[0, 0][0])
            except Exception:
                return None
            return "input of the wrong length accepted"
        return f
    def norandom(enc):
        def f():
            o.k.randombytes = source(b"")
            try:
                o.k.kem_encaps(o.key[1][0]) if enc else o.k.kem_keygen()
            except Exception:
                return None
            return "succeeded without random bytes"
        return f
    def loud(g):
        def f():
            o.k.print_intermediate_values = True
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    return g()
            finally:
                o.k.print_intermediate_values = False
        return f
    return {"keygen 1": kg(0), "keygen 2": kg(1), "encaps 1,1": en(0, 0), "encaps 2,1": en(1, 0), "encaps 1,2": en(0, 1), "keygen 3": kg(2), "encaps 3,1": en(2, 0), "decaps 3": de(2, 2, 0),
            "decaps 1": de(0, 0, 0), "decaps 2": de(1, 1, 1), "decaps changed first bit": de(0, 0, 0, 0), "decaps changed last bit": de(0, 0, 0, 8 * o.ctb - 1), "decaps ct of key 2": de(0, 1, 0),
            "encaps wrong length": wrong(0), "decaps wrong length": wrong(1), "decaps short key": wrong(2), "keygen without random bytes": norandom(0), "encaps without random bytes": norandom(1),
            "keygen printing": loud(kg(0)), "encaps printing": loud(en(0, 0)), "decaps printing": loud(de(0, 0, 0))}


def gate_obj(o):
    """reduced dimension usable: every operation is right as the first one of a fresh process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        bad = ""
        try:
            o.make()
            for nm in ("keygen 1", "encaps 1,1", "decaps 1", "decaps changed first bit"):
                e = operations(o)[nm]()
                bad = bad or (e and nm + ": " + e) or ""
        except Exception as e:
            bad = "%s: %s" % (type(e).__name__, e)
        os.write(w, bad.encode()[:500] or b"ok")
        os._exit(0)
    os.close(w)
    os.waitpid(pid, 0)
    b = os.read(r, 1000).decode(errors="replace")
    os.close(r)
    if b != "ok":
        note("%s n=%d: reduced dimension not used: %s" % (o.variant, o.n, b))
    return b == "ok"


def isolated(f):
    """runs f in a child process; returns its (cases, failure text or None)"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        c0 = st["cases"], st["calls"]
        try:
            bad = f()
        except BaseException as e:
            bad = "%s :: raised %s: %s" % (case_text, type(e).__name__, e)
        os.write(w, json.dumps([st["cases"] - c0[0], st["calls"] - c0[1], bad]).encode()[:60000])
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    os.waitpid(pid, 0)
    try:
        c, k, bad = json.loads(data)
    except ValueError:
        c, k, bad = 0, 0, case_text + " :: process died"
    st["cases"] += c
    st["calls"] += k
    st["cmps"] += k
    return bad


def mode_hist():
    """all sequences of operations on up to two objects; VARIANT is "v1+v2": the second object has variant v2 """
    va, vb = variant.split("+")
    objs = [Obj(va, 8), Obj(vb, 8 if par(va)[0] == par(vb)[0] or par(vb)[0] == 640 else 16)]
    for o in objs:
        o.prepare()
    if not all([gate_obj(o) for o in objs]):
        return
    alpha = []
    for x, o in enumerate(objs):
        ops = operations(o)
        for nm in ops:
            if x == 1 and nm in ("keygen 3", "encaps 3,1", "encaps 1,2", "decaps 2", "decaps short key", "encaps printing", "decaps printing", "decaps ct of key 2", "encaps without random bytes", "decaps changed first bit"):
                continue
            alpha.append(("object %d: %s" % (x + 1, nm), ops[nm]))
        alpha.append(("object %d made anew" % (x + 1), o.make))
    depth = 3 if level >= 1 else 2

    def node(prefix):
        def f():
            for nm, op in alpha:
                if not prefix and not mine():
                    continue
                def g():
                    case("history: %s", "; ".join(prefix + [nm]))
                    st["calls"] += 1
                    bad = op()
                    if bad:
                        return "%s :: %s" % (case_text, bad)
                    if len(prefix) + 1 < depth:
                        return node(prefix + [nm])()
                if len(prefix) + 1 < depth:
                    bad = isolated(g)
                else:
                    # leaves: one process for all of them is a longer history still; a failure is confirmed alone
                    bad = g()
                    if bad:
                        alone = isolated(g)
                        if alone:
                            bad = alone
                if bad:
                    return bad
        return f
    objs[0].make()
    objs[1].make()
    # leaves run in children of their parent node, so every prefix starts from its own process image
    bad = node([])()
    if bad:
        global case_text
        case_text, _, why = bad.partition(" :: ")
        fail("%s", why)


def mode_inter():
    """operation a is interrupted, at each call of a function and each line of an operation, by the whole of operation b on the same or another object;
    and at each line of every function, by all three operations in a row"""
    va, vb = variant.split("+")
    oa, ob = Obj(va, 8), Obj(vb, 8)
    for o in (oa, ob):
        o.prepare()
    if not (gate_obj(oa) and gate_obj(ob)):
        return
    oa.make()
    ob.make()
    cold = level >= 10                             # every interrupted run in a process of its own, before anything else has run
    if level % 10 in (0, 2):
        ob.k = oa.k if va == vb else ob.k          # the same object used by two threads
    A, Bo = operations(oa), operations(ob)
    an = ("keygen 1", "encaps 1,1", "decaps 1", "decaps changed last bit")
    bn = ("keygen 2", "encaps 2,1", "decaps 2")
    here = mod.__file__

    def run(f, *a):
        """f(*a), for cold runs in a child process"""
        if not cold:
            return f(*a)
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                v = [0, f(*a)]
            except BaseException as e:
                v = [1, "%s: %s" % (type(e).__name__, e)]
            with os.fdopen(w, "wb") as o:
                o.write(json.dumps(v).encode())
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as i:
            data = i.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("process died")
        e, v = json.loads(data)
        if e:
            raise RuntimeError(v)
        return v

    def points(op, stop=None, do=None):
        """runs op; counts scheduling points; runs `do` at point number `stop`"""
        cnt = [0]
        bad = [None]

        def hit():
            cnt[0] += 1
            if cnt[0] - 1 == stop:
                sys.settrace(None)
                saved = oa.k.randombytes
                bad[0] = do()
                oa.k.randombytes = saved
                sys.settrace(tr)

        def local(frame, ev, arg):
            if ev == "line":
                hit()
            return local

        def tr(frame, ev, arg):
            if frame.f_code.co_filename != here or frame.f_code.co_name in ("<lambda>",):
                return None
            hit()
            return local if frame.f_code.co_name.startswith("kem_") else None
        sys.settrace(tr)
        try:
            r = op()
        finally:
            sys.settrace(None)
        return cnt[0], r, bad[0]
    def calls():
        for a in an:
            n, r, _ = run(points, A[a])
            if r:
                case("%s alone, traced", a)
                fail("%s", r)
            step = n // (6000 if TH else 200 if cold else 1200) + 1
            for b in bn:
                for p in range(0, n, step):
                    if not mine():
                        continue
                    case("%s of %s interrupted at point %d of %d by %s of %s", a, va, p, n, b, "the same object" if ob.k is oa.k else vb)
                    st["calls"] += 2
                    st["cmps"] += 2
                    try:
                        _, r, rb = run(points, A[a], p, Bo[b])
                    except Exception as e:
                        fail("raised %s: %s", type(e).__name__, e)
                        continue
                    if r:
                        fail("interrupted operation: %s", r)
                    if rb:
                        fail("interrupting operation: %s", rb)

    def lines():
        """line points: of every function, in its first and last activation (thorough: also a middle one), the first, middle and last time each line is reached"""
        def every(op, stop=None, do=None):
            seq, act, bad = [], {}, [None]
            n = [0]

            def local(frame, ev, arg):
                if ev == "line":
                    if stop is None:
                        seq.append(("%s:%d" % (frame.f_code.co_name, frame.f_code.co_firstlineno), act[frame.f_code], frame.f_lineno))
                    elif n[0] == stop:
                        sys.settrace(None)
                        saved = oa.k.randombytes
                        bad[0] = do()
                        oa.k.randombytes = saved
                    n[0] += 1
                return local

            def tr(frame, ev, arg):
                if frame.f_code.co_filename != here:
                    return None
                act[frame.f_code] = act.get(frame.f_code, 0) + 1
                return local
            sys.settrace(tr)
            try:
                r = op()
            finally:
                sys.settrace(None)
            return seq, r, bad[0]

        def all3():
            for b in bn:
                r = Bo[b]()
                if r:
                    return b + ": " + str(r)
        for a in an[:3]:
            seq, r, _ = run(every, A[a])
            if r:
                case("%s alone, traced", a)
                fail("%s", r)
            tot = {}
            for c, k, l in seq:
                tot[c] = max(tot.get(c, 0), k)
            occ = {}
            for i, (c, k, l) in enumerate(seq):
                if k in (1, tot[c]) or (TH and k == tot[c] // 2):
                    occ.setdefault((c, k, l), []).append(i)
            pts = sorted({x for v in occ.values() for x in ((v[0], v[1 % len(v)], v[len(v) // 2], v[-1]) if TH else (v[0], v[len(v) // 2], v[-1]))})
            for p in pts:
                if not mine():
                    continue
                c, k, l = seq[p]
                case("%s of %s interrupted in activation %d of %s, line %d (line event %d of %d) by key generation, encapsulation and decapsulation of %s" + (", nothing run before" if cold else ""), a, va, k, c, l, p, len(seq), "the same object" if ob.k is oa.k else vb)
                st["calls"] += 4
                st["cmps"] += 4
                try:
                    _, r, rb = run(every, A[a], p, all3)
                except Exception as e:
                    fail("raised %s: %s", type(e).__name__, e)
                    continue
                if r:
                    fail("interrupted operation: %s", r)
                if rb:
                    fail("interrupting operation: %s", rb)

    if level % 10 < 2:
        calls()
    else:
        lines()


def mode_near():
    """op(x), op(x'), op(x) for every single-byte change x' of public key, secret key and ciphertext, on one object"""
    o = Obj(variant, 8)
    o.prepare()
    if not gate_obj(o):
        return
    o.make()
    pk, sk = o.key[0]
    ct, ss = o.enc[0, 0]
    B = ctypes.create_string_buffer

    def enc(p, what):
        c, k = B(o.ctb), B(o.cb)
        M.pm_enc(o.set, o.n, o.gen, p, o.mu[0], c, k)
        case("encaps %s", what)
        st["calls"] += 1
        st["cmps"] += 1
        o.k.randombytes = source(o.mu[0])
        ok, v = guard(o.k.kem_encaps, p)
        if not ok or (bytes(v[0]), bytes(v[1])) != (c.raw, k.raw):
            fail("%s", "wrong ciphertext or secret" if ok else v)

    def dec(s_, c_, what):
        case("decaps %s", what)
        st["calls"] += 1
        st["cmps"] += 1
        want = o.dec(s_, c_)
        o.k.randombytes = source(b"")
        ok, v = guard(o.k.kem_decaps, s_, c_)
        if not ok or bytes(v) != want:
            fail("%s", "wrong secret" if ok else v)
    enc(pk, "first")
    dec(sk, ct, "first")
    for i in range(o.pkb):
        if mine():
            enc(pk[:i] + bytes([pk[i] ^ 1 << i % 8]) + pk[i + 1:], "pk with byte %d changed, after the unchanged one" % i)
            enc(pk, "unchanged, after pk with byte %d changed" % i)
    for i in range(o.skb):
        if mine():
            dec(sk[:i] + bytes([sk[i] ^ 1 << i % 8]) + sk[i + 1:], ct, "sk with byte %d changed, after the unchanged one" % i)
            dec(sk, ct, "unchanged, after sk with byte %d changed" % i)
    for i in range(o.ctb):
        if mine():
            dec(sk, ct[:i] + bytes([ct[i] ^ 1 << i % 8]) + ct[i + 1:], "ct with byte %d changed, after the unchanged one" % i)
            dec(sk, ct, "unchanged, after ct with byte %d changed" % i)
    for i in (0, 1, 15):           # changes that compensate each other in a sum or an exclusive or
        for j in range(16, o.pkb, 7):
            if mine():
                x = bytearray(pk)
                x[i], x[j] = x[j], x[i]
                enc(bytes(x), "pk with bytes %d and %d exchanged" % (i, j))
                enc(pk, "unchanged, after pk with bytes %d and %d exchanged" % (i, j))


# ------------------------------------------------------------------------------------------------ C23
def mode_rand():
    """the built-in random source"""
    out, total = bytearray(), 0
    def get(k, n):
        nonlocal total
        Sys.on = True
        try:
            o = bytes(k.randombytes(n))
        finally:
            Sys.on = False
        st["calls"] += 1
        total += len(o)
        if len(o) != n:
            fail("returned %d bytes", len(o))
        if Sys.calls and Sys.drawn < total:
            fail("%d bytes delivered, but only %d drawn from the system", total, Sys.drawn)
        return o
    k = mod.FrodoKEM(variant)
    k2 = mod.FrodoKEM(variant)
    get(k, 16)
    get(k2, 48)
    if not Sys.calls:
        # another way to the system: at least it must not be a seeded generator
        case("randombytes(32) twice from the same state of the pseudorandom module")
        s = random.getstate()
        a = k.randombytes(32)
        random.setstate(s)
        b = k.randombytes(32)
        if a == b:
            fail("the bytes come from a seeded pseudorandom generator")
        else:
            note("the built-in random source does not use a system function that can be scripted: only lengths, freshness and distribution checked")
    # one long history over two objects: every size, the operations' sizes in all short patterns, and many in a row
    if mine():
        hist = [(k, n) for n in range(300) for _ in range(2)] + [(k, 1024), (k2, 4096), (k, 65536), (k2, 65536), (k, 65535)]
        hist += [((k, k2)[o >> i & 1], (RNDB, MUB, 1, 7)[z >> 2 * i & 3]) for o in range(16) for z in range(256) for i in range(4)]
        hist += [((k, k2)[i % 3 == 0], (RNDB, MUB)[i & 1]) for i in range(6000)]
        for i, (x, n) in enumerate(hist):
            case("request %d of the history, %d bytes", i, n)
            out += get(x, n)
        w = {}
        for i in range(len(out) - 8):
            x = bytes(out[i:i + 8])
            if x in w:
                case("history of %d requests", len(hist))
                fail("bytes %d.. of the delivered stream repeat bytes %d..", i, w[x])
                break
            w[x] = i
    if mine():
        case("value of single bytes, 65536 requests")
        cnt = [0] * 256
        for x in range(65536):
            cnt[get(k, 1)[0]] += 1
        for v, c in enumerate(cnt):
            if not 128 <= c <= 384:
                fail("value %d comes %d times instead of about 256", v, c)
                break
    for n in sorted({RNDB, MUB, 16}):
        if not mine():
            continue
        case("randombytes(%d): every position takes every value, every bit half the time", n)
        seen = [set() for _ in range(n)]
        bits = [[0] * n for _ in range(8)]
        outs = set()
        for x in range(8192):
            o = get(k, n)
            outs.add(o)
            for i, v in enumerate(o):
                seen[i].add(v)
                for j in range(8):
                    bits[j][i] += v >> j & 1
        for i in range(n):
            if len(seen[i]) != 256:
                fail("position %d takes only %d values", i, len(seen[i]))
                break
            if any(not 3696 <= bits[j][i] <= 4496 for j in range(8)):
                fail("position %d has a bit that is set %s times of 8192", i, [bits[j][i] for j in range(8)])
                break
        if len(outs) != 8192:
            fail("two requests give the same bytes")
    # processes: what is delivered after a fork is never the same in the parent and the child, nor in two children
    if mine() and hasattr(os, "fork"):
        for n in (1, RNDB, MUB, 16):
            x = mod.FrodoKEM(variant)
            x.randombytes(n)
            l = []
            for c in range(3):
                r, wr = os.pipe()
                pid = os.fork()
                if not pid:
                    try:
                        os.write(wr, bytes(x.randombytes(64)))
                    finally:
                        os._exit(0)
                os.close(wr)
                l.append(os.read(r, 64))
                os.close(r)
                os.waitpid(pid, 0)
                if c:
                    l.append(bytes(x.randombytes(64)))
            case("after randombytes(%d), three forked children and the parent", n)
            w = [y[i:i + 8] for y in l for i in range(0, 64, 8)]
            if len(set(w)) != len(w):
                fail("the same bytes in two processes")
    if not mine():
        return
    # the operations ask for exactly the specified amounts, from the built-in source of each object
    k.n = 8
    k.len_sk_bytes, k.len_pk_bytes, k.len_ct_bytes = (M.pm_size(SET, 8, i) for i in (1, 0, 2))
    log = []
    g = k.randombytes
    def spy(n):
        o = g(n)
        log.append(bytes(o))
        return o
    k.randombytes = spy
    try:
        case("operations with the built-in source")
        pk, sk = k.kem_keygen()
        ct, ss = k.kem_encaps(pk)
        s2 = k.kem_decaps(sk, ct)
    except Exception as e:
        return note("reduced dimension not usable: %s" % e)
    B_ = ctypes.create_string_buffer
    b1, b2, b3, b4 = B_(len(pk)), B_(len(sk)), B_(len(ct)), B_(len(ss))
    if sum(map(len, log)) != RNDB + MUB:
        fail("drew %s bytes", [len(x) for x in log])
    else:
        r = b"".join(log)
        M.pm_keypair(SET, 8, GENM, r[:RNDB], b1, b2)
        M.pm_enc(SET, 8, GENM, b1.raw, r[RNDB:], b3, b4)
        if (pk, sk, ct, ss) != (b1.raw, b2.raw, b3.raw, b4.raw) or s2 != ss:
            fail("result is not that of the drawn bytes")


class Drbg:
    """CTR_DRBG with AES-256 without derivation function (SP 800-90A), as the NIST known-answer programs use it"""
    def __init__(self, seed):
        self.K, self.V = b"\0" * 32, 0
        self.update(seed)

    def block(self):
        self.V = (self.V + 1) % (1 << 128)
        o = ctypes.create_string_buffer(16)
        M.pm_aes256(self.K, self.V.to_bytes(16, "big"), o)
        return o.raw

    def update(self, data):
        t = b"".join(self.block() for _ in range(3))
        t = bytes(a ^ b for a, b in zip(t, data))
        self.K, self.V = t[:32], int.from_bytes(t[32:], "big")

    def get(self, n):
        o = b"".join(self.block() for _ in range((n + 15) // 16))[:n]
        self.update(b"\0" * 48)
        return o


def mode_kat():
    """the known-answer program, on every variant, alone and after others"""
    p = os.path.join(repo, "python3", "nist_kat.py")
    if not os.path.exists(p):
        return note("nist_kat.py is gone: skipped")
    sys.modules["frodokem"] = mod
    sp = importlib.util.spec_from_file_location("nist_kat", p)
    kat = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(kat)
    d = Drbg(bytes(range(48)))
    seed0 = d.get(48)                       # the first entry of the request file
    def expect(v, n):
        s, g = par(v)
        sz = [M.pm_size(s, n, i) for i in range(6)]
        e = Drbg(seed0)
        r, mu = e.get(sz[4]), e.get(sz[3])
        pk, sk, ct, ss = (ctypes.create_string_buffer(x) for x in (sz[0], sz[1], sz[2], sz[5]))
        M.pm_keypair(s, n, g, r, pk, sk)
        M.pm_enc(s, n, g, pk.raw, mu, ct, ss)
        return dict(pk=pk.raw, sk=sk.raw, ct=ct.raw, ss=ss.raw)
    def run(v, n):
        k = mod.FrodoKEM(v)
        s, g = par(v)
        if n != s:
            k.n = n
            k.len_sk_bytes, k.len_pk_bytes, k.len_ct_bytes = (M.pm_size(s, n, i) for i in (1, 0, 2))
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            kat.NISTKAT.run(k)
        st["calls"] += 3
        got = {}
        for l in out.getvalue().splitlines():
            a, eq, b = l.partition(" = ")
            if eq and a.strip() in ("pk", "sk", "ct", "ss"):
                got[a.strip()] = b.strip().lower()
        return got, v in out.getvalue()
    if not hasattr(kat, "NISTKAT") or not hasattr(kat.NISTKAT, "run"):
        return note("nist_kat.py has no NISTKAT.run: skipped")
    for a in VARIANTS:
        for b in VARIANTS:
            if not mine():
                continue
            for v in (a, b):
                case("known-answer run of %s (sequence %s, %s), n=8", v, a, b)
                ok, r = guard(run, v, 8)
                if not ok:
                    fail("raised %s", r)
                    continue
                got, named = r
                want = expect(v, 8)
                for x in want:
                    if got.get(x) != want[x].hex():
                        fail("printed %s is not the specified one", x)
                if not named:
                    fail("the output does not name the variant")
    if mine() and level >= 1:
        for v in VARIANTS[:2] if level == 1 else VARIANTS:
            case("known-answer run of %s, full dimension", v)
            ok, r = guard(run, v, par(v)[0])
            if not ok:
                fail("raised %s", r)
                continue
            want = expect(v, par(v)[0])
            for x in want:
                if r[0].get(x) != want[x].hex():
                    fail("printed %s is not the specified one", x)


globals()["mode_" + mode]()
st["samples"].append("%s %s n=%d level=%d: %d cases, last: %s" % (mode, variant, N, level, st["cases"], case_text))
done()
