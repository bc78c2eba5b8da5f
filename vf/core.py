"""Builds the code under test from /repo's working tree and runs enumeration jobs on it."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, threading, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CDIR = os.path.join(VERIF, "c")
JOBS = os.cpu_count() or 4
SETS = (640, 976, 1344)
ENV = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", CCACHE_DISABLE="1")
for v in ("MAKEFLAGS", "MAKEFILES", "CFLAGS", "LDFLAGS", "CC"):
    ENV.pop(v, None)

GEN = {  # name -> (model generator, make variables)
    "AESO": (0, ["GENERATION_A=AES128"]),
    "AESS": (0, ["GENERATION_A=AES128", "USE_OPENSSL=FALSE"]),
    "SHAKE": (1, ["GENERATION_A=SHAKE128"]),
}
OPT = ["REFERENCE", "FAST_GENERIC", "FAST"]


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=600, env=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=env or ENV, errors="replace")
    return r.returncode, r.stdout


def must(cmd, cwd=None, timeout=600):
    rc, out = sh(cmd, cwd, timeout)
    if rc:
        raise BuildError("%s\n%s" % (" ".join(cmd), out[-4000:]))
    return out


class Cfg:
    """One build configuration of the library."""
    def __init__(self, gen, opt, cc="/usr/bin/gcc", cflags="-O3", extra=(), toy=None, tag="", sets=SETS, keep_rand=False,
                 ldflags=(), hide=()):
        self.gen, self.opt, self.cc, self.cflags, self.extra, self.toy = gen, opt, cc, cflags, list(extra), toy
        self.sets, self.keep_rand, self.ldflags, self.hide = tuple(sets), keep_rand, list(ldflags), tuple(hide)
        self.tag = tag
        self.so = {}
        self.note = None

    @property
    def name(self):
        return "-".join(x for x in (self.gen, self.opt, self.tag, "toy%d" % self.toy if self.toy else "") if x)

    @property
    def mgen(self):
        return GEN[self.gen][0]

    def n(self, s):
        return self.toy or s


def patch_toy(src, n, sets):
    """Reduces the lattice dimension of the real code. Returns False when the sources no longer have that shape."""
    for s in sets:
        D = 15 if s == 640 else 16
        cb = {640: 16, 976: 24, 1344: 32}[s]
        pk = 16 + D * n
        vals = {"CRYPTO_PUBLICKEYBYTES": pk, "CRYPTO_SECRETKEYBYTES": cb + pk + 16 * n + cb,
                "CRYPTO_CIPHERTEXTBYTES": D * n + D * 8}
        hp, cp = os.path.join(src, "api_frodo%d.h" % s), os.path.join(src, "frodo%d.c" % s)
        if not (os.path.exists(hp) and os.path.exists(cp)):
            return False
        t = open(hp).read()
        for k, v in vals.items():
            t, c = re.subn(r"(#define\s+%s\s+)\d+" % k, r"\g<1>%d" % v, t)
            if c != 1:
                return False
        open(hp, "w").write(t)
        t = open(cp).read()
        t, c = re.subn(r"(#define\s+PARAMS_N\s+)%d\b" % s, r"\g<1>%d" % n, t)
        if c != 1:
            return False
        open(cp, "w").write(t)
    return True


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.out = os.path.join(VERIF, "out", pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.lock = threading.Lock()
        self.notes, self.fails, self.samples = [], [], []
        self.counters = {}
        self.gates = {}
        self.stop = False
        self.t0 = time.time()
        # the enumeration stops at `soft` (what is left is reported as not covered), confirmations at `hard`
        self.soft = self.t0 + (9000 if tier == "thorough" else 600)
        self.hard = self.t0 + (12000 if tier == "thorough" else 800)
        self.stuck = 300 if tier == "thorough" else 100      # seconds without any progress that count as a hang

    thorough = property(lambda self: self.tier == "thorough")

    def note(self, s):
        with self.lock:
            if s not in self.notes:
                self.notes.append(s)
                print("note:", s, flush=True)

    def log(self, *a):
        print("[%6.1f]" % (time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building
    def build_cfg(self, cfg):
        d = os.path.join(self.out, "b-" + cfg.name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if cfg.toy:
            shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"))
            if not patch_toy(os.path.join(d, "src"), cfg.toy, SETS):
                cfg.note = "the sources no longer allow a reduced dimension: toy instance skipped"
                return cfg
        else:
            os.symlink(os.path.join(REPO, "src"), os.path.join(d, "src"))
        os.symlink(os.path.join(REPO, "tests"), os.path.join(d, "tests"))
        os.symlink(os.path.join(REPO, "Makefile"), os.path.join(d, "Makefile"))
        cmd = ["make", "-j3"] + ["lib%d" % s for s in cfg.sets] + [
            "CC=" + cfg.cc, "EXTRA_CFLAGS=%s -fPIC" % cfg.cflags, "OPT_LEVEL=" + cfg.opt] + GEN[cfg.gen][1] + cfg.extra
        rc, out = sh(cmd, d)
        if rc:
            if cfg.toy or cfg.tag:      # only the documented builds have to work
                cfg.note = "does not compile, skipped (%s)" % out[-200:].replace("\n", " ")
                return cfg
            raise BuildError("%s\n%s" % (" ".join(cmd), out[-4000:]))
        for s in cfg.sets:
            ld = os.path.join(d, "ld%d" % s)
            os.makedirs(ld)
            must(["ar", "x", os.path.join(d, "frodo%d" % s, "libfrodo.a")], ld)
            objs = sorted(os.path.join(ld, f) for f in os.listdir(ld))
            if not cfg.keep_rand:
                objs = [o for o in objs if not defines(o, "randombytes")]
            so = os.path.join(d, "frodo%d.so" % s)
            cc = "clang-18" if "clang" in cfg.cc else "/usr/bin/gcc"
            must([cc, "-shared", "-o", so] + cfg.ldflags + objs + ["-lcrypto", "-lm"], d)
            cfg.so[s] = so
        return cfg

    def build(self, cfgs):
        """Builds configurations in parallel; returns those usable."""
        gates, seen = [], set()
        for c in cfgs:
            k = (c.gen, c.opt, c.toy, tuple(c.extra))
            if c.toy and k not in seen and k not in self.gates:
                seen.add(k)
                gates += [Cfg(c.gen, c.opt, toy=c.toy, extra=c.extra, tag="gate"),
                          Cfg(c.gen, c.opt, toy=c.toy, extra=c.extra, tag="gateasan", cc="clang-18", cflags="-O1 -fsanitize=address -fno-omit-frame-pointer",
                              ldflags=["-fsanitize=address", "-shared-libasan"])]
        for i, g in enumerate(gates):
            g.tag += str(i)
        with cf.ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
            done = list(ex.map(self.build_cfg, list(cfgs) + gates))
        done, gates = done[:len(cfgs)], done[len(cfgs):]
        if gates:
            self.gate(gates)
        ok = []
        for c in done:
            if c.note:
                self.note("%s: %s" % (c.name, c.note))
            if c.toy and c.so and self.gates.get((c.gen, c.opt, c.toy, tuple(c.extra))):
                self.note("%s: reduced instance not used: %s" % (c.name, self.gates[(c.gen, c.opt, c.toy, tuple(c.extra))]))
            elif c.so:
                ok.append(c)
        if not ok:
            raise BuildError("no usable build")
        return ok

    def gate(self, gates):
        """A reduced instance counts only if honest runs on it agree with the model and are free of memory errors."""
        hs = self.harness("h_gate", ["h_kem.c", "h.c", "model.c"])
        ha, env = self.asan_harness("h_gate_asan", ["h_kem.c", "h.c", "model.c"])

        def one(a):
            g, s = a
            asan = "asan" in g.tag
            r = self.run_job(dict(name="gate-%s-%d" % (g.name, s), env=env if asan else {}, timeout=60,
                                  cmd=[ha if asan else hs, "gate", g.so[s], str(s), str(g.n(s)), str(g.mgen), "0"]))
            bad = r["fails"][:1] or [n for n in r["done"].get("notes", []) if "not match" in n][:1]
            return g, bad
        work = []
        for g in gates:
            k = (g.gen, g.opt, g.toy, tuple(g.extra))
            self.gates.setdefault(k, "")
            if not g.so:
                self.gates[k] = g.note or "does not build"
            work += [(g, s) for s in g.so]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for g, bad in ex.map(one, work):
                if bad:
                    self.gates[(g.gen, g.opt, g.toy, tuple(g.extra))] = bad[0][-200:]

    def asan_harness(self, name, sources):
        C = "clang-18"
        h = self.harness(name, sources, flags=["-fsanitize=address", "-shared-libasan"], cc=C, opt="-O1")
        rc, rt = sh([C, "-print-file-name=libclang_rt.asan-x86_64.so"])
        if not os.path.exists(rt.strip()):
            rc, rt = sh([C, "-print-file-name=libclang_rt.asan.so"])
        return h, {"LD_LIBRARY_PATH": os.path.dirname(rt.strip()), "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1"}

    def harness(self, name, sources, flags=(), libs=("-ldl", "-lm", "-lpthread"), cc="/usr/bin/gcc", opt="-O3"):
        out = os.path.join(self.out, name)
        must([cc, opt, "-mavx2", "-std=gnu11", "-Wall", "-rdynamic", "-I", CDIR, "-o", out]
             + list(flags) + [os.path.join(CDIR, s) if not s.startswith("/") else s for s in sources] + list(libs))
        return out

    # ---------------------------------------------------------------- running
    def run_job(self, job, limit=None):
        """job: dict(cmd=[...], name=str, env={}, timeout=s (optional bound)). The process is ended when it makes no
        progress for self.stuck seconds (a failure) or when the time for the whole check is over (not a failure)."""
        limit = limit or self.soft
        if time.time() > limit - 5:
            return dict(name=job["name"], fails=[], done={}, wall=0, rc="late", late=True, err="")
        base = os.path.join(self.out, "run-%s-%d-%d" % (re.sub(r"[^A-Za-z0-9_.-]", "_", job["name"])[:80], id(job), time.time_ns()))
        casef = base + ".case"
        with open(casef, "wb") as f:
            f.truncate(4096)
        env = dict(ENV, CASEFILE=casef, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, **job.get("env", {}))
        t = time.time()
        late = stuck = False
        with open(base + ".out", "w+b") as fo, open(base + ".err", "w+b") as fe:
            p = subprocess.Popen(job["cmd"], stdout=fo, stderr=fe, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
            last, lastt, wait = None, time.time(), 0.02
            while True:
                try:
                    p.wait(wait)
                    break
                except subprocess.TimeoutExpired:
                    wait = min(2, wait * 2)
                now = time.time()
                c = open(casef, "rb").read()
                if c != last:
                    last, lastt = c, now
                stuck = now - lastt > job.get("stuck", min(self.stuck, job.get("timeout", self.stuck)))
                late = now > limit
                if stuck or late:
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
            try:
                os.killpg(p.pid, 9)
            except (ProcessLookupError, PermissionError):
                pass
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read(1 << 26).decode(errors="replace"), fe.read(1 << 20).decode(errors="replace")
        rc = "no progress for %ds" % job.get("stuck", self.stuck) if stuck else "late" if late else p.returncode
        fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
        hits = [l[4:] for l in out.splitlines() if l.startswith("HIT ")]
        done = None
        for l in out.splitlines():
            if l.startswith("DONE "):
                try:
                    done = json.loads(l[5:])
                except ValueError:
                    pass
        if done is None and not fails and not (late and not stuck):
            case = open(casef, "rb").read()[:4000].split(b"\0")[0].decode(errors="replace")
            what = "does not come back" if stuck else "died"
            fails.append("%s :: process %s (%s) %s" % (case or "(start)", what, rc, err.strip()[-300:].replace("\n", " | ")))
        for e in (".case", ".out", ".err"):
            os.unlink(base + e)
        return dict(name=job["name"], fails=fails, hits=hits, done=done or {}, wall=time.time() - t, rc=rc, err=err[-2000:], late=late and done is None)

    def work(self, job):
        if self.stop:
            return dict(name=job["name"], fails=[], done={}, wall=0, rc="stopped", late=True, err="", job=job)
        r = self.run_job(job)
        r["job"] = job
        if r["fails"]:
            self.confirm(r)
        return r

    def run(self, jobs, workers=None):
        """Runs all jobs, most expensive first as given. Confirms every failure by running the job again."""
        with cf.ThreadPoolExecutor(workers or JOBS) as ex:
            res = list(ex.map(self.work, jobs))
        if os.environ.get("VERIF_VERBOSE"):
            agg = {}
            for r in res:
                k = r["name"].rsplit("/", 1)[0]
                a = agg.setdefault(k, [0, 0]); a[0] += r["wall"]; a[1] += r["done"].get("cases", 0)
            for k, a in sorted(agg.items(), key=lambda x: -x[1][0])[:25]:
                print("   %-40s %8.1f cpu-s %9d cases" % (k, *a))
            print("   longest job %.1f s" % max([r["wall"] for r in res] or [0]))
        self.counters["jobs"] = self.counters.get("jobs", 0) + sum(1 for r in res if r["done"])
        late = [r["name"] for r in res if r.get("late")]
        if late and not self.stop:
            self.note("out of time: %d of %d jobs not finished, first %s" % (len(late), len(res), late[0]))
        for r in res:
            for k, v in r["done"].items():
                if isinstance(v, int):
                    self.counters[k] = self.counters.get(k, 0) + v
                elif k == "samples":
                    if len(self.samples) < 12:
                        self.samples += v[:2]
                elif k == "notes":
                    for n in v:
                        self.note(n)
        return res

    def confirm(self, r):
        with self.lock:
            if len(self.fails) >= 3:
                return
        again = self.run_job(r["job"], self.hard)
        if not again["fails"] and not again["late"]:
            again = self.run_job(r["job"], self.hard)
        known = load_known(self.pid)
        with self.lock:
            if again["fails"]:
                for f in again["fails"][:3]:
                    self.fails.append(dict(job=r["name"], what=f, cmd=r["job"]["cmd"], env=r["job"].get("env", {})))
                    if not any(e in f for e in known):
                        self.stop = True       # decided: the rest need not run
                return
        self.note("unconfirmed, not reported: %s: %s" % (r["name"], r["fails"][0]))

    # ---------------------------------------------------------------- finishing
    def finish(self, level, coverage, assumptions=()):
        known = load_known(self.pid)
        new = []
        for f in self.fails:
            k = [e for e in known if e in f["what"]]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
            else:
                new.append(f)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=coverage,
                  assumptions=list(assumptions) + ["note: " + n for n in self.notes],
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("coverage:", json.dumps({k: v for k, v in coverage.items() if k != "samples"}), flush=True)
        if new:
            rp = os.path.join(VERIF, "out", "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, failures=new), f, indent=1)
            for f in new:
                print("failing case: %s: %s" % (f["job"], f["what"]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp), flush=True)
            return 1
        shutil.rmtree(self.out, ignore_errors=True)
        print("OK %s %.1fs" % (self.pid, time.time() - self.t0), flush=True)
        return 0


def defines(obj, sym):
    rc, out = sh(["nm", obj])
    return any(re.match(r"^[0-9a-f]+ [A-TV-Z] %s$" % sym, l) for l in out.splitlines())


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res.append(m.group(2))
    return res
