#!/usr/bin/env python3
"""S07: the real program, run whole under a simulated kernel edge (shim.c).

    prog.py check <quick|thorough> <seed>
    prog.py replay <file>
"""
import ctypes, hashlib, json, mmap, multiprocessing, os, random, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
OUT_CAP = 1 << 20
MAX_FAULTS = 256
SHORT, ERRNO, ZERO, KILL_BEFORE, KILL_AFTER, NULL, KILL_ALLOC, SHORT_KILL, DELAY, NOTHREAD = range(1, 11)
KIND = {SHORT: "short_write", ERRNO: "write_error", ZERO: "write_of_zero", KILL_BEFORE: "kill_before_write",
        KILL_AFTER: "kill_after_write", NULL: "allocation_refused", KILL_ALLOC: "kill_at_allocation",
        SHORT_KILL: "kill_inside_write", DELAY: "delayed_write", NOTHREAD: "thread_refused"}
EINTR, EAGAIN = 4, 11
HARD = {32: "EPIPE", 28: "ENOSPC", 5: "EIO", 22: "EINVAL", 27: "EFBIG", 122: "EDQUOT", 104: "ECONNRESET", 6: "ENXIO", 1: "EPERM", 12: "ENOMEM"}
HEAD = "<4IQ8I"                      # nfaults vars_seed tty rand_seed clock0 clock_mode fd2_errno files pid thr_mode thr_seed cpus -
OFF_FAULTS = struct.calcsize(HEAD)
OFF_OUT = OFF_FAULTS + 16 * MAX_FAULTS
TAIL = "<14I16I2Q2I"
OFF_BYTES = OFF_OUT + struct.calcsize(TAIL)
SIZE = OFF_BYTES + OUT_CAP
WORDS = [b"--help", b"-h", b"--version", b"-V", b"-q", b"--quiet", b"-v", b"--verbose", b"--order", b"3", b"0", b"-1", b"", b"x", b"--",
         b"-", b"--json", b"exp", b"ln", b"5", b"\xff\xfe", b"a" * 5000, b"-n", b"--debug", b"-o", b"out.txt", b"--no-color", b"--width=10", b"%s%n", b"@file"]
ENVS = ["RUST_BACKTRACE", "RUST_LOG", "NO_COLOR", "TERM", "COLUMNS", "LINES", "LANG", "LC_ALL", "DEBUG", "VERBOSE", "QUIET", "CI", "PAGER", "HOME",
        "TZ", "TMPDIR", "PWD", "USER", "SYMBOLIC_DEBUG", "ORDER", "PRECISION", "FORCE_COLOR", "CLICOLOR", "LOG", "SILENT", "POSIXLY_CORRECT"]
VALS = ["", "0", "1", "full", "true", "false", "80", "3", "C", "de_DE.UTF-8", "dumb", "xterm", "/nonexistent", "-1", "trace", "999999", "\udcff\udcfe", "\u00e9"]


def literals():
    """What the program's own sources say in quotes may mean something in an argument or a variable."""
    found = set()
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                found.update(re.findall(r'"((?:[^"\\\n]|\\.){1,40})"', open(os.path.join(d, f), errors="replace").read()))
    found = sorted(x for x in found if "\\" not in x and "{" not in x)
    names = [x for x in found if re.fullmatch(r"[A-Z][A-Z0-9_]+", x) and x != "RUST_MIN_STACK"]
    words = [x for x in found if not re.search(r"\s", x)]
    for n in names:
        if n not in ENVS:
            ENVS.append(n)
    VALS.extend(w for w in words[:40] if w not in VALS)
    WORDS.extend(w.encode() for w in words[:60] if w.encode() not in WORDS)


class HarnessError(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS")}
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_INCREMENTAL"] = "0"
    # one target folder per content of the sources: time stamps decide nothing
    h = hashlib.sha256(REPO.encode())
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")) or "src" in os.path.relpath(d, REPO).split(os.sep):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(os.path.join(d, f).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    target = os.path.join(BUILD, "prog." + h.hexdigest()[:16])
    env["CARGO_TARGET_DIR"] = target
    import fcntl
    with open(os.path.join(BUILD, "proglock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        bins = {}
        old = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith("prog.") or x == "prog"), key=os.path.getmtime)
        for x in old[:-3]:
            if x != target:
                shutil.rmtree(x, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        os.utime(target)
        for profile in ("dev", "release"):
            cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--profile", profile, "--bin", "symbolic_rust",
                   "--manifest-path", os.path.join(REPO, "Cargo.toml")]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd="/")
            if r.returncode:
                sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
                raise HarnessError("the program does not build")
            bins[profile] = os.path.join(target, "debug" if profile == "dev" else "release", "symbolic_rust")
        shim = os.path.join(BUILD, "shim.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-fno-builtin", "-mno-red-zone", os.path.join(V, "prog", "shim.c"), "-o", shim + ".tmp"], check=True)
        os.replace(shim + ".tmp", shim)
    return bins, shim


def no_aslr():
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)
    except Exception:
        pass


class Runner:
    def __init__(self, scratch, bins, shim):
        self.dir, self.bins, self.shim = scratch, bins, shim
        self.plan_path = os.path.join(scratch, "plan")
        with open(self.plan_path, "wb") as f:
            f.truncate(SIZE)
        self.fd = os.open(self.plan_path, os.O_RDWR)
        self.m = mmap.mmap(self.fd, SIZE)
        self.cwd = os.path.join(scratch, "cwd")
        os.makedirs(self.cwd, exist_ok=True)
        os.chdir(self.cwd)
        with open(os.path.join(scratch, "stdin"), "wb") as f:
            f.write(b"q\n3\nsin x\n" * 20)
        self.pid = None
        signal.signal(signal.SIGALRM, self.alarm)
        self.stuck = False

    def alarm(self, *_):
        self.stuck = True
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)

    def run(self, plan, wall=40):
        f = plan["faults"]
        e = {**plain_env(), **plan["env"]}
        m = self.m
        m[0:OFF_FAULTS] = struct.pack(HEAD, len(f), e["vars_seed"], e["tty"], e["rand_seed"], e["clock0"], e["clock_mode"], e["fd2_errno"], e["files"], e["pid"],
                                      e["thr_mode"], e["thr_seed"], e["cpus"], 0)
        for i, x in enumerate(f):
            m[OFF_FAULTS + 16 * i: OFF_FAULTS + 16 * i + 16] = struct.pack("<4I", x["kind"], x["at"], x["arg"], x["len"])
        m[OFF_OUT:OFF_BYTES] = bytes(OFF_BYTES - OFF_OUT)
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.shim, "VERIF_SHIM": self.plan_path}
        env.update(e["vars"])
        acts = [(os.POSIX_SPAWN_OPEN, 1, "/dev/null", os.O_WRONLY, 0), (os.POSIX_SPAWN_OPEN, 2, "/dev/null", os.O_WRONLY, 0)]
        if e["stdin"] == 0:
            acts.append((os.POSIX_SPAWN_OPEN, 0, "/dev/null", os.O_RDONLY, 0))
        elif e["stdin"] == 1:
            acts.append((os.POSIX_SPAWN_CLOSE, 0))
        else:
            acts.append((os.POSIX_SPAWN_OPEN, 0, os.path.join(self.dir, "stdin"), os.O_RDONLY, 0))
        argv = [bytes.fromhex(a) for a in plan["argv"]]
        self.stuck = False
        signal.setitimer(signal.ITIMER_REAL, wall)
        self.pid = os.posix_spawn(self.bins[plan["profile"]], argv, env, file_actions=acts, setsigdef=[signal.SIGPIPE, signal.SIGALRM])
        try:
            resource.prlimit(self.pid, resource.RLIMIT_CPU, (10, 11))
            resource.prlimit(self.pid, resource.RLIMIT_CORE, (0, 0))
            resource.prlimit(self.pid, resource.RLIMIT_AS, (4 << 30, 4 << 30))
        except OSError:
            pass
        while True:
            try:
                _, st = os.waitpid(self.pid, 0)
                break
            except InterruptedError:
                pass
        self.pid = None
        signal.setitimer(signal.ITIMER_REAL, 0)
        t = struct.unpack(TAIL, m[OFF_OUT:OFF_BYTES])
        r = dict(zip(("writes", "writes_other", "allocs", "fired", "hang", "started", "reads_env", "reads_clock", "reads_random", "reads_tty", "opens", "sleeps", "threads", "switches"), t[:14]))
        r["fired_kind"] = list(t[14:30])
        r["clock"], r["trace"] = t[30], t[31]
        r["out"] = m[OFF_BYTES:OFF_BYTES + t[32]]
        r["other_len"] = t[33]
        r["status"] = st
        r["stuck"] = self.stuck
        return r

    def close(self):
        self.m.close()
        os.close(self.fd)


def plain_env():
    return {"vars_seed": 0, "tty": 0, "rand_seed": 1, "clock0": 1000000000, "clock_mode": 2, "fd2_errno": 0, "files": 0, "pid": 4242, "thr_mode": 0, "thr_seed": 0, "cpus": 4, "vars": {}, "stdin": 0}


def plain(profile):
    return {"profile": profile, "faults": [], "argv": [b"symbolic_rust".hex()], "env": plain_env()}


def describe(st):
    if os.WIFSIGNALED(st):
        return "killed by signal %d" % os.WTERMSIG(st)
    return "exit status %d" % os.WEXITSTATUS(st)


def judge(plan, r, base):
    """None if the run agrees with the property, otherwise (class, text)."""
    if not r["started"]:
        return ("harness", "the simulated kernel edge was not loaded")
    want, got = base["out"], r["out"]
    if r["hang"] or r["stuck"]:
        return ("hang", "the program does not come to an end (%d writes made)" % r["writes"])
    ok = os.WIFEXITED(r["status"]) and os.WEXITSTATUS(r["status"]) == 0
    fk = r["fired_kind"]
    soft = all(f["kind"] in (SHORT, DELAY) or (f["kind"] == ERRNO and f["arg"] == EINTR) for f in plan["faults"]) or \
        not any(fk[k] for k in (ERRNO, ZERO, KILL_BEFORE, KILL_AFTER, NULL, KILL_ALLOC, SHORT_KILL, NOTHREAD))
    if ok and got != want:
        n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return ("silent-loss", "ended with success, but standard output accepted %d bytes that differ from the %d-byte report from byte %d on" % (len(got), len(want), n))
    if soft and not ok:
        return ("undelivered", "no write failed for good and memory did not run out, but the program ended with %s" % describe(r["status"]))
    if not want.startswith(got):
        n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return ("not-a-prefix", "what standard output accepted (%d bytes) is not a prefix of the report: it differs from byte %d on" % (len(got), n))
    return None


def digest(r):
    return (r["status"], r["out"], r["writes"], r["allocs"], r["fired"], r["trace"], r["hang"])


# ---- plans ------------------------------------------------------------------------------
def sweep(base):
    """Every crash point and every single fault, once, in order."""
    for profile in ("dev", "release"):
        b = base[profile]
        def mk(*faults):
            p = plain(profile)
            p["faults"] = [dict(kind=k, at=a, arg=g, len=l) for k, a, g, l in faults]
            return p
        for w in range(b["writes"]):
            for e in list(HARD) + [EAGAIN]:
                yield mk((ERRNO, w, e, 1))
                if e != EAGAIN:
                    yield mk((ERRNO, w, e, 0))
            yield mk((ERRNO, w, EINTR, 1))
            yield mk((ERRNO, w, EINTR, 30))
            yield mk((ZERO, w, 0, 1))
            yield mk((ZERO, w, 0, 0))
            yield mk((KILL_BEFORE, w, 0, 1))
            yield mk((KILL_AFTER, w, 0, 1))
            for n in range(1, min(b["maxw"], 4096)):
                yield mk((SHORT, w, n, 1))
                yield mk((SHORT_KILL, w, n, 1))
                yield mk((SHORT, w, n, 1), (ERRNO, w + 1, EINTR, 1))
                yield mk((SHORT, w, n, 1), (ERRNO, w + 1, 28, 0))
        for n in (1, 2, 3, 7, 16, 64):
            yield mk((SHORT, 0, n, 0))
        # every allocation once in the dev build, a share of them in the others
        N, coarse = b["allocs"], max(1, b["allocs"] // 1500)
        for a in range(min(N, 60000)) if profile == "dev" else range(0, N, coarse):
            yield mk((NULL, a, 0, 1))
        for a in range(0, N, coarse):
            yield mk((NULL, a, 0, 0))
        for a in range(0, N, 2 * coarse):
            yield mk((KILL_ALLOC, a, 0, 1))
        if b["threads"]:
            for a in range(min(64, b["threads"])):
                yield mk((NOTHREAD, a, 0, 1))
                yield mk((NOTHREAD, a, 0, 0))
            for n in range(1200):
                p = plain(profile)
                p["env"].update(thr_mode=1 + n % 6, thr_seed=n, cpus=(1, 2, 4, 16)[n // 6 % 4])
                yield p
    for w in WORDS:
        for profile in ("dev", "release"):
            p = plain(profile)
            p["argv"].append(w.hex())
            yield p
    for n in ENVS:
        for v in VALS:
            p = plain("dev")
            p["env"]["vars"] = {n: v}
            yield p


def rand_plan(rng, base):
    p = plain(rng.choice(("dev", "release")))
    b = base[p["profile"]]
    e = p["env"]
    if rng.random() < 0.6:
        e["vars_seed"] = rng.getrandbits(32) if rng.random() < 0.7 else 0
        e["tty"] = rng.getrandbits(1)
        e["rand_seed"] = rng.getrandbits(32)
        e["clock0"] = rng.choice((0, 1, 10 ** 9, 10 ** 15, rng.getrandbits(60)))
        e["clock_mode"] = rng.randrange(3)
        e["fd2_errno"] = rng.choice((0, 0, 0, 32, 28, 5, 11))
        e["files"] = rng.choice((0, 0, 1, 2, 3))
        e["pid"] = rng.choice((1, 2, 4242, 32767, rng.randrange(1, 1 << 22)))
        e["stdin"] = rng.randrange(3)
        e["thr_mode"], e["thr_seed"], e["cpus"] = rng.randrange(7), rng.getrandbits(32), rng.choice((0, 1, 2, 3, 4, 8, 64))
        for _ in range(rng.choice((0, 0, 1, 3, 8))):
            e["vars"][rng.choice(ENVS)] = rng.choice(VALS)
    if rng.random() < 0.4:
        for _ in range(rng.choice((1, 1, 2, 3, 6, 200))):
            w = rng.choice(WORDS[:20] if rng.random() < 0.6 else WORDS)
            if rng.random() < 0.1:
                w += b"=" + os.fsencode(rng.choice(VALS))
            p["argv"].append(w.hex())
        if rng.random() < 0.1:
            p["argv"][0] = rng.choice((b"-", b"x" * 3000, b"./a", b"busybox")).hex()
    style = rng.randrange(6)
    W = b["writes"]
    # short writes make more writes of the same report, so faults reach further than its count
    span = W + 1 if style < 2 else len(b["out"]) + 2 if style == 2 else 2 * W + 4
    fs = []
    if style == 2:
        at = 0
        while at < span and len(fs) < 200:
            fs.append((SHORT, at, rng.choice((1, 1, 2, 3, 5, 17, 60)), rng.choice((1, 2, 5, 9))))
            at += fs[-1][3]
            if rng.random() < 0.3:
                fs.append((ERRNO, at, EINTR, rng.choice((1, 1, 2, 5))))
                at += fs[-1][3]
    for _ in range(rng.choice((0, 1, 1, 2, 3, 5)) if style != 5 else rng.randrange(4, 24)):
        k = rng.random()
        at = rng.randrange(span)
        if k < 0.30:
            fs.append((SHORT, at, rng.choice((1, 2, 7, 13, 14, 64, rng.randrange(1, max(2, b["maxw"])))), rng.choice((1, 1, 3, 0))))
        elif k < 0.55:
            fs.append((ERRNO, at, EINTR, rng.choice((1, 1, 2, 8, 40))))
        elif k < 0.65:
            fs.append((DELAY, at, rng.choice((1, 60, 3600, 10 ** 6)), rng.choice((1, 3, 0))))
        elif k < 0.75:
            fs.append((ERRNO, at, rng.choice(list(HARD)), rng.choice((1, 1, 2, 0, 0))))
        elif k < 0.79:
            fs.append((ERRNO, at, EAGAIN, rng.choice((1, 2, 20))))
        elif k < 0.82:
            fs.append((ZERO, at, 0, rng.choice((1, 2, 0))))
        elif k < 0.86:
            fs.append((rng.choice((KILL_BEFORE, KILL_AFTER)), at, 0, 1))
        elif k < 0.90:
            fs.append((SHORT_KILL, at, rng.randrange(1, max(2, b["maxw"])), 1))
        elif k < 0.98:
            fs.append((NULL, rng.randrange(b["allocs"] + 2), 0, rng.choice((1, 1, 2, 5, 50, 0))))
        else:
            fs.append((KILL_ALLOC, rng.randrange(b["allocs"] + 2), 0, 1))
    if b["threads"] and rng.random() < 0.1:
        fs.append((NOTHREAD, rng.randrange(b["threads"]), 0, rng.choice((0, 1))))
    rng.shuffle(fs) if style != 2 else None
    p["faults"] = [dict(kind=k, at=a, arg=g, len=l) for k, a, g, l in fs[:MAX_FAULTS]]
    return p


def fits(p):
    return sum(len(a) // 2 for a in p["argv"]) < 100000 and all("00" not in [a[i:i + 2] for i in range(0, len(a), 2)] for a in p["argv"])


# ---- search -----------------------------------------------------------------------------
class Tally:
    def __init__(self):
        self.runs = 0
        self.fired = [0] * 16
        self.errno = {}
        self.clock = 0
        self.reads = dict.fromkeys(("reads_env", "reads_clock", "reads_random", "reads_tty", "opens", "sleeps", "threads", "switches", "writes", "allocs", "writes_other"), 0)
        self.endings = {}
        self.seen = set()
        self.states = set()
        self.repeated = self.differing = 0
        self.samples = []
        self.violation = None


def worker(k, n, plans, scratch, bins, shim, base, deadline, conn, stop):
    try:
        os.sched_setaffinity(0, {sorted(os.sched_getaffinity(0))[k % len(os.sched_getaffinity(0))]})
    except OSError:
        pass
    no_aslr()
    d = os.path.join(scratch, "w%d" % k)
    os.makedirs(d)
    R = Runner(d, bins, shim)
    T = Tally()
    try:
        for idx, origin, p in plans(k, n):
            if time.time() > deadline or stop.value:
                break
            r = R.run(p)
            T.runs += 1
            b = base[p["profile"]]
            v = judge(p, r, b)
            for i in range(16):
                T.fired[i] += r["fired_kind"][i]
            T.clock += max(0, r["clock"] - p["env"]["clock0"])
            for key in T.reads:
                T.reads[key] += r[key]
            e = describe(r["status"])
            T.endings[e] = T.endings.get(e, 0) + 1
            if r["fired"] or p["argv"][1:] or p["env"] != plain_env():
                T.seen.add(hashlib.sha1(json.dumps([p, r["status"], r["trace"]], sort_keys=True).encode()).digest()[:8])
            T.states.add((p["profile"], len(r["out"]), r["writes"], r["allocs"], r["status"]))
            if k == 0 and len(T.samples) < 3 and idx % 997 == 3:
                T.samples.append(json.dumps(p)[:700])
            if T.runs % 29 == 1:
                T.repeated += 1
                if digest(R.run(p)) != digest(r):
                    T.differing += 1
            if v:
                T.violation = (idx, origin, p, v)
                stop.value = 1
                break
    except Exception as ex:
        T.violation = (0, "", None, ("harness", "%s: %s" % (type(ex).__name__, ex)))
        stop.value = 1
    conn.send(T)
    conn.close()


def minimise(R, plan, cls, base, limit):
    t0 = time.time()
    wall = 4 if cls == "hang" else 40
    best = plan
    tried = [0]

    def bad(p):
        if time.time() - t0 > limit:
            return False
        tried[0] += 1
        v = judge(p, R.run(p, wall), base[p["profile"]])
        return v is not None and v[0] == cls

    def with_(**kw):
        q = json.loads(json.dumps(best))
        q.update(kw)
        return q
    changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        for cand in ([] if best["profile"] == "dev" else [with_(profile="dev")]) + [with_(argv=plain("dev")["argv"]), with_(env=plain_env()), with_(faults=[])]:
            if cand != best and bad(cand):
                best, changed = cand, True
        n = max(1, len(best["faults"]) // 2)
        while best["faults"] and n >= 1:
            i = 0
            while i < len(best["faults"]):
                c = with_(faults=best["faults"][:i] + best["faults"][i + n:])
                if bad(c):
                    best, changed = c, True
                else:
                    i += n
            n //= 2
        for i in range(len(best["faults"])):
            for key, vals in (("len", (1,)), ("arg", (1,)), ("at", (0, best["faults"][i]["at"] // 2, best["faults"][i]["at"] - 1))):
                for val in vals:
                    f = best["faults"][i]
                    if key == "arg" and f["kind"] not in (SHORT, SHORT_KILL, DELAY):
                        continue
                    if val < 0 or (f[key] != 0 and val >= f[key]) or (f[key] == 0 and key != "len"):
                        continue
                    c = with_()
                    c["faults"][i][key] = val
                    if c != best and bad(c):
                        best, changed = c, True
        for i in range(len(best["argv"]) - 1, 0, -1):
            c = with_(argv=best["argv"][:i] + best["argv"][i + 1:])
            if bad(c):
                best, changed = c, True
        pe = plain_env()
        for key in pe:
            if best["env"][key] != pe[key]:
                c = with_()
                c["env"][key] = pe[key]
                if bad(c):
                    best, changed = c, True
        for n in list(best["env"]["vars"]):
            c = with_()
            del c["env"]["vars"][n]
            if bad(c):
                best, changed = c, True
    return best, tried[0]


def words(p):
    out = []
    for f in p["faults"]:
        place = "allocation" if f["kind"] in (NULL, KILL_ALLOC) else "thread start" if f["kind"] == NOTHREAD else "write"
        arg = HARD.get(f["arg"], {EINTR: "EINTR", EAGAIN: "EAGAIN"}.get(f["arg"], str(f["arg"]))) if f["kind"] == ERRNO else str(f["arg"])
        out.append("%s at %s %d%s, %s" % (KIND[f["kind"]], place, f["at"], " (%s)" % arg if f["kind"] in (SHORT, ERRNO, SHORT_KILL, DELAY) else "",
                                          "from then on" if f["len"] == 0 else "for %d" % f["len"]))
    e = {**plain_env(), **p["env"]}
    if e["thr_mode"]:
        out.append("threads take turns by schedule %s/%d" % (("", "random", "newest-first", "priorities", "oldest-first", "random-instructions", "priorities-instructions")[e["thr_mode"]], e["thr_seed"]))
    return out or ["no fault"]


def baselines(R):
    base = {}
    for profile in ("dev", "release"):
        p = plain(profile)
        r = R.run(p)
        if not r["started"]:
            raise HarnessError("the simulated kernel edge was not loaded")
        r["maxw"] = max(2, len(r["out"]))
        base[profile] = r
    return base


def scratch_dir():
    root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else BUILD
    return tempfile.mkdtemp(prefix="s07.", dir=root)


def check(tier, seed):
    t0 = time.time()
    bins, shim = build()
    scratch = scratch_dir()
    here = os.getcwd()
    try:
        no_aslr()
        os.makedirs(os.path.join(scratch, "main"))
        R = Runner(os.path.join(scratch, "main"), bins, shim)
        base = baselines(R)
        found = None
        for profile in ("dev", "release"):
            b = base[profile]
            if b["hang"] or b["stuck"] or b["status"] != 0 or not b["out"]:
                found = (0, "fault-free run", plain(profile), ("undelivered", "the fault-free run ends with %s after %d bytes of output" % (describe(b["status"]), len(b["out"]))))
        total = 24000 if tier == "quick" else 1200000
        limit = 200 if tier == "quick" else 2400
        swept = []
        Ts = []
        if not found:
            swept = [p for p in sweep(base) if fits(p)]

            def plans(k, n):
                for i in range(k, len(swept), n):
                    yield i, "sweep %d" % i, swept[i]
                i = k
                while i < total:
                    p = rand_plan(random.Random("%d:%d" % (seed, i)), base)
                    if fits(p):
                        yield len(swept) + i, "seed %d run %d" % (seed, i), p
                    i += n
            n = max(1, min(8, len(os.sched_getaffinity(0))))
            ctx = multiprocessing.get_context("fork")
            stop = ctx.Value("i", 0)
            procs = []
            for k in range(n):
                a, b = ctx.Pipe(False)
                pr = ctx.Process(target=worker, args=(k, n, plans, scratch, bins, shim, base, t0 + limit, b, stop))
                pr.start()
                b.close()
                procs.append((pr, a))
            for pr, a in procs:
                try:
                    Ts.append(a.recv())
                except EOFError:
                    raise HarnessError("a worker died")
                pr.join()
            bad = sorted((T.violation for T in Ts if T.violation), key=lambda v: v[0])
            for v in bad:
                if v[3][0] == "harness":
                    raise HarnessError(v[3][1])
            if bad:
                found = bad[0]
        differing = sum(T.differing for T in Ts)
        code = 0
        replay = None
        if found:
            _, origin, plan, (cls, text) = found
            plan, tried = minimise(R, plan, cls, base, 60) if plan["faults"] or plan["argv"][1:] or plan["env"] != plain_env() else (plan, 0)
            r = R.run(plan)
            v = judge(plan, r, base[plan["profile"]]) or (found[3] if origin == "fault-free run" else None)
            if v is None:
                # only a run that repeats counts
                sys.stderr.write("S07: a violation did not repeat (%s): %s\n" % (origin, text))
                raise HarnessError("a violation did not repeat")
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            doc = {"property": "S07", "origin": origin, "class": v[0], "what": v[1], "plan": plan, "in_words": words(plan),
                   "fault_free_report_sha1": hashlib.sha1(base[plan["profile"]]["out"]).hexdigest(), "accepted_sha1": hashlib.sha1(r["out"]).hexdigest(),
                   "ending": describe(r["status"]), "minimising_runs": tried}
            replay = os.path.join(V, "replays", "S07-%s.run" % hashlib.sha1(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12])
            with open(replay, "w") as f:
                f.write(json.dumps(doc, indent=1) + "\n")
            code = 1
        elif differing:
            # every run was judged by itself, so this weakens replaying, not the verdict
            print("S07: %d repeated runs differed from the first: the program is not deterministic under the simulated edge" % differing)
        R.close()
        os.chdir(here)
        wall = time.time() - t0
        evidence(tier, seed, Ts, base, swept, wall, code, differing)
        if code:
            print("S07: %s\n  %s\n  found by: %s" % (doc["what"], "; ".join(doc["in_words"]), doc["origin"]))
            print("VIOLATION property=S07 replay=%s" % replay)
        else:
            print("S07: held on %d simulated runs (%d swept crash and fault points), %.1f s" % (sum(T.runs for T in Ts), min(len(swept), sum(T.runs for T in Ts)), wall))
        return code
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(tier, seed, Ts, base, swept, wall, violations, differing):
    runs = sum(T.runs for T in Ts) + 2
    seen = set().union(*[T.seen for T in Ts]) if Ts else set()
    states = set().union(*[T.states for T in Ts]) if Ts else set()
    ends = {}
    for T in Ts:
        for k, n in T.endings.items():
            ends[k] = ends.get(k, 0) + n
    sm = lambda key: sum(T.reads[key] for T in Ts)
    doc = {
        "property": "S07", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(seen),
            "rule": "A case is one whole run of the real program under a plan of write faults, refused allocations, kills, delays, arguments and surroundings: first every single fault and every crash point of the fault-free run in order, then seeded combinations. Non-trivial: a fault fired, arguments were given or the surroundings differ from the plain ones. Distinct: plan, ending and hash of the sequence of fault and output events differ.",
            "samples": sum((T.samples for T in Ts), [])[:3] or [json.dumps(plain("dev"))],
            "simulated_runs_per_hour": int(runs / wall * 3600), "seeds_per_hour": int(max(0, runs - len(swept)) / wall * 3600),
            "swept_points": len(swept), "seeded_runs": max(0, runs - 2 - len(swept)),
            "simulated_seconds": round(sum(T.clock for T in Ts) / 1e9, 3),
            "faults": {KIND[k]: sum(T.fired[k] for T in Ts) for k in KIND},
            "endings": ends,
            "distinct_states": len(states), "state_measure": "(profile, bytes accepted, writes, allocations, ending) reached at the end of a run",
            "simulated_calls": {"writes_to_stdout": sm("writes"), "writes_to_stderr": sm("writes_other"), "allocations": sm("allocs"), "environment_reads": sm("reads_env"),
                                "clock_reads": sm("reads_clock"), "random_reads": sm("reads_random"), "terminal_queries": sm("reads_tty"), "file_opens": sm("opens"), "sleeps": sm("sleeps"),
                                "threads_started": sm("threads"), "turns_passed_between_threads": sm("switches"), "turns_taken_between_two_instructions": sum(T.fired[15] for T in Ts)},
            "report_bytes": {p: len(b["out"]) for p, b in base.items()}, "report_writes": {p: b["writes"] for p, b in base.items()}, "report_allocations": {p: b["allocs"] for p, b in base.items()},
            "determinism": {"runs_repeated": sum(T.repeated for T in Ts), "differing": differing},
            "real_components": "the program as cargo builds it from /repo's working tree (dev and release profiles), the standard library, the C library",
            "stubbed_components": "write and the calls beside it, malloc and the calls beside it, clocks, sleeps, randomness, environment look-ups, terminal queries, file opens, process id, the thread scheduler (starts, joins, futex waits and wakes, yields, sleeps)",
        },
        "assumptions": ["EBADF on standard output is left out: the standard library counts writes to a closed stream as accepted", "a thread that spins on memory for 30 ms of processor time without a system call or an allocation loses its turn to a timer, which is the one choice the seed does not make"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", "S07.json"), "w") as f:
        f.write(json.dumps(doc, indent=1) + "\n")


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    bins, shim = build()
    scratch = scratch_dir()
    try:
        no_aslr()
        R = Runner(scratch, bins, shim)
        base = baselines(R)
        p = doc["plan"]
        b = base[p["profile"]]
        r = R.run(p)
        v = judge(p, r, b)
        if v is None and doc["origin"] == "fault-free run" and (b["status"] != 0 or not b["out"]):
            v = ("undelivered", doc["what"])
        print("plan: %s" % "; ".join(words(p)))
        print("ending: %s, %d of %d bytes accepted" % (describe(r["status"]), len(r["out"]), len(b["out"])))
        R.close()
        if v:
            same = hashlib.sha1(r["out"]).hexdigest() == doc["accepted_sha1"] and describe(r["status"]) == doc["ending"]
            print("%s: %s%s" % (v[0], v[1], "" if same else " (not exactly the recorded run: the tree has changed)"))
            print("VIOLATION property=S07 replay=%s" % path)
            return 1
        print("S07: the recorded run does not violate the property on this tree")
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    try:
        if sys.argv[1] == "check":
            literals()
            return check(sys.argv[2], int(sys.argv[3]))
        return replay(os.path.abspath(sys.argv[2]))
    except HarnessError as e:
        sys.stderr.write("S07: no answer: %s\n" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
