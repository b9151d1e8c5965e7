"""Shared machinery of the checks: builds, verdicts, evidence, known findings."""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
HOST = "x86_64-unknown-linux-gnu"
STABLE = "stable-" + HOST
NIGHTLY = "nightly-" + HOST


class Inconclusive(Exception):
    """No verdict: the check itself could not run."""


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def ncpu():
    return os.cpu_count() or 4


def base_env(toolchain=STABLE, rustflags="-C target-cpu=x86-64"):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del env[k]
    for k in ("RUSTC_WRAPPER", "RUSTDOCFLAGS", "MIRIFLAGS", "RUST_LOG", "RUST_BACKTRACE"):
        env.pop(k, None)
    env.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTUP_TOOLCHAIN=toolchain,
        RUSTFLAGS=rustflags,
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
    )
    env.setdefault("HOME", "/root")
    return env


def repo_hash():
    """Content of everything the crate is built from."""
    h = hashlib.sha256()
    files = []
    for top in ("src", "xtask"):
        for d, dirs, fs in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            files += [os.path.join(d, f) for f in fs]
    for f in ("Cargo.toml", "Cargo.lock", "README.md"):
        files.append(os.path.join(REPO, f))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def has_avx2():
    try:
        return " avx2" in open("/proc/cpuinfo").read()
    except OSError:
        return False


SSE2 = "-C target-cpu=x86-64"
AVX2 = "-C target-cpu=x86-64 -C target-feature=+avx2"


class Build:
    """One configuration of a harness crate."""

    def __init__(self, name, crate="mon", simd=True, avx2=False, profile="checked", asan=False, features="", tsan=False, cov=False):
        self.name = name
        self.crate = crate
        self.simd = simd
        self.avx2 = avx2
        self.profile = profile
        self.asan = asan
        self.tsan = tsan
        self.cov = cov
        self.features = features
        self.dir = os.path.join(TARGET, name)

    def exe(self):
        p = [self.dir]
        if self.asan or self.tsan or self.cov:
            p.append(HOST)
        p += [self.profile, self.crate]
        return os.path.join(*p)

    def run_env(self):
        env = base_env()
        if self.asan:
            env["ASAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=0"
        if self.tsan:
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
        return env

    def build(self):
        flags = AVX2 if self.avx2 else SSE2
        tc = STABLE
        if self.asan:
            flags += " -Zsanitizer=address -Cforce-frame-pointers=yes"
            tc = NIGHTLY
        if self.tsan:
            flags += " -Zsanitizer=thread"
            tc = NIGHTLY
        env = base_env(tc, flags)
        if self.cov:
            env["RUSTC_WRAPPER"] = os.path.join(VERIF, "tools", "rustc-cov")
        cmd = ["cargo", "build", "--offline", "--profile", self.profile, "--target-dir", self.dir]
        if self.asan or self.tsan or self.cov:
            cmd += ["--target", HOST]
        if self.tsan:
            # the standard library must be instrumented as well
            cmd += ["-Zbuild-std"]
        feats = [f for f in self.features.split(",") if f]
        if self.simd:
            feats.append("simd")
        if feats:
            cmd += ["--features", ",".join(feats)]
        cwd = os.path.join(VERIF, self.crate)
        os.makedirs(self.dir, exist_ok=True)
        stamp = os.path.join(self.dir, "repo.sha256")
        want = repo_hash()
        try:
            have = open(stamp).read()
        except OSError:
            have = None
        if have is not None and have != want:
            # never trust timestamps over content
            clean = ["cargo", "clean", "--offline", "-p", "tmi", "--target-dir", self.dir, "--profile", self.profile]
            if self.asan or self.tsan or self.cov:
                clean += ["--target", HOST]
            subprocess.run(clean, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Inconclusive(f"build {self.name} failed:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(want)


BUILDS = {
    b.name: b
    for b in [
        Build("mon-sse2", avx2=False),
        Build("mon-avx2", avx2=True),
        Build("mon-scalar", simd=False),
        Build("mon-rel-sse2", profile="release"),
        Build("mon-rel-avx2", avx2=True, profile="release"),
        Build("mon-rel-scalar", simd=False, profile="release"),
        Build("mon-asan-sse2", asan=True),
        Build("mon-asan-avx2", avx2=True, asan=True),
        Build("mon-asan-scalar", simd=False, asan=True),
        Build("mon-tsan-sse2", tsan=True),
        Build("mon-fuzz", cov=True, features="fuzz"),
        Build("cost", profile="release", features="cost"),
        Build("cost-avx2", avx2=True, profile="release", features="cost"),
        Build("cost-scalar", simd=False, profile="release", features="cost"),
        Build("cli", crate="cli", profile="checked", simd=False),
    ]
}


def usable(names):
    """Leave out configurations this machine cannot run."""
    if has_avx2():
        return list(names)
    return [n for n in names if "avx2" not in n]


def build_all(names):
    names = list(dict.fromkeys(names))
    t0 = time.time()
    errs = []

    def one(n):
        try:
            BUILDS[n].build()
        except Inconclusive as e:
            errs.append(str(e))

    # cargo is itself parallel; a few at a time hide the serial tails
    sem = threading.Semaphore(4)

    def guarded(n):
        with sem:
            one(n)

    ts = [threading.Thread(target=guarded, args=(n,)) for n in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise Inconclusive("\n".join(errs))
    log(f"built {' '.join(names)} in {time.time() - t0:.1f} s")


class Scratch:
    """A directory below /verif/work for one run of one check."""

    def __init__(self, prop):
        self.path = os.path.join(WORK, f"run-{prop}-{os.getpid()}")

    def __enter__(self):
        os.makedirs(self.path, exist_ok=True)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def limit_as(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            n = int(gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (n, n))

    return f


def run(cmd, env=None, timeout=600, cwd=VERIF, as_gb=None, stdin=None):
    """(returncode or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(
        cmd,
        env=env or base_env(),
        cwd=cwd,
        stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        preexec_fn=limit_as(as_gb),
        start_new_session=True,
    )
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace"), err.decode("utf-8", "replace")


# ---------------------------------------------------------------------------------------
# known findings


def known_findings(prop):
    """Entries `known: property=<id> sig=<sig> input=<hex> <what>`; `fixed:` suppresses nothing."""
    out = []
    try:
        lines = open(os.path.join(VERIF, "known-findings.txt"), encoding="utf-8").read().splitlines()
    except OSError:
        return out
    for l in lines:
        m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------------------------------
# verdicts


class Result:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.violations = []  # dict(sig, msg, replay-data)
        self.extra = {}
        self.assumptions = []

    def violation(self, sig, msg, **replay):
        self.violations.append(dict(sig=sig, msg=msg, replay=replay))

    def finish(self):
        known = dict(known_findings(self.prop))
        new = []
        for v in self.violations:
            if v["sig"] in known:
                print(f"KNOWN-FINDING: property={self.prop} {v['sig']} {known[v['sig']]}")
            else:
                new.append(v)
        ev = dict(
            property=self.prop,
            tier=tier(),
            seed=seed(),
            level=self.level,
            coverage=dict(
                evaluations=int(self.evaluations),
                distinct_nontrivial=int(self.distinct),
                rule=self.rule,
                samples=self.samples[:12],
                **self.extra,
            ),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(new),
        )
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(p + ".tmp", p)
        if new:
            rd = os.path.join(WORK, "replay")
            os.makedirs(rd, exist_ok=True)
            seen = set()
            for v in new:
                if v["sig"] in seen:
                    continue
                seen.add(v["sig"])
                name = re.sub(r"[^A-Za-z0-9]+", "-", v["sig"])[:60].strip("-")
                f = os.path.join(rd, f"{self.prop}-{name}.json")
                with open(f, "w") as fh:
                    json.dump(dict(property=self.prop, sig=v["sig"], msg=v["msg"], **v["replay"]), fh, indent=1)
                    fh.write("\n")
                print(f"{v['sig']}: {v['msg'][:1500]}")
                print(f"VIOLATION property={self.prop} replay={f}", flush=True)
            return 1
        if self.evaluations == 0 or self.distinct == 0:
            print(f"INCONCLUSIVE property={self.prop}: nothing was observed")
            return 3
        print(
            f"OK property={self.prop} evaluations={self.evaluations} distinct={self.distinct} "
            f"wall={time.time() - self.t0:.1f}s"
        )
        return 0


def harvest_dict(path):
    """String, byte and integer literals of the current sources, as workload dictionary."""
    words, nums = set(), set()
    lit = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S)
    ch = re.compile(r"b?'((?:[^'\\]|\\[^u]|\\u\{[0-9a-fA-F]+\}))'")
    num = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])")
    esc = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}

    def unesc(s):
        def r(m):
            g = m.group(1)
            if g[0] == "u":
                return chr(int(g[2:-1], 16)) if int(g[2:-1], 16) < 0x110000 else ""
            if g[0] == "x":
                return chr(int(g[1:], 16))
            return esc.get(g, "")

        return re.sub(r"\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)", r, s, flags=re.S)

    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            s = s.split("#[cfg(test)]\nmod tests")[0]
            s = re.sub(r"//[^\n]*", "", s)
            for m in lit.finditer(s):
                try:
                    w = unesc(m.group(1))
                except ValueError:
                    continue
                if 0 < len(w) <= 64 and "{" not in w:
                    words.add(w)
            for m in ch.finditer(s):
                try:
                    w = unesc(m.group(1))
                except ValueError:
                    continue
                if w:
                    words.add(w)
            for m in num.finditer(s):
                try:
                    n = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    try:
                        n = int(m.group(1).replace("_", ""))
                    except ValueError:
                        continue
                if n < 1 << 64:
                    nums.add(n)
    with open(path, "w") as f:
        for w in sorted(words):
            f.write("w " + w.encode("utf-8", "replace").hex() + "\n")
        for n in sorted(nums):
            f.write(f"n {n}\n")
    return len(words), len(nums)
