"""C16: parsing is a pure function of the line, on any thread."""
import json
import re
import threading

from vlib import *
from parse_checks import GEN, death, excerpt


RULE = (
    GEN + ", in families of siblings (same length with single bytes changed, tag values exchanged). The complete "
    "observable result of each line (borrowed, owned, typed, unescaped, serialized) is hashed in a fresh process that "
    "parsed nothing before, and compared with the result after other lines at the same address, in other orders, at other "
    "addresses, after hundreds of thousands of parses, on new threads, on several threads at once, and in another "
    "environment (locale, time zone, working directory). Owned messages are read and dropped by several threads at once, "
    "natively, under ThreadSanitizer (instrumented standard library) and under Miri. evaluations = compared results; "
    "distinct = distinct lines."
)


def report(so):
    m = re.search(r"^REPORT (.*)$", so, re.M)
    return json.loads(m.group(1)) if m else None


def unhex(h):
    return bytes.fromhex(h).decode("utf-8", "replace")


def take(res, name, j, cmd, extra):
    extra[name] = {k: j[k] for k in ("lines", "died", "distinct", "results", "threads", "compared")}
    res.evaluations += sum(j["compared"].values())
    for s in j["samples"][:2]:
        res.samples.append(dict(build=name, input=unhex(s)))
    for v in j["violations"]:
        res.violation(v["sig"], f"{unhex(v['msg'])} [build {name}, {v['count']} times] line {unhex(v['hex'])[:600]!r}",
                      build=name, hex=v["hex"], input=unhex(v["hex"])[:2000], cmd=cmd)


def native(res, b, args, extra, dct, env=None, cwd=VERIF, timeout=700):
    cmd = [b.exe(), "pure", "--dict", dct] + args
    e = b.run_env()
    e.update(env or {})
    rc, so, err = run(cmd, env=e, timeout=timeout, cwd=cwd, as_gb=None if b.asan or b.tsan else 12)
    j = report(so)
    if "WARNING: ThreadSanitizer" in err:
        i = err.find("WARNING: ThreadSanitizer")
        kind = err[i:].splitlines()[0].split("ThreadSanitizer: ")[-1].split(" (")[0]
        res.evaluations += 1
        res.distinct += 1
        res.violation(f"{kind}", f"[build {b.name}]\n{err[i:i + 2500]}", build=b.name, cmd=cmd)
        return None
    if rc != 0 or j is None:
        kind = death(rc, err)
        if kind:
            # dying on every single input is C01's and C02's subject; here it took threads or a history
            rc2, _, err2 = run(cmd, env=e, timeout=timeout, cwd=cwd, as_gb=None if b.asan or b.tsan else 12)
            if death(rc2, err2) == kind:
                res.evaluations += 1
                res.distinct += 1
                res.violation(f"dies: {kind}", f"[build {b.name}] {excerpt(err2)}", build=b.name, cmd=cmd)
                return None
        raise Inconclusive(f"{b.name}: pure ended with {rc}: {so[-300:]} {err[-1500:]}")
    take(res, b.name, j, cmd, extra)
    return j


class MiriRaces:
    def __init__(self, th):
        self.n = 60 if th else 8
        self.seeds = 6 if th else 1
        self.limit = 2400 if th else 600

    def start(self):
        self.t = threading.Thread(target=self._go)
        self.t.start()

    def _go(self):
        self.out = []
        env = base_env(NIGHTLY, "")
        d = os.path.join(TARGET, "miri-pure")
        h = repo_hash()
        st = os.path.join(d, "repo.sha256")
        if os.path.exists(st) and open(st).read() != h:
            shutil.rmtree(d, ignore_errors=True)
        t0 = time.time()
        for k in range(self.seeds):
            if time.time() - t0 > self.limit / 2:
                break
            env["MIRIFLAGS"] = f"-Zmiri-disable-isolation -Zmiri-seed={seed() * 100 + k} -Zmiri-preemption-rate=0.05"
            cmd = ["cargo", "miri", "run", "--offline", "--target-dir", d, "--features", "simd", "--", "pure", "--tiny", "1",
                   "--threads", "3", "--cases", str(self.n), "--filler", "0", "--seed", str(seed() * 100 + k)]
            self.out.append(run(cmd, env=env, timeout=self.limit, cwd=os.path.join(VERIF, "mon")) + (cmd,))
            os.makedirs(d, exist_ok=True)
            open(st, "w").write(h)

    def join(self, res, extra):
        self.t.join()
        for k, (rc, so, err, cmd) in enumerate(self.out):
            i = err.find("error: Undefined Behavior")
            if i >= 0:
                kind = "data race" if "Data race" in err[i : i + 300] else "undefined behavior"
                res.violation(f"miri: {kind}", err[i : i + 2000], build="miri-pure", cmd=cmd)
                return
            j = report(so)
            if j is None:
                if rc is None:
                    extra["miri"] = "stopped by the time limit"
                    return
                raise Inconclusive(f"miri pure ended with {rc}: {err[-1500:]}")
            take(res, f"miri-{k}", j, cmd, extra)


def check():
    th = tier() == "thorough"
    res = Result("C16")
    res.rule = RULE
    res.assumptions = [
        "histories are those of the listed orders; data races are those that ThreadSanitizer and Miri recognise in the observed schedules"
    ]
    miri = MiriRaces(th)
    miri.start()
    names = usable(["mon-sse2", "mon-rel-sse2", "mon-tsan-sse2"] + (["mon-avx2", "mon-scalar"] if th else []))
    build_all(names)
    extra = {}
    with Scratch("C16") as sc:
        dct = os.path.join(sc, "dict")
        harvest_dict(dct)
        n = 400_000 if th else 24_000
        rounds = 4 if th else 1
        for k in range(rounds):
            sd = str(seed() * 16 + k)
            for nm in names:
                b = BUILDS[nm]
                a = ["--seed", sd, "--threads", str(ncpu())]
                if b.tsan:
                    a += ["--cases", str(n // 10), "--fork", "0", "--filler", "20000"]
                else:
                    a += ["--cases", str(n), "--filler", "2000000" if th else "400000"]
                j = native(res, b, a, extra, dct, timeout=2400 if th else 500)
                if j and not b.tsan:
                    res.distinct = max(res.distinct, j["distinct"])
                if j and nm == "mon-sse2":
                    env = dict(TZ="Asia/Kathmandu", LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", USER="nobody", HOME="/nonexistent",
                               RUST_LOG="trace", NO_COLOR="1", RUST_BACKTRACE="0")
                    j2 = native(res, b, ["--seed", sd, "--threads", "3", "--cases", str(n), "--filler", "0"], {}, dct, env=env, cwd="/")
                    if j2 and j2["all"] != j["all"]:
                        res.violation("environment", "results differ between two processes with different environments "
                                      "(TZ, LANG, USER, HOME, RUST_LOG, working directory, threads)", build=nm, cmd=a)
        miri.join(res, extra)
    res.extra = dict(builds=extra)
    return res.finish()


def replay(j):
    cmd = j["cmd"]
    names = [b for b in BUILDS if b == j["build"]]
    if not names:
        print("replay under Miri:", " ".join(cmd))
        return 3
    build_all(names)
    b = BUILDS[names[0]]
    with Scratch("C16") as sc:
        dct = os.path.join(sc, "dict")
        harvest_dict(dct)
        res = Result("C16")
        a = cmd[cmd.index("--dict") + 2 :] if "--dict" in cmd else cmd
        native(res, b, a, {}, dct)
    for v in res.violations:
        print(v["sig"], v["msg"])
    return 1 if res.violations else 0
