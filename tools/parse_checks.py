"""C01-C15: the parsing half, monitored by the `mon` harness."""
import json
import os
import re
import struct
import subprocess
import threading
import time

from vlib import *

ALL_CHECKED = ["mon-sse2", "mon-avx2", "mon-scalar"]
ALL_RELEASE = ["mon-rel-sse2", "mon-rel-avx2", "mon-rel-scalar"]
ALL_ASAN = ["mon-asan-sse2", "mon-asan-avx2", "mon-asan-scalar"]

GEN = (
    "Inputs come from the seeded generator in mon/src/gen.rs: grammar-built Twitch lines (all commands and "
    "USERNOTICE events, escaped/boundary/overlong values, missing, empty, duplicated and mutated tags, values "
    "planted from the literals of the current sources), mutations of real lines, delimiter noise"
)

# seconds of coverage-guided workload: quick, thorough
FUZZ_S = (8, 300)

# quick cases, thorough cases (per build)
PLAN = {
    "C01": dict(
        quick=ALL_CHECKED + ALL_RELEASE,
        cases=(1_000_000, 12_000_000),
        sweep=(70, 330),
        rule=GEN + ", and an exhaustive sweep of delimiter positions over short lengths. Each is parsed and put "
        "through every public accessor, getter, formatter, conversion and unescaper under catch_unwind and a "
        "CPU-time hang watchdog, in builds with and without overflow checks; distinct = distinct inputs by hash.",
    ),
    "C02": dict(
        quick=["mon-asan-sse2", "mon-asan-avx2", "mon-asan-scalar", "mon-rel-sse2", "mon-rel-avx2"],
        thorough=ALL_ASAN + ALL_RELEASE + ALL_CHECKED,
        cases=(300_000, 6_000_000),
        sweep=(70, 330),
        rule=GEN + ". Each input is parsed several times: flush left and right against inaccessible pages, in exactly "
        "sized heap blocks (ASan red zones), at chosen alignments with misleading bytes around it; every slice handed "
        "out is range- and boundary-checked and results must not depend on the surroundings. A small corpus runs "
        "under Miri for each vector width. distinct = distinct inputs by hash.",
    ),
    "C03": dict(
        quick=ALL_CHECKED,
        cases=(2_000_000, 20_000_000),
        sweep=(130, 400),
        rule=GEN + ", and an exhaustive sweep of delimiter positions over short lengths. Each result is compared field "
        "by field with the reference splitter in mon/src/model.rs; distinct = distinct inputs by hash.",
    ),
    "C05": dict(
        quick=["mon-sse2", "mon-scalar"],
        thorough=ALL_CHECKED,
        cases=(1_000_000, 10_000_000),
        sweep=(40, 160),
        rule=GEN + ". Every accessor of the owned, borrowed, converted, cloned, moved message is compared for each "
        "input; distinct = distinct inputs by hash.",
    ),
    "C06": dict(
        quick=["mon-sse2"],
        cases=(1_500_000, 20_000_000),
        rule="Tag, command and level names (all known ones, mutations, the source's literals, noise) and whole messages "
        "with duplicated, near-miss and unknown keys; compared with the name tables in mon/src/oracle/names.rs and a "
        "first-match lookup over the reference tags; distinct = distinct inputs by hash.",
    ),
    "C07": dict(
        quick=["mon-sse2"],
        cases=(3_000_000, 40_000_000),
        rule="Strings dense in escapes, invalid escapes, trailing backslashes, multi-byte characters; both unescapers, "
        "borrowed and owned, are compared with the reference unescaper, the borrow rule and the escape round trip; "
        "decided = not trivially free of special characters; distinct = distinct inputs by hash.",
    ),
    "C08": dict(
        quick=["mon-sse2"],
        cases=(1_500_000, 20_000_000),
        rule=GEN + ". The outcome (which variant, or error) of Message and of every specific type is compared with the "
        "reference model's; inputs on which the property is silent are not counted as decided; distinct by hash.",
    ),
    "C09": dict(quick=["mon-sse2"], cases=(2_000_000, 24_000_000), rule=GEN + ", restricted to PRIVMSG, WHISPER, CLEARMSG. Every getter is compared with the model's field; decided = the model says the message converts; distinct by hash."),
    "C10": dict(quick=["mon-sse2"], cases=(2_000_000, 24_000_000), rule=GEN + ", restricted to USERNOTICE. Event variant, event fields, sender and common getters are compared with the model; decided = the model says the message converts; distinct by hash."),
    "C11": dict(quick=["mon-sse2"], cases=(2_000_000, 24_000_000), rule=GEN + ", restricted to the message types with badges. The badge list is compared with the model; decided = converts and has a badges tag; distinct by hash."),
    "C12": dict(quick=["mon-sse2"], cases=(3_000_000, 30_000_000), rule=GEN + ", restricted to CLEARCHAT and ROOMSTATE. Action, predicates, settings and common getters are compared with the model; decided = the model says the message converts; distinct by hash."),
    "C13": dict(quick=["mon-sse2"], cases=(3_000_000, 30_000_000), rule=GEN + ", restricted to JOIN, PART, PING, PONG, NOTICE, USERSTATE, GLOBALUSERSTATE. Every getter is compared with the model; distinct by hash."),
    "C14": dict(quick=["mon-sse2"], cases=(1_500_000, 20_000_000), rule=GEN + ". Each typed value is converted to owned data, the source buffer is overwritten and freed, and equality, Debug output and every getter are compared with what was recorded before; decided = the message converts; distinct by hash."),
    "C15": dict(quick=["mon-sse2"], cases=(1_000_000, 14_000_000), rule=GEN + ". Each typed message is serialized and deserialized from text, bytes, a reader and an owned value tree, compared by equality and getters, and serialized again; decided = the message converts; distinct by hash."),
}

REPLAY_LIMIT = 60


def as_limit(b):
    return None if b.asan else 12


def slot_inputs(d):
    out = []
    for f in sorted(os.listdir(d)):
        if not f.startswith("cur."):
            continue
        with open(os.path.join(d, f), "rb") as fh:
            head = fh.read(16)
            if len(head) < 16:
                continue
            n = struct.unpack("<Q", head[:8])[0]
            if n:
                out.append(fh.read(n - 1))
    return out


def death(rc, err):
    """How a subprocess died, or None if it did not die of the code under test."""
    if "ERROR: AddressSanitizer" in err:
        m = re.search(r"ERROR: AddressSanitizer:? ([A-Za-z0-9-]+)", err)
        kind = m.group(1) if m else "report"
        if kind in ("out-of-memory", "allocation-size-too-big", "requested"):
            return "asan-allocation"
        return "asan-" + kind
    if rc is not None and rc < 0:
        name = signal.Signals(-rc).name
        if name in ("SIGKILL", "SIGTERM", "SIGXCPU"):
            return None
        return name
    if rc is not None and rc >= 128 and rc - 128 in (4, 6, 7, 8, 11):
        return signal.Signals(rc - 128).name
    return None


def check_one(b, prop, data, timeout=REPLAY_LIMIT):
    f = os.path.join(WORK, f"one-{os.getpid()}-{threading.get_ident()}.hex")
    os.makedirs(WORK, exist_ok=True)
    with open(f, "w") as fh:
        fh.write(data.hex())
    try:
        return run([b.exe(), "check", "--prop", prop, "--file", f], env=b.run_env(), timeout=timeout, as_gb=as_limit(b))
    finally:
        os.unlink(f)


def minimize_death(b, prop, data, kind, budget=20):
    """Cut pieces off a crashing input while it still crashes the same way."""
    t0 = time.time()
    s = data.decode("utf-8", "replace")
    step = max(1, len(s) // 2)
    while time.time() - t0 < budget:
        changed = False
        i = 0
        while i < len(s) and time.time() - t0 < budget:
            t = s[:i] + s[i + step :]
            rc, _, err = check_one(b, prop, t.encode())
            if death(rc, err) == kind:
                s = t
                changed = True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    return s.encode()


def excerpt(err, n=1200):
    i = err.find("ERROR: AddressSanitizer")
    if i >= 0:
        lines = [l for l in err[i:].splitlines() if not l.startswith("  ") or re.match(r"\s+#\d", l)]
        return "\n".join(lines[:10])[:n]
    return err[-n:]


def drive(res, b, prop, cases, sweep, dct, sd, scratch, threads, limit, extra):
    """Run the workload of one build and fold what the monitors saw into `res`."""
    d = os.path.join(scratch, b.name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "out.json")
    cmd = [b.exe(), "run", "--prop", prop, "--seed", str(sd), "--cases", str(cases), "--threads", str(threads),
           "--sweep", str(sweep), "--limit", str(limit), "--slots", d, "--out", out, "--dict", dct]
    t0 = time.time()
    rc, so, err = run(cmd, env=b.run_env(), timeout=limit + 120, as_gb=as_limit(b))
    if rc == 0:
        j = json.load(open(out))
        res.evaluations += j["decided"]
        res.distinct += j["distinct"]
        extra[b.name] = dict(executed=j["cases"], decided=j["decided"], distinct=j["distinct"], sweep=j["sweep"],
                             seconds=j["seconds"], observed=j["hits"])
        for s in j["samples"][:3]:
            res.samples.append(dict(build=b.name, **s))
        for v in j["violations"]:
            res.violation(v["sig"], v["msg"] + f" [build {b.name}, {v['count']} inputs]",
                          build=b.name, hex=v["hex"], input=bytes.fromhex(v["hex"]).decode("utf-8", "replace")[:2000])
        return
    if rc == 4:
        m = re.search(r"^HANG ([0-9a-f]*)$", so, re.M)
        data = bytes.fromhex(m.group(1)) if m else b""
        # confirm on its own: bounded by CPU time, not wall time
        f = os.path.join(d, "hang.hex")
        with open(f, "w") as fh:
            fh.write(data.hex())
        p = ["bash", "-c", "ulimit -t 40; exec \"$@\"", "sh", b.exe(), "check", "--prop", prop, "--file", f]
        rc2, _, _ = run(p, env=b.run_env(), timeout=200)
        if rc2 in (-9, -24, 137, 152):
            res.evaluations += 1
            res.distinct += 1
            res.violation("does not return", "parsing used 40 s of CPU time without returning "
                          f"[build {b.name}] input {data[:300]!r}", build=b.name, hex=data.hex())
            return
        raise Inconclusive(f"{b.name}: hang not confirmed")
    kind = death(rc, err)
    if kind is None:
        raise Inconclusive(f"{b.name}: harness ended with {rc}: {so[-500:]} {err[-1500:]}")
    # which of the inputs in flight does it?
    for data in slot_inputs(d):
        rc2, _, err2 = check_one(b, prop, data)
        k2 = death(rc2, err2)
        if k2:
            data = minimize_death(b, prop, data, k2)
            rc2, _, err3 = check_one(b, prop, data)
            res.evaluations += 1
            res.distinct += 1
            res.violation(f"dies: {k2}", f"[build {b.name}] input {data[:300]!r}\n{excerpt(err3 or err2)}",
                          build=b.name, hex=data.hex(), input=data.decode("utf-8", "replace")[:2000])
            return
    if kind.startswith("asan-") and kind != "asan-allocation":
        # the report itself is the witness
        res.evaluations += 1
        res.distinct += 1
        res.violation(f"dies: {kind}", f"[build {b.name}] (only within the whole run)\n{excerpt(err)}", build=b.name,
                      cmd=cmd)
        return
    # state built up over several inputs: does the whole run die again?
    rc3, _, err3 = run(cmd, env=b.run_env(), timeout=limit + 120, as_gb=as_limit(b))
    k3 = death(rc3, err3)
    if k3 and k3 == kind:
        res.evaluations += 1
        res.distinct += 1
        res.violation(f"dies: {kind}", f"[build {b.name}] (only within the whole run) {excerpt(err3)}", build=b.name, cmd=cmd)
        return
    raise Inconclusive(f"{b.name}: died of {kind}, not reproduced: {err[-1500:]}")


def check_prop(prop):
    plan = PLAN[prop]
    th = tier() == "thorough"
    names = usable(plan.get("thorough", plan["quick"]) if th else plan["quick"])
    if th and "thorough" not in plan and names == ["mon-sse2"]:
        names = usable(["mon-sse2", "mon-avx2", "mon-rel-sse2", "mon-scalar"])
    res = Result(prop)
    res.rule = plan["rule"]
    res.assumptions = ["bounded by the executions listed; the reference model in mon/src is trusted"]
    miri = None
    if prop == "C02":
        miri = Miri(res, th)
        miri.start()
    build_all(names + ["mon-fuzz"])
    sweep = plan.get("sweep", (0, 0))[1 if th else 0]
    cases = plan["cases"][1 if th else 0]
    extra = {}
    with Scratch(prop) as sc:
        dct = os.path.join(sc, "dict")
        w, n = harvest_dict(dct)
        for i, nm in enumerate(names):
            b = BUILDS[nm]
            c = cases
            if prop == "C02" and not b.asan and th is False:
                c = cases * 2
            s = sweep
            if b.asan:
                s = min(sweep, 140)
            drive(res, b, prop, c, s, dct, seed() * 64 + i, sc, ncpu(), 1500 if th else 150, extra)
        extra["coverage-guided"] = fuzz(res, prop, FUZZ_S[1 if th else 0], sc, dct)
    if miri:
        extra["miri"] = miri.join()
    res.extra = dict(builds=extra, dictionary=dict(words=w, numbers=n))
    return res.finish()


def fuzz(res, prop, seconds, sc, dct):
    """The same monitors, but coverage of the crate steers what is generated; one process per core."""
    b = BUILDS["mon-fuzz"]
    subs = [Result(prop) for _ in range(ncpu())]
    outs = [{} for _ in subs]
    errs = []

    def one(k):
        d = os.path.join(sc, f"fuzz{k}")
        os.makedirs(d, exist_ok=True)
        try:
            drive(subs[k], b, prop, 10**12, 0, dct, seed() * 1009 + k, d, 1, seconds, outs[k])
        except Inconclusive as e:
            errs.append(str(e))

    ts = [threading.Thread(target=one, args=(k,)) for k in range(len(subs))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise Inconclusive("\n".join(errs))
    sums, most = {}, {}
    for s, o in zip(subs, outs):
        res.evaluations += s.evaluations
        res.distinct += s.distinct
        for v in s.violations:
            if v["sig"] not in [w["sig"] for w in res.violations]:
                res.violations.append(v)
        for x in o.values():
            for k in ("executed", "decided", "distinct"):
                sums[k] = sums.get(k, 0) + x[k]
            for k in FUZZ_HITS:
                most[k] = max(most.get(k, 0), x["observed"].get(k, 0))
    return dict(processes=len(subs), seconds=seconds, **sums, most_in_one_process=most)


FUZZ_HITS = ("coverage points", "coverage points reached", "inputs kept for reaching something new")


# ---------------------------------------------------------------------------------------
# Miri


class Miri:
    """The small corpus under the undefined-behaviour interpreter, one run per vector unit."""

    # name, target, rustflags, features
    CONF = [
        ("sse2", None, "", "simd"),
        ("avx2", None, "-Ctarget-feature=+avx2", "simd"),
        ("neon", "aarch64-unknown-linux-gnu", "", "simd"),
        ("scalar", None, "", ""),
    ]

    def __init__(self, res, thorough):
        self.res = res
        self.n = 1200 if thorough else 60
        self.limit = 2400 if thorough else 420
        self.out = {}
        self.errs = []
        self.viol = []
        self.thorough = thorough

    def start(self):
        self.t = threading.Thread(target=self._all)
        self.t.start()

    def join(self):
        self.t.join()
        if self.errs:
            raise Inconclusive("miri: " + "\n".join(self.errs))
        for v in self.viol:
            self.res.violation(*v[:2], **v[2])
        return self.out

    def _all(self):
        try:
            env = base_env(NIGHTLY, "")
            # the sysroots first: concurrent setups would race for the same directory
            for tgt in (None, "aarch64-unknown-linux-gnu"):
                cmd = ["cargo", "miri", "setup"] + (["--target", tgt] if tgt else [])
                r = subprocess.run(cmd, env=env, cwd=os.path.join(VERIF, "mon"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    self.errs.append("setup failed: " + r.stdout[-1500:])
                    return
            ts = [threading.Thread(target=self._one, args=c) for c in self.CONF]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        except Exception as e:  # noqa: BLE001
            self.errs.append(repr(e))

    def _one(self, name, target, flags, feats):
        try:
            self._one_(name, target, flags, feats)
        except Exception as e:  # noqa: BLE001
            self.errs.append(f"{name}: {e!r}")

    def _one_(self, name, target, flags, feats):
        env = base_env(NIGHTLY, flags)
        env["MIRIFLAGS"] = "-Zmiri-symbolic-alignment-check" if name == "x" else ""
        d = os.path.join(TARGET, "miri-" + name)
        cmd = ["cargo", "miri", "run", "--offline", "--target-dir", d]
        if target:
            cmd += ["--target", target]
        if feats:
            cmd += ["--features", feats]
        n = self.n if name != "neon" else max(40, self.n * 2 // 3)
        cmd += ["--", "interp", "--prop", "C02", "--cases", str(n), "--seed", str(seed()), "--trace", "1"]
        t0 = time.time()
        # a fresh build whenever the sources differ
        h = repo_hash()
        st = os.path.join(d, "repo.sha256")
        if os.path.exists(st) and open(st).read() != h:
            shutil.rmtree(d, ignore_errors=True)
        rc, so, err = run(cmd, env=env, timeout=self.limit, cwd=os.path.join(VERIF, "mon"))
        os.makedirs(d, exist_ok=True)
        open(st, "w").write(h)
        cases = re.findall(r"^CASE (\d+) ([0-9a-f]*)$", so, re.M)
        m = re.search(r"^INTERP cases=(\d+) executions=(\d+) accepted=(\d+) slices=(\d+)", so, re.M)
        info = dict(cases=len(cases), seconds=round(time.time() - t0, 1), finished=bool(m))
        if m:
            info.update(executions=int(m.group(2)), accepted=int(m.group(3)), slices=int(m.group(4)))
        self.out[name] = info
        for h_, sig, msg in re.findall(r"^VIOL ([0-9a-f]*) (.*?) :: (.*)$", so, re.M):
            self.viol.append((sig, f"[miri {name}] {msg}", dict(build="miri-" + name, hex=h_)))
        if "error: Undefined Behavior" in err:
            i = err.find("error: Undefined Behavior")
            last = cases[-1][1] if cases else ""
            self.viol.append(("miri: undefined behavior", f"[miri {name}] {err[i:i+1200]}", dict(build="miri-" + name, hex=last)))
        elif rc is None:
            if len(cases) < 10:
                self.errs.append(f"{name}: too slow ({len(cases)} cases)")
            else:
                info["stopped_by_time_limit"] = True
        elif rc != 0:
            self.errs.append(f"{name}: ended with {rc}: {err[-1500:]}")


# ---------------------------------------------------------------------------------------
# C04: the same corpus through every build


def c04():
    th = tier() == "thorough"
    res = Result("C04")
    res.rule = (
        GEN + ", preceded by an exhaustive sweep of delimiter positions over short lengths. The complete observable "
        "result (raw parts, every typed getter, Debug output, serialized form) of each input is dumped and hashed in "
        "every build, and the hashes are compared input by input with the scalar build; NEON runs a smaller corpus "
        "under Miri. evaluations = compared pairs; distinct = distinct accepted inputs."
    )
    names = usable(["mon-rel-scalar", "mon-rel-sse2", "mon-rel-avx2"])
    if th:
        names += usable(["mon-scalar", "mon-sse2", "mon-avx2"])
    neon = Neon(th)
    neon.start()
    build_all(names)
    cases, sweep = (4_000_000, 330) if th else (400_000, 130)
    shards = ncpu()
    extra = {}
    with Scratch("C04") as sc:
        dct = os.path.join(sc, "dict")
        harvest_dict(dct)
        jobs = []
        for k in range(shards):
            for nm in names:
                jobs.append((nm, k))
        results = {}
        errs = []
        lock = threading.Semaphore(ncpu())

        def args(k):
            a = ["--seed", str(seed() * 1000 + k), "--cases", str(cases // shards), "--dict", dct]
            # only the first shard sweeps
            a += ["--sweep", str(sweep if k == 0 else 0)]
            return a

        def one(nm, k):
            with lock:
                b = BUILDS[nm]
                f = os.path.join(sc, f"{nm}.{k}")
                rc, so, err = run([b.exe(), "digest", "--out", f] + args(k), env=b.run_env(), timeout=2400, as_gb=12)
                if rc != 0:
                    errs.append((nm, k, rc, err[-800:]))
                else:
                    results[nm, k] = json.loads(so.strip().splitlines()[-1])

        ts = [threading.Thread(target=one, args=j) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            nm, k, rc, err = errs[0]
            kind = death(rc, err)
            died = {e[0] for e in errs if death(e[2], e[3])}
            ok = [n for n in names if n not in {e[0] for e in errs}]
            if kind and died and ok:
                # some builds die on a corpus that others finish: that is a difference
                res.evaluations = res.distinct = 1
                res.violation(f"dies: {kind}", f"build {nm} dies of {kind} on a corpus which {ok} finish: {err[-500:]}", build=nm,
                              cmd=["digest"] + args(k))
                return res.finish()
            raise Inconclusive(f"digest failed: {errs[:2]}")
        ref = names[0]
        differs = 0
        for k in range(shards):
            a = open(os.path.join(sc, f"{ref}.{k}"), "rb").read()
            for nm in names[1:]:
                c = open(os.path.join(sc, f"{nm}.{k}"), "rb").read()
                if len(a) != len(c):
                    raise Inconclusive("digest lengths differ")
                res.evaluations += len(a) // 8
                if a == c:
                    continue
                for i in range(0, len(a), 8):
                    if a[i : i + 8] != c[i : i + 8]:
                        differs += 1
                        if differs <= 3:
                            c04_report(res, ref, nm, args(k), i // 8)
        res.distinct = sum(results[ref, k]["distinct"] for k in range(shards))
        extra["corpus"] = dict(
            builds=names,
            inputs=sum(results[ref, k]["cases"] for k in range(shards)),
            accepted=sum(results[ref, k]["accepted"] for k in range(shards)),
            typed=sum(results[ref, k]["typed"] for k in range(shards)),
            differing=differs,
        )
        rc, so, _ = run([BUILDS[ref].exe(), "emit", "--index", "777"] + args(1), env=BUILDS[ref].run_env())
        if rc == 0:
            s = bytes.fromhex(so.strip()).decode("utf-8", "replace")
            rc, so = dump_of(BUILDS[ref], s.encode())
            res.samples.append(dict(input=s[:600], result=so[:600]))
        neon.join(res, BUILDS[ref], extra)
    res.extra = extra
    return res.finish()


def dump_of(b, data):
    f = os.path.join(WORK, f"dump-{os.getpid()}.hex")
    os.makedirs(WORK, exist_ok=True)
    with open(f, "w") as fh:
        fh.write(data.hex())
    try:
        return run([b.exe(), "dump", "--file", f], env=b.run_env())[:2]
    finally:
        os.unlink(f)


def c04_report(res, ref, nm, a, idx):
    ra, rb = BUILDS[ref], BUILDS[nm]
    rc, so, err = run([ra.exe(), "emit", "--index", str(idx)] + a, env=ra.run_env(), timeout=1200)
    if rc != 0:
        raise Inconclusive("emit failed: " + err[-500:])
    data = bytes.fromhex(so.strip())

    def dumps(d):
        return dump_of(ra, d), dump_of(rb, d)

    # shrink
    s = data.decode()
    t0 = time.time()
    step = max(1, len(s) // 2)
    while time.time() - t0 < 15:
        changed = False
        i = 0
        while i < len(s) and time.time() - t0 < 15:
            t = s[:i] + s[i + step :]
            x, y = dumps(t.encode())
            if x != y:
                s = t
                changed = True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    x, y = dumps(s.encode())
    la, lb = x[1].splitlines(), y[1].splitlines()
    diff = [(p, q) for p, q in zip(la, lb) if p != q][:3] or [(la[-1:], lb[-1:])]
    what = str(diff[0][0]).split(" ")[0] if diff else "?"
    res.violation(f"builds differ ({ref} / {nm})", f"input {s[:300]!r}: {ref} {str(diff)[:800]} {nm}", build=nm, other=ref, hex=s.encode().hex())


class Neon:
    def __init__(self, th):
        self.n = 600 if th else 60
        self.limit = 2400 if th else 420

    def start(self):
        self.t = threading.Thread(target=self._go)
        self.t.start()

    def args(self):
        return ["--seed", str(seed()), "--cases", str(self.n), "--tiny", "1", "--sweep", "0"]

    def _go(self):
        env = base_env(NIGHTLY, "")
        env["MIRIFLAGS"] = ""
        d = os.path.join(TARGET, "miri-neon")
        tgt = "aarch64-unknown-linux-gnu"
        h = repo_hash()
        st = os.path.join(d, "repo.sha256")
        if os.path.exists(st) and open(st).read() != h:
            shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "miri", "run", "--offline", "--target-dir", d, "--target", tgt, "--features", "simd", "--", "digest"] + self.args()
        self.r = run(cmd, env=env, timeout=self.limit, cwd=os.path.join(VERIF, "mon"))
        os.makedirs(d, exist_ok=True)
        open(st, "w").write(h)

    def join(self, res, ref, extra):
        self.t.join()
        rc, so, err = self.r
        m = re.search(r"^DIGEST ([0-9a-f]*)$", so, re.M)
        if "error: Undefined Behavior" in err:
            i = err.find("error: Undefined Behavior")
            res.violation("neon: undefined behavior", err[i : i + 1000], build="miri-neon")
            return
        if not m:
            raise Inconclusive(f"neon run failed ({rc}): {err[-1500:]}")
        rc, so2, err2 = run([ref.exe(), "digest"] + self.args(), env=ref.run_env())
        m2 = re.search(r"^DIGEST ([0-9a-f]*)$", so2, re.M)
        if not m2:
            raise Inconclusive("reference digest failed: " + err2[-500:])
        a, b = m.group(1), m2.group(1)
        n = len(a) // 16
        bad = [i for i in range(n) if a[16 * i : 16 * i + 16] != b[16 * i : 16 * i + 16]]
        res.evaluations += n
        extra["neon_under_miri"] = dict(inputs=n, differing=len(bad))
        for i in bad[:2]:
            rc, so, _ = run([ref.exe(), "emit", "--index", str(i)] + self.args(), env=ref.run_env())
            res.violation("builds differ (scalar / neon)", f"NEON result differs for {bytes.fromhex(so.strip()).decode('utf-8','replace')!r}",
                          build="miri-neon", hex=so.strip())


def replay(prop, j):
    """Run one recorded witness again."""
    data = bytes.fromhex(j.get("hex", ""))
    if prop == "C04":
        a, b = BUILDS[j["other"]], BUILDS[j["build"]]
        build_all([a.name, b.name])
        x, y = dump_of(a, data), dump_of(b, data)
        print(x[1], y[1], sep="\n--\n")
        return 1 if x != y else 0
    b = BUILDS.get(j["build"])
    if b is None:
        print("replay under Miri: cargo miri run ... -- check --prop", prop, "--hex", j.get("hex"))
        return 3
    build_all([b.name])
    rc, so, err = check_one(b, prop, data)
    print(so, err)
    return 1 if rc != 0 else 0
