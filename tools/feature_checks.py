"""C31: the same corpus through builds of the crate with different sets of cargo features."""
import itertools
import threading

from vlib import *

DIR = os.path.join(TARGET, "mon-features")
FEATURES = ("simd", "client", "message-types", "serde")
ALL = [frozenset(c) for n in range(5) for c in itertools.combinations(FEATURES, n)]
REF = frozenset(FEATURES)
QUICK = [
    REF,
    frozenset(),
    frozenset(["simd"]),
    frozenset(["serde"]),
    frozenset(["client"]),
    frozenset(["message-types"]),
    frozenset(["message-types", "serde"]),
    frozenset(["client", "message-types"]),
    frozenset(["simd", "client", "message-types"]),
]


def label(fs):
    return "+".join(f for f in FEATURES if f in fs) or "none"


def exe(fs):
    return os.path.join(DIR, "exe", label(fs))


def mon_features(fs):
    out = [f for f in ("simd", "client") if f in fs]
    if "serde" in fs:
        out.append("serde" if "message-types" in fs else "bare-serde")
    elif "message-types" in fs:
        out.append("typed")
    return ",".join(out)


def prepare():
    """Fingerprints of an older tree must not survive (timestamps are not trusted)."""
    env = base_env()
    os.makedirs(os.path.join(DIR, "exe"), exist_ok=True)
    stamp = os.path.join(DIR, "repo.sha256")
    want = repo_hash()
    try:
        have = open(stamp).read()
    except OSError:
        have = None
    if have is not None and have != want:
        for prof in ("feat", "dev"):
            subprocess.run(["cargo", "clean", "--offline", "-p", "tmi", "--target-dir", DIR, "--profile", prof], cwd=os.path.join(VERIF, "mon"), env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(stamp, "w") as f:
        f.write(want)


def cargo(cwd, cmd, feats, *extra):
    c = ["cargo", cmd, "--offline", "--no-default-features", "--features", feats, "--target-dir", DIR, *extra]
    return subprocess.run(c, cwd=cwd, env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def outcome(r, fs):
    """None, or the compiler's complaint about the crate itself."""
    if r.returncode == 0:
        return None
    if "could not compile `tmi`" in r.stdout:
        return next((l for l in r.stdout.splitlines() if l.startswith("error")), "error")
    raise Inconclusive(f"build with {label(fs)} failed:\n" + r.stdout[-3000:])


def build(fs):
    r = cargo(os.path.join(VERIF, "mon"), "build", mon_features(fs), "--profile", "feat", "--bin", "mon")
    if r.returncode == 0:
        shutil.copy2(os.path.join(DIR, "feat", "mon"), exe(fs) + ".new")
        os.replace(exe(fs) + ".new", exe(fs))
    return outcome(r, fs)


def compiles(fs):
    return outcome(cargo(REPO, "check", ",".join(sorted(fs)), "--locked", "--lib"), fs)


PARTS = ("raw", "typed", "serialized")


def shared(a, b):
    """The parts which both sets of features offer."""
    out = [0]
    if "message-types" in a and "message-types" in b:
        out.append(1)
        if "serde" in a and "serde" in b:
            out.append(2)
    return out


def dumps(fs, data):
    f = os.path.join(WORK, f"dumpf-{os.getpid()}-{threading.get_ident()}.hex")
    with open(f, "w") as fh:
        fh.write(data.hex())
    r = run([exe(fs), "dumpf", "--file", f], env=base_env())
    os.unlink(f)
    return r[0], r[1].split("\n--\n")


def differ(a, b, data):
    x, y = dumps(a, data), dumps(b, data)
    if x[0] != y[0]:
        return [("exit", x[0], y[0])]
    return [(PARTS[i], x[1][i : i + 1], y[1][i : i + 1]) for i in shared(a, b) if x[1][i : i + 1] != y[1][i : i + 1]]


def report(res, fs, args, idx):
    rc, so, err = run([exe(REF), "emit", "--index", str(idx)] + args, env=base_env(), timeout=1200)
    if rc != 0:
        raise Inconclusive("emit failed: " + err[-500:])
    s = bytes.fromhex(so.strip()).decode()
    t0 = time.time()
    step = max(1, len(s) // 2)
    while time.time() - t0 < 15:
        changed = False
        i = 0
        while i < len(s) and time.time() - t0 < 15:
            t = s[:i] + s[i + step :]
            if differ(REF, fs, t.encode()):
                s = t
                changed = True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    d = differ(REF, fs, s.encode())
    part = d[0][0] if d else "?"
    what = ""
    if d and part != "exit":
        la, lb = d[0][1][0].splitlines(), d[0][2][0].splitlines()
        what = str([(p, q) for p, q in zip(la, lb) if p != q][:3] or [len(la), len(lb)])
    res.violation(f"{part} differs with {label(fs)}", f"input {s[:300]!r}: with all features / with {label(fs)}: {what[:900]}", features=sorted(fs), hex=s.encode().hex())


def check():
    th = tier() == "thorough"
    res = Result("C31")
    res.rule = (
        "The crate is compiled with every combination of its four features. The corpus of C04 (sweep of delimiter positions, then generated and mutated Twitch lines) goes through builds with "
        "different combinations; each input's raw answers (borrowed and owned), typed message and serialized form are hashed and compared with the build that has all features, as far as both "
        "offer them. evaluations = compared pairs and compiled combinations; distinct = distinct accepted inputs."
    )
    res.assumptions = ["bounded by the executions listed", "one toolchain (stable), x86-64"]
    prepare()
    sets = ALL if th else QUICK
    sets = [REF] + [s for s in sets if s != REF]
    t0 = time.time()
    if build(REF):
        raise Inconclusive("the crate does not build with all features")
    broken = {}
    for fs in sets[1:]:
        e = build(fs)
        if e:
            broken[fs] = e
    for fs in ALL:
        if fs not in sets:
            e = compiles(fs)
            if e:
                broken[fs] = e
    log(f"built {len(sets)} and checked {len(ALL) - len(sets)} combinations in {time.time() - t0:.1f} s")
    for fs, e in broken.items():
        res.violation(f"does not build with {label(fs)}", f"cargo build --no-default-features --features {','.join(sorted(fs))}: {e}", features=sorted(fs))
    res.evaluations += len(ALL)
    run_sets = [s for s in sets if s not in broken]
    cases, sweep = (2_000_000, 260) if th else (400_000, 100)
    shards = ncpu()
    results, errs = {}, []
    with Scratch("C31") as sc:
        dct = os.path.join(sc, "dict")
        harvest_dict(dct)

        def args(k):
            return ["--split", "1", "--seed", str(seed() * 1000 + 500 + k), "--cases", str(cases // shards), "--dict", dct, "--sweep", str(sweep if k == 0 else 0)]

        sem = threading.Semaphore(ncpu())

        def one(fs, k):
            with sem:
                rc, so, err = run([exe(fs), "digest", "--out", os.path.join(sc, f"{label(fs)}.{k}")] + args(k), env=base_env(), timeout=2400, as_gb=12)
                if rc != 0:
                    errs.append((fs, k, rc, err[-800:]))
                else:
                    results[fs, k] = json.loads(so.strip().splitlines()[-1])

        ts = [threading.Thread(target=one, args=(fs, k)) for k in range(shards) for fs in run_sets]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            died = {e[0] for e in errs if e[2] is not None and e[2] < 0}
            fine = [f for f in run_sets if f not in {e[0] for e in errs}]
            if died and fine:
                fs, k, rc, err = errs[0]
                res.distinct = 1
                res.violation(f"dies with {label(fs)}", f"signal {-rc} on a corpus which {[label(f) for f in fine]} finish: {err[-300:]}", features=sorted(fs), cmd=["digest"] + args(k))
                return res.finish()
            raise Inconclusive(f"digest failed: {errs[:2]}")
        differing = 0
        compared = {p: 0 for p in PARTS}
        for fs in run_sets[1:]:
            parts = shared(REF, fs)
            told = 0
            for k in range(shards):
                a = open(os.path.join(sc, f"{label(REF)}.{k}"), "rb").read()
                c = open(os.path.join(sc, f"{label(fs)}.{k}"), "rb").read()
                if len(a) != len(c):
                    raise Inconclusive("digest lengths differ")
                n = len(a) // 24
                res.evaluations += n
                for p in parts:
                    compared[PARTS[p]] += n
                if a == c:
                    continue
                for i in range(n):
                    if any(a[i * 24 + p * 8 : i * 24 + p * 8 + 8] != c[i * 24 + p * 8 : i * 24 + p * 8 + 8] for p in parts):
                        differing += 1
                        if told < 1:
                            told += 1
                            report(res, fs, args(k), i)
        res.distinct = sum(results[REF, k]["distinct"] for k in range(shards))
        res.extra = dict(
            combinations=[label(s) for s in run_sets],
            compiled=len(ALL) - len(broken),
            inputs=sum(results[REF, k]["cases"] for k in range(shards)),
            accepted=sum(results[REF, k]["accepted"] for k in range(shards)),
            typed=sum(results[REF, k]["typed"] for k in range(shards)),
            compared=compared,
            differing=differing,
        )
        for i in (777, 1234):
            rc, so, _ = run([exe(REF), "emit", "--index", str(i)] + args(1), env=base_env())
            if rc == 0:
                d = bytes.fromhex(so.strip())
                res.samples.append(dict(input=d.decode("utf-8", "replace")[:500], answers={PARTS[i]: x[:500] for i, x in enumerate(dumps(REF, d)[1][:3])}))
    return res.finish()


def replay(j):
    fs = frozenset(j["features"])
    prepare()
    if build(REF):
        raise Inconclusive("the crate does not build with all features")
    e = build(fs)
    if e:
        print(e)
        return 1
    if "hex" not in j:
        return 0
    d = differ(REF, fs, bytes.fromhex(j["hex"]))
    for x in d:
        print(*x)
    return 1 if d else 0
