"""C28: the cost of one line grows at most in proportion to its length."""
import re
from concurrent.futures import ThreadPoolExecutor

from vlib import *

SIZES = [4096, 16384, 65536, 262144]
PRODUCT = "badges x info"
# shapes with the most elements per byte: formatting them is measured at all sizes in every tier
DENSE = ["empty tags", "same tag", "same badge", "slashes", "emotes", "bad escapes", "text"]
RULE = (
    "Adversarial lines of 4, 16, 64 and 256 KiB that repeat one element (tags of every kind, badges, badge-info, escapes, "
    "separators, prefix, channel, params, text, names, every message type, and seeded random patterns in every slot) are "
    "parsed, converted, queried, copied ('core'), formatted, unescaped, serialized ('format') and printed as raw messages ('print'). Callgrind counts the "
    "instructions, a counting allocator the bytes requested and held. The cost per added byte between successive sizes must "
    "not grow (limit: factor 2 for instructions, 2.5 for memory; a quadratic term makes it 4). evaluations = measured runs; "
    "distinct = distinct lines measured."
)


def exe_of(b):
    return os.path.join(os.path.dirname(BUILDS[b].exe()), "cost")


def base(b, shape, n, group, opts):
    return [exe_of(b), "--shape", shape, "--n", str(n), "--group", group] + opts


def measure(b, shape, n, group, opts, timeout):
    cmd = ["valgrind", "--tool=callgrind", "--toggle-collect=mon_cost_measured", "--callgrind-out-file=/dev/null"]
    rc, so, err = run(cmd + base(b, shape, n, group, opts), env=BUILDS[b].run_env(), timeout=timeout)
    if rc is None:
        return None
    m = re.search(r"LEN (\d+) TOTAL (\d+) PEAK (\d+)", so)
    c = re.search(r"Collected : (\d+)", err)
    if rc != 0 or not m or not c:
        return "died", rc, err[-600:]
    return dict(len=int(m.group(1)), allocated=int(m.group(2)), held=int(m.group(3)), instructions=int(c.group(1)))


def slope(a, b, k):
    return (b[k] - a[k]) / max(1, b["len"] - a["len"])


LIMITS = [("instructions", 2.0, 0.5), ("allocated", 2.5, 4.0), ("held", 2.5, 4.0)]


def sizes(shape, group):
    if shape == PRODUCT:
        return SIZES[:2]
    if group != "core" and tier() != "thorough" and shape not in DENSE:
        return SIZES[:3]
    return SIZES


def judge(shape, pts, final):
    """What is wrong with the points measured so far, or None."""
    if shape == PRODUCT:
        if len(pts) >= 2:
            a, b = pts[-2], pts[-1]
            if b["instructions"] > 24 * a["instructions"]:
                return f"instructions grow from {a['instructions']} to {b['instructions']} for four times as many badges and badge-infos"
        return None
    if len(pts) == 2:
        a, b = pts
        for k, _, _ in LIMITS:
            if b[k] > 10 * a[k] and b[k] > 100_000:
                return f"{k}: {a[k]} for {a['len']} bytes, {b[k]} for {b['len']} bytes"
        return None
    if len(pts) < 3:
        return None
    s1, s2 = pts[-3:-1], pts[-2:]
    for k, lim, floor in LIMITS:
        x, y = slope(s1[0], s1[1], k), slope(s2[0], s2[1], k)
        if y > floor and y > max(x, floor) * (lim if final else lim + 1):
            return (f"{k} per added byte: {x:.1f} between {s1[0]['len']} and {s1[1]['len']} bytes, "
                    f"{y:.1f} between {s2[0]['len']} and {s2[1]['len']} bytes")
    return None


def one(b, shape, group, opts):
    pts = []
    runs = 0
    todo = sizes(shape, group)
    for n in todo:
        r = measure(b, shape, n, group, opts, 300)
        runs += 1
        if r is None:
            # the same natively, bounded by CPU time: 256 KiB normally take well under a second
            p = ["bash", "-c", "ulimit -t 30; exec \"$@\"", "sh"] + base(b, shape, n, group, opts)
            rc, _, _ = run(p, env=BUILDS[b].run_env(), timeout=300)
            if rc in (-9, -24, 137, 152):
                return pts, runs, f"{n} bytes take more than 30 s of CPU time (earlier: {pts})"
            if n > SIZES[0] and pts:
                # too slow for the instrument at this size, not natively: compare what there is
                return pts, runs, None
            raise Inconclusive(f"{shape}/{group}/{n}: valgrind too slow")
        if isinstance(r, tuple):
            return pts, runs, ("died", r)
        pts.append(r)
        bad = judge(shape, pts, len(pts) == len(todo))
        if bad:
            return pts, runs, bad
    return pts, runs, None


def check():
    th = tier() == "thorough"
    res = Result("C28")
    res.rule = RULE
    res.assumptions = ["growth is judged up to 256 KiB; instruction counts are those of the optimised build"]
    builds = usable(["cost"] + (["cost-avx2", "cost-scalar"] if th else []))
    build_all(builds)
    rounds = [("cost", k) for k in range(20 if th else 1)]
    if th:
        rounds += [(b, 100) for b in builds[1:]]
    table = {}
    died = 0
    for b, k in rounds:
        opts = ["--seed", str(seed() * 1000 + k), "--random", "80" if th else "40"]
        rc, so, err = run([exe_of(b), "--list", "--n", "300"] + opts, env=BUILDS[b].run_env())
        if rc != 0:
            raise Inconclusive("cost --list failed: " + err[-500:])
        shapes = [l.split("\t")[0] for l in so.splitlines()]
        if k:
            shapes = [s for s in shapes if k == 100 or s.startswith("random")]
        jobs = [(s, g) for s in shapes for g in ("core", "format", "print")]
        with ThreadPoolExecutor(ncpu()) as ex:
            out = list(ex.map(lambda j: (j, one(b, j[0], j[1], opts)), jobs))
        seen = set()
        for (s, g), (pts, runs, bad) in out:
            res.evaluations += runs
            seen |= {(s, p["len"]) for p in pts}
            if isinstance(bad, tuple):
                died += 1
                continue
            if len(pts) > 1:
                table[f"{b}/{k}/{s}/{g}"] = [round(slope(pts[i], pts[i + 1], "instructions"), 1) for i in range(len(pts) - 1)]
            if len(res.samples) < 6 and len(pts) >= 3 and (len(table) % 17) == 3:
                res.samples.append(dict(shape=s, group=g, points=pts))
            if bad:
                res.violation(f"cost {s} {g}", f"shape {s!r} ({g}, build {b}): {bad}", build=b, shape=s, group=g, opts=opts)
        res.distinct += len(seen)
    res.extra = dict(instructions_per_added_byte=table, shapes_that_died=died)
    return res.finish()


def replay(j):
    build_all([j["build"]])
    pts, _, bad = one(j["build"], j["shape"], j["group"], j["opts"])
    for p in pts:
        print(p)
    print(bad)
    return 1 if bad else 0
