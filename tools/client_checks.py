"""C17-C27: the client half (monitored by the `cli` harness) and the changelog task."""
import glob
import json
import os
import re
import shutil
import stat
import subprocess
import threading
import time

from vlib import *

CERTS = os.path.join(VERIF, "cli", "certs")

# processes, quick cases and thorough cases per process
PLAN = {
    "C17": dict(procs=16, cases=(220, 5000), rule=(
        "A case is one TLS connection and a random sequence of privmsg/reply/nonce, ping, pong, join, join_all and send_raw calls with hostile arguments "
        "(line breaks, escapes, empty, huge, unicode, IRC syntax in text), successful and refused ones mixed, with congested peers and held-up writes. The bytes the peer "
        "decrypted are compared with the lines the calls must produce, and parsed back by an independent splitter. evaluations = judged connections; distinct = distinct call sequences.")),
    "C18": dict(procs=24, cases=(14, 300), rule=(
        "A case is one TLS connection whose peer stalls and resumes reading by a random plan (small receive and send buffers, EAGAIN injected into send/writev) while messages of random "
        "sizes are sent; after the last successful call the client makes no further call, and the peer must obtain every byte of the sends that returned Ok, once and in order. "
        "evaluations = judged connections; distinct = distinct scenarios.")),
    "C19": dict(procs=16, cases=(420, 12000), rule=(
        "A case is one TLS connection on which the server sends a random log of lines (valid, invalid, not UTF-8, empty, long) in random TLS records, partial records, TCP segments and delays, while "
        "recv is called, cancelled at random polls and mixed with sends, over the whole client or its split halves. The recv results are compared with the log. "
        "evaluations = judged connections; distinct = distinct scenarios.")),
    "C20": dict(procs=16, cases=(420, 12000), rule=(
        "A case is a series of connection attempts (connect, then reconnects) against scripted replies: every order and mutation of ACK, NAK, NOTICE, 001, PING, junk, closes. The transcript at "
        "the server and the result are compared with a reference automaton. evaluations = judged scenarios; distinct = distinct scripts.")),
    "C21": dict(procs=16, cases=(420, 10000), rule=(
        "A case is a connected client, a random backoff configuration and a random sequence of per-attempt outcomes (DNS failure, refused, TLS failure, reset, bad handshake replies, success), run in "
        "virtual time. The log of attempts (instants, bytes per connection) and the result are compared with a reference policy. evaluations = judged reconnects; distinct = distinct scenarios.")),
    "C22": dict(procs=16, cases=(280, 8000), rule=(
        "A case stalls the server at one point of connect or reconnect (DNS, TCP, before/inside TLS, before/inside each reply) or answers within the limits, under random timeout configurations in "
        "virtual time; the call must end with a timeout within the bound, or succeed. evaluations = judged attempts; distinct = distinct scenarios.")),
    "C23": dict(procs=16, cases=(130, 3000), rule=(
        "A case configures a unique token, runs a random connection story (success, refusals, failures, reconnects, sends) with every tracing event and span captured at TRACE, formats everything "
        "public with Debug and Display, and searches all of it, stdout and stderr, and all bytes sent except PASS for the token. evaluations = judged stories; distinct = distinct stories.")),
    "C24": dict(procs=16, cases=(600, 15000), rule=(
        "A case is a connect or reconnect to a server with a bad identity (wrong host, sibling, parent, untrusted, self-signed, expired, not yet valid, wrong usage, CN only, IP only, issued by a non-CA) or "
        "without TLS, or a good one; the call's result, the resolver request, the port, the SNI and all application bytes at the server are judged. evaluations = judged attempts; distinct = distinct scenarios.")),
    "C25": dict(procs=16, cases=(280, 8000), rule=(
        "A case sends a random log of lines and then goes away in one of many ways (close_notify, FIN, RST, inside a record, inside a line), at a random moment relative to recv; recv is called repeatedly afterwards. "
        "The results are compared with the log and the classification. evaluations = judged connections; distinct = distinct scenarios.")),
    "C26": dict(procs=8, cases=(600, 20000), rule=(
        "A case draws bypass values and credentials through every public path (constructors, builder, connected client) and checks sequence and values. evaluations = judged cases; distinct = distinct scenarios.")),
    "C29": dict(procs=16, cases=(140, 4000), rule=(
        "A case is a connection story: connects that fail, are cancelled or dropped at random moments, then receives, cancelled sends and receives, closing servers, reconnects with failing attempts, "
        "abandoned reconnects, the drop. At every quiet moment the sockets the client has open (interposed socket/close) and the connections the server still serves are counted against what may be "
        "held; tasks left in the runtime too. Or it repeats one operation thousands of times and compares the bytes the client's thread holds. evaluations = judged stories; distinct = distinct stories.")),
    "C30": dict(procs=16, cases=(140, 4000), rule=(
        "A case connects, lets the server say things which could provoke a reaction (PING, RECONNECT, NOTICE, CLEARCHAT, CAP, 001, PART, closing), idles for virtual hours with and without a pending recv, "
        "makes calls of its own, reconnects and drops the client; per connection the plaintext the server decrypted must be the handshake plus what was asked for, and name lookups and connections "
        "must be those asked for. evaluations = judged stories; distinct = distinct stories.")),
    "C33": dict(procs=24, cases=(50, 900), rule=(
        "A case is one to three TLS connections, about half with a reader too slow for what is sent, and a random sequence of sends, receives and reconnects whose futures are polled a random number of "
        "times and dropped, mixed with calls which are awaited. Per connection the lines the peer decrypted must be those of the awaited sends in call order, with each cancelled send's line between "
        "them once or not at all, whole; every line the peer sent must be received once, in order, although receives were dropped; after reconnects which were given up at any point the next one must "
        "succeed and carry its own handshake and calls only. evaluations = judged stories; distinct = distinct stories.")),
}


def ip_of(prop, k):
    """Loopback addresses of their own for every check, run and process."""
    return f"127.{100 + int(prop[1:])}.{os.getpid() % 250}.{2 + k % 250}"


def one(b, prop, case, seed_, ip, sc, limit=240):
    """Run a single case alone; (json or None, returncode, text)."""
    out = os.path.join(sc, f"one-{case}-{time.time_ns()}.json")
    cmd = [b.exe(), "one", "--prop", prop, "--case", str(case), "--seed", str(seed_), "--ip", ip, "--certs", CERTS, "--out", out, "--stuck", "60"]
    rc, so, err = run(cmd, env=b.run_env(), timeout=limit, as_gb=12)
    j = None
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        pass
    return j, rc, (so + err)[-3000:]


def check_prop(prop):
    if prop == "C27":
        return c27()
    plan = PLAN[prop]
    th = tier() == "thorough"
    res = Result(prop)
    res.rule = plan["rule"]
    res.assumptions = [
        "bounded by the executions listed; the scripted peer, rustls and the monitors in cli/src are trusted",
    ]
    b = BUILDS["cli"]
    build_all(["cli"])
    procs, cases = plan["procs"], plan["cases"][1 if th else 0]
    limit = 3000 if th else 150
    hits, errors, nerr, ncase, stuck, died = {}, [], 0, 0, [], []
    timing = []
    lock = threading.Lock()
    with Scratch(prop) as sc:
        outs = {}

        def go(k, sd, first=True):
            nonlocal nerr, ncase
            out = os.path.join(sc, f"{k}.json")
            cmd = [b.exe(), "run", "--prop", prop, "--cases", str(cases), "--seed", str(sd), "--ip", ip_of(prop, k), "--certs", CERTS, "--out", out, "--limit", str(limit), "--stuck", "100"]
            rc, so, err = run(cmd, env=b.run_env(), timeout=limit + 180, as_gb=12)
            with lock:
                if rc == 0:
                    outs[k] = (sd, json.load(open(out)))
                elif rc == 5:
                    m = re.search(r"^STUCK (\d+)\n(.*)", so, re.M | re.S)
                    stuck.append((sd, k, int(m.group(1)) if m else -1, (m.group(2) if m else so)[:1500]))
                else:
                    died.append((sd, k, rc, err[-1500:]))

        ts = [threading.Thread(target=go, args=(k, seed() * 1000 + k)) for k in range(procs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        distinct = 0
        for k in sorted(outs):
            sd, j = outs[k]
            res.evaluations += j["decided"]
            distinct += j["distinct"]
            ncase += j["cases"]
            nerr += j["error_count"]
            errors += [dict(seed=sd, **e) for e in j["errors"]][:3]
            for h, n in j["hits"].items():
                hits[h] = hits.get(h, 0) + n
            for s in j["samples"][:1]:
                res.samples.append(dict(seed=sd, scenario=s))
            for v in j["violations"]:
                if v["sig"].startswith("slow:") or prop == "C22":
                    timing.append((sd, v))
                    continue
                res.violation(v["sig"], f"({v['count']}x, case {v['case']} seed {sd}) {v['msg']}", case=v["case"], seed=sd)
        res.distinct = distinct
        # what depends on real time is believed only if it happens again, alone
        unconfirmed = 0
        tried = {}
        for sd, v in timing:
            if tried.get(v["sig"], 0) >= 3:
                continue
            tried[v["sig"]] = tried.get(v["sig"], 0) + 1
            again = None
            for _ in range(3):
                j, rc, txt = one(b, prop, v["case"], sd, ip_of(prop, 0), sc)
                again = j and [w for w in j["violations"] if w["sig"] == v["sig"]]
                if not again:
                    break
            if again:
                res.violation(v["sig"], f"(case {v['case']} seed {sd}, 4 times out of 4) {again[0]['msg']}", case=v["case"], seed=sd)
            else:
                unconfirmed += 1
        lost = 0
        for sd, k, case, txt in stuck[:6]:
            n = 0
            for _ in range(2):
                j, rc, t2 = one(b, prop, case, sd, ip_of(prop, 0), sc)
                if rc == 5:
                    n += 1
            if n == 2:
                res.evaluations += 1
                res.distinct += 1
                res.violation("never ends", f"(case {case} seed {sd}) a scenario does not end although every step of it must: {txt}", case=case, seed=sd)
                break
            lost += 1
        for sd, k, rc, err in died[:3]:
            if rc is not None and (rc < 0 or rc == 101 or rc == 134):
                # a crash of the process is the client's or the harness's: say so only if it repeats
                out = os.path.join(sc, f"again-{k}.json")
                cmd = [b.exe(), "run", "--prop", prop, "--cases", str(cases), "--seed", str(sd), "--ip", ip_of(prop, k), "--certs", CERTS, "--out", out, "--limit", str(limit)]
                rc2, so2, err2 = run(cmd, env=b.run_env(), timeout=limit + 180, as_gb=12)
                if rc2 == rc:
                    res.evaluations += 1
                    res.distinct += 1
                    res.violation(f"dies: {rc}", f"the process dies: {err2[-1200:]}", seed=sd, cmd=cmd[1:])
    res.extra = dict(
        processes=procs,
        cases=ncase,
        monitors=hits,
        not_carried_out=nerr,
        not_carried_out_samples=errors[:4],
        timing_alarms_not_confirmed=unconfirmed,
        stuck_not_confirmed=lost,
    )
    if not res.violations:
        if len(outs) < max(1, procs // 2):
            raise Inconclusive(f"{len(outs)} of {procs} processes finished; stuck {stuck[:2]} died {died[:2]}")
        if nerr * 4 > ncase:
            raise Inconclusive(f"{nerr} of {ncase} cases could not be carried out: {errors[:4]}")
    return res.finish()


def replay(prop, j):
    if prop == "C27":
        return c27_replay(j)
    b = BUILDS["cli"]
    build_all(["cli"])
    with Scratch(prop + "-replay") as sc:
        r, rc, txt = one(b, prop, j["case"], j["seed"], ip_of(prop, 0), sc)
    print(txt)
    for v in (r or {}).get("violations", []):
        print(v["sig"], v["msg"])
    return 1 if rc in (1, 5) else (0 if rc == 0 else 3)


# ---------------------------------------------------------------------------------------
# C27: the changelog task on scratch repositories

XTASK_DIR = os.path.join(TARGET, "xtask")
LINK = "https://github.com/jprochazk/tmi-rs/"


def build_xtask():
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "xtask", "Cargo.toml"), "--target-dir", XTASK_DIR]
    os.makedirs(XTASK_DIR, exist_ok=True)
    stamp = os.path.join(XTASK_DIR, "repo.sha256")
    want = repo_hash()
    env = base_env()
    try:
        have = open(stamp).read()
    except OSError:
        have = None
    if have is not None and have != want:
        subprocess.run(["cargo", "clean", "--offline", "-p", "xtask"] + cmd[4:], env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Inconclusive("build xtask failed:\n" + r.stdout[-3000:])
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(XTASK_DIR, "debug", "xtask")


# a `git` which passes everything on, except for the call it was told to spoil
FAKE_GIT = """#!/bin/bash
d="$C27_STATE"
n=$(cat "$d/n" 2>/dev/null || echo 0)
echo $((n+1)) > "$d/n"
printf '%s\\n' "$*" >> "$d/calls"
[ -n "$C27_NOISE" ] && echo "warning: $C27_NOISE" >&2
if [ "$n" = "$C27_FAIL" ]; then
  case "$C27_HOW" in
    silent) exit 1;;
    loud) echo "fatal: bad object" >&2; exit 128;;
    after) "$C27_GIT" "$@"; exit 1;;
    half) "$C27_GIT" "$@" | head -c 5; exit 141;;
    killed) "$C27_GIT" "$@"; kill -9 $$;;
  esac
fi
exec "$C27_GIT" "$@"
"""

WORDS = ("fix the tag parser", "feat: badges", "Add `Foo::bar`", "Merge pull request #12 from a/b", "0.7.0", "déjà vu — ünï", "日本語のコミット", "* bullet", "- item", "# Heading",
         "[link](https://example.com)", "[abcdef1](https://github.com/jprochazk/tmi-rs/commit/abcdef1)", "commit 0123456789abcdef", "tab\there", "%h %B %n", "{0}..{1}", "$(true) `true`",
         "\\n literal", "Signed-off-by: A <a@b>", "a" * 300, "e\u0301", "🦀🦀", "<b>html</b>", "\"quoted\" 'single'", "Author: nobody", "Date:   never", "diff --git a/x b/x", "+plus", "    indented")


def c27_message(r):
    k = r.random()
    if k < 0.04:
        return ""
    first = r.choice(WORDS) if r.random() < 0.7 else " ".join(r.choice(WORDS) for _ in range(2))
    body = ""
    for _ in range(r.choice((0, 0, 0, 1, 2, 5))):
        body += r.choice(("\n", "\n\n", "\n\n\n", "\r\n")) + r.choice(WORDS)
    return first + body + r.choice(("", "\n", "\n", "\n\n", "\n \n"))


class C27Case:
    def __init__(self, k, seed_, exe, git, base):
        import random

        self.r = random.Random(f"C27 {seed_} {k}")
        self.k, self.exe, self.git = k, exe, git
        self.dir = os.path.join(base, f"c{k}")
        self.hit = {}
        self.desc = ""
        self.viol = []

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
        e.update(HOME=self.dir, GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=self.dir, XDG_CONFIG_HOME=self.dir, LC_ALL="C.UTF-8", **kw)
        return e

    def g(self, *a, inp=None):
        p = subprocess.run([self.git, *a], cwd=self.repo, env=self.env(), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise Inconclusive(f"git {a}: {p.stderr.decode(errors='replace')[-500:]}")
        return p.stdout

    def history(self):
        """Commits in creation order: mark -> message; through fast-import, so any message goes."""
        r = self.r
        n = r.choice((1, 2, 3, 3, 5, 8, 20))
        out = bytearray()
        msgs, heads, parents = {}, [], {}
        t = 1_500_000_000
        total = n + 1
        side = None
        for m in range(1, total + 1):
            msg = c27_message(r)
            if m == 1:
                msg = "initial\n"
            data = msg.encode()
            if self.bad_utf8 and m == total:
                data = b"latin \xe9\xff\n"
            t += r.choice((0, 1, 60, 86400, -3600))
            ps = []
            if m > 1:
                ps = [m - 1]
                if m > 2 and r.random() < 0.25:
                    # a merge with something older
                    ps.append(r.randint(1, m - 2))
            out += b"commit refs/heads/main\nmark :%d\n" % m
            who = r.choice(("A <a@b>", "Ünï <u@x>", "[x](y) <z@z>"))
            out += f"author {who} {t} +0000\ncommitter {who} {t} +0200\n".encode()
            out += b"data %d\n" % len(data) + data + b"\n"
            for i, p in enumerate(ps):
                out += (b"from" if i == 0 else b"merge") + b" :%d\n" % p
            out += b"M 100644 inline f%d\ndata 2\nx\n\n" % (m % 3)
            msgs[m] = data
        self.g("fast-import", "--quiet", "--export-marks=" + os.path.join(self.dir, "marks"), inp=bytes(out))
        h = {}
        for l in open(os.path.join(self.dir, "marks")):
            a, b = l.split()
            h[int(a[1:])] = b
        return total, msgs, h

    def run(self):
        r = self.r
        self.repo = os.path.join(self.dir, "repo")
        os.makedirs(self.repo)
        self.bad_utf8 = r.random() < 0.04
        self.g("init", "-q", "-b", "main", ".")
        if r.random() < 0.3:
            self.g("config", "core.abbrev", r.choice(("4", "12", "40")))
        if r.random() < 0.2:
            self.g("config", "color.ui", "always")
        if r.random() < 0.2:
            self.g("config", "log.decorate", "full")
        if r.random() < 0.2:
            self.g("config", "log.date", "relative")
        total, msgs, h = self.history()
        self.g("reset", "-q", "--hard", "main")
        full = {h[m]: msgs[m] for m in h}
        # the range
        a = r.randint(1, total - 1)
        b = r.randint(a + 1, total) if r.random() < 0.4 else None
        since, until = h[a], h[b] if b else None
        name = r.choice(("0.6.1", "v1.2.3", "rel/2", "main-old", None))
        if name:
            self.g("tag", name, h[a])
            since = name
        if b and r.random() < 0.5:
            self.g("tag", "until-tag", h[b])
            until = "until-tag"
        elif b == total and r.random() < 0.5:
            until = r.choice(("main", "HEAD"))
        old = r.choice((
            "", "# Changelog\n", "## 0.6.1\n\nThis is a bugfix release.\n\nFull commit range: [a..b](https://x)\n", "no newline at the end", "\r\nwindows\r\n", "\n\n\nblank first\n",
            "ünï 🦀\n" * 40, "x" * 70000 + "\n", "trailing blank lines\n\n\n\n", "{existing_changelog} {0}\n", "   leading blanks\n",
        ))
        p = os.path.join(self.repo, "CHANGELOG.md")
        with open(p, "w", newline="") as f:
            f.write(old)
        want = self.g("rev-list", f"{since}..{until or 'HEAD'}").decode().split()
        if r.random() < 0.5:
            # whatever lies in the working tree or index is none of the task's business
            with open(os.path.join(self.repo, "untracked"), "w") as f:
                f.write("x")
        fail = None
        how = ""
        k = r.random()
        mode = "fine"
        if k < 0.30:
            fail = r.randint(0, 2 + 2 * len(want)) if r.random() < 0.5 else r.randint(0, 2)
            how = r.choice(("silent", "loud", "after", "half", "killed"))
            mode = "git fails"
        elif k < 0.37:
            since = r.choice(("no-such-tag", "0" * 40, "refs/x"))
            mode = "no such revision"
        elif k < 0.40:
            shutil.rmtree(os.path.join(self.repo, ".git"))
            mode = "no repository"
        elif k < 0.42:
            mode = "no git"
        noise = r.choice(("", "", "LF will be replaced", "[fake](https://github.com)"))
        state = os.path.join(self.dir, "state")
        os.makedirs(state)
        bind = os.path.join(os.path.dirname(self.dir), "bin")
        if mode == "no git":
            bind = os.path.join(self.dir, "empty")
        path = bind + ":/usr/bin:/bin" if mode != "no git" else bind
        env = self.env(C27_STATE=state, C27_FAIL="" if fail is None else str(fail), C27_HOW=how, C27_GIT=self.git, C27_NOISE=noise)
        env["PATH"] = path
        cmd = [self.exe, "changelog", "--since", since] + (["--until", until] if until else [])
        self.desc = f"{total} commits, range {since}..{until or '(HEAD)'} with {len(want)} commits, {mode} {fail} {how} {noise!r}, old {old[:30]!r}"
        pr = subprocess.Popen(cmd, cwd=self.repo, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            so, se = pr.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.communicate()
            raise Inconclusive(f"changelog does not end: {self.desc}")
        with open(p, newline="", encoding="utf-8", errors="surrogateescape") as f:
            new = f.read()
        try:
            made = int(open(os.path.join(state, "n")).read())
        except (OSError, ValueError):
            made = 0
        failed = mode in ("no such revision", "no repository", "no git") or (mode == "git fails" and fail < made)
        self.count(mode if failed else "git works")
        self.count("git calls", made)
        others = sorted(x for x in os.listdir(self.repo) if x not in (".git", "CHANGELOG.md", "untracked") and not re.fullmatch(r"f\d", x))
        if others:
            self.v("other files", f"left behind {others}")
        if failed:
            if new != old:
                self.v("touched after a failure", f"git failed, but CHANGELOG.md changed: {new[:300]!r}")
            if pr.returncode == 0:
                self.v("failure not reported", "git failed, but the task reports success")
            return
        if self.bad_utf8 and h[total] in want:
            # not text: either way is fine, but not half of it
            if pr.returncode != 0 and new != old:
                self.v("touched after a failure", f"the task failed, but CHANGELOG.md changed: {new[:300]!r}")
            return
        if pr.returncode != 0:
            self.v("failed", f"exit {pr.returncode} although git works: {se.decode(errors='replace')[-300:]}")
            return
        if not new.endswith(old):
            self.v("old text", f"the old content is not at the end: ...{new[-200:]!r}")
            return
        head = new[: len(new) - len(old)]
        if old.strip() and not head.endswith("\n"):
            self.v("old text", f"the old content does not start on a line of its own: {head[-80:]!r}")
        lines = [l.strip() for l in head.split("\n") if l.strip()]
        m = re.fullmatch(r"\[(\S+?)\.\.(\S+)\]\(" + re.escape(LINK) + r"compare/(\S+?)\.\.\.(\S+)\)", lines[0]) if lines else None
        end = h[b] if b else h[total]
        if not m or m.group(1) != since or m.group(3) != since or m.group(2) != m.group(4):
            self.v("range link", f"the text starts with {lines[:1]!r}")
            return
        if self.resolve(m.group(2), full) != end:
            self.v("range link", f"the range link ends at {m.group(2)} instead of {end[:12]} ({msgs[b or total][:40]!r})")
        exp, got = [], lines[1:]
        short = dict(l.split() for l in self.g("log", "--pretty=format:%H %h", f"{since}..{until or 'HEAD'}").decode().split("\n"))
        ok = False
        for form in (short, {c: c for c in want}):
            exp = []
            for c in want:
                ml = [l.strip() for l in full[c].decode().split("\n")]
                while ml and not ml[0]:
                    ml.pop(0)
                first = ml[0] if ml else ""
                exp.append(f"{first} [{form[c]}]({LINK}commit/{form[c]})".strip())
                exp += [l for l in ml[1:] if l]
            if [" ".join(l.split()) for l in exp] == [" ".join(l.split()) for l in got]:
                ok = True
                break
        self.count("entries", len(want))
        if not ok:
            i = next((i for i, (x, y) in enumerate(zip(exp, got)) if x != y), min(len(exp), len(got)))
            self.v("entries", f"line {i}: {got[i:i+2]!r}; (full-hash form) expected {exp[i:i+2]!r}; {len(got)} lines, {len(exp)} expected")

    def resolve(self, x, full):
        try:
            return self.g("rev-parse", "--verify", "-q", x + "^{commit}").decode().strip()
        except Inconclusive:
            return None

    def count(self, k, n=1):
        self.hit[k] = self.hit.get(k, 0) + n

    def v(self, sig, msg):
        self.viol.append((sig, msg))


def fake_git(base):
    bind = os.path.join(base, "bin")
    os.makedirs(bind)
    with open(os.path.join(bind, "git"), "w") as f:
        f.write(FAKE_GIT)
    os.chmod(os.path.join(bind, "git"), 0o755)


def c27_one(k, sd, exe, git, base):
    c = C27Case(k, sd, exe, git, base)
    try:
        c.run()
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)
    return c


def c27():
    import concurrent.futures

    res = Result("C27")
    res.rule = (
        "A case is a scratch git repository with a generated history (merges, equal and decreasing dates, hostile messages, configurations), a range, an old CHANGELOG.md and possibly a spoiled git "
        "(fails silently, loudly, after or during its output, killed, missing). The task runs there and its file and exit status are compared with the history. evaluations = runs judged; distinct = distinct cases."
    )
    res.assumptions = ["bounded by the executions listed; trusts git rev-list for the order of commits"]
    exe = build_xtask()
    git = shutil.which("git")
    if not git:
        raise Inconclusive("no git")
    n = 40000 if tier() == "thorough" else 3000
    limit = 2400 if tier() == "thorough" else 120
    hits, bad, descs = {}, [], set()
    t0 = time.time()
    with Scratch("C27") as sc:
        fake_git(sc)

        def go(k):
            if time.time() - t0 > limit:
                return None
            try:
                return c27_one(k, seed(), exe, git, sc)
            except Inconclusive as e:
                bad.append(str(e))

        with concurrent.futures.ThreadPoolExecutor(ncpu()) as ex:
            for c in ex.map(go, range(n)):
                if c is None:
                    continue
                res.evaluations += 1
                if c.desc not in descs and len(res.samples) < 4 and c.k % 9 == 2:
                    res.samples.append(dict(case=c.k, scenario=c.desc))
                descs.add(c.desc)
                for a, b in c.hit.items():
                    hits[a] = hits.get(a, 0) + b
                for sig, msg in c.viol:
                    res.violation(sig, f"(case {c.k}) {msg} [{c.desc}]", case=c.k, seed=seed())
    res.distinct = len(descs)
    res.extra = dict(monitors=hits, not_carried_out=len(bad), not_carried_out_samples=bad[:3])
    if not res.violations and len(bad) * 4 > n:
        raise Inconclusive(f"{len(bad)} of {n} cases could not be carried out: {bad[:2]}")
    return res.finish()


def c27_replay(j):
    exe = build_xtask()
    with Scratch("C27-replay") as sc:
        fake_git(sc)
        c = c27_one(j["case"], j["seed"], exe, shutil.which("git"), sc)
    print(c.desc)
    for v in c.viol:
        print(*v)
    return 1 if c.viol else 0
