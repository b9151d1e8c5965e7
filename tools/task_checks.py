"""C32: the setup and test tasks run with stand-ins for cargo and rustup which only record."""
import concurrent.futures
import random

from vlib import *

DIR = os.path.join(TARGET, "xtask-tasks")
BIN = os.path.join(DIR, "bin")

# records its arguments and does as told; nothing real is ever called
STANDIN = """#!/bin/bash
d="$C32_STATE"
n=0
[ -f "$d/n" ] && read -r n < "$d/n"
echo $((n+1)) > "$d/n"
{ printf '%s\\0' "${0##*/}" "$@"; } > "$d/call.$n"
if [ "$1" = --list ]; then
  while IFS= read -r l || [ -n "$l" ]; do printf '%s\\n' "$l"; done < "$d/list"
fi
[ -n "$C32_NOISE" ] && { echo "$C32_NOISE"; echo "warning: $C32_NOISE" >&2; }
if [ "$n" = "$C32_FAIL" ]; then
  case "$C32_HOW" in
    killed) kill -9 $$;;
    term) kill -15 $$;;
    *) exit "$C32_HOW";;
  esac
fi
exit 0
"""

# the task knows the path of cargo from the time it was compiled
WRAPPER = """#!/bin/bash
case " $* " in
  *" --crate-name xtask "*) export CARGO="{cargo}";;
esac
exec "$@"
"""


def write(path, text):
    tmp = f"{path}.{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(text)
    os.chmod(tmp, 0o755)
    os.replace(tmp, path)


def build():
    os.makedirs(BIN, exist_ok=True)
    for n in ("cargo", "rustup"):
        write(os.path.join(BIN, n), STANDIN)
    w = os.path.join(DIR, "rustc-wrapper")
    write(w, WRAPPER.format(cargo=os.path.join(BIN, "cargo")))
    man = os.path.join(REPO, "xtask", "Cargo.toml")
    env = base_env()
    env["RUSTC_WRAPPER"] = w
    opts = ["--offline", "--manifest-path", man, "--target-dir", DIR]
    # the crate is small; always build it afresh
    subprocess.run(["cargo", "clean", "-p", "xtask"] + opts, env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--locked"] + opts, env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Inconclusive("build xtask failed:\n" + r.stdout[-3000:])
    return os.path.join(DIR, "debug", "xtask")


ARGS = ("parse", "a b", "", "ünï 🦀", "$(touch x)", "`id`", "a;b", "'q'", '"q"', "\\", "*", "x" * 5000, "=", "a\nb", "{}", "%s", "0", "test", "setup")
DASHED = ("--release", "-p", "-", "--review", "--no-run", "--help", "-h", "--version", "--")
LISTED = ("add", "build", "b", "bench", "clippy", "insta", "fmt", "install", "nextest", "run", "test", "tree")
NEAR = ("binstaller", "cargo-binstall", "xbinstall", "binstall-x", "bins", "Binstall", "binstal", "install", "binstall_", "b")


def listing(r):
    """What `cargo --list` prints, and whether binstall is among it."""
    names = [r.choice(LISTED + NEAR) for _ in range(r.choice((0, 1, 5, 30)))]
    has = r.random() < 0.5
    if has:
        names.insert(r.randint(0, len(names)), "binstall")
    head = r.choice(("Installed Commands:", "Installed Commands: binstall", "binstall commands:"))
    out = [head]
    for n in names:
        pad = " " * r.choice((1, 4, 4, 4, 8)) if r.random() < 0.9 else "\t"
        tail = r.choice(("", "", "   see binstall", "  binstall", "    alias: binstall", " " * 20 + "Compile a local package", "\t/root/.cargo/bin/cargo-" + n))
        out.append(pad + n + tail)
    if r.random() < 0.2:
        out.append("binstall")
        out.append("note: binstall is not indented")
    return "\n".join(out) + "\n", has


class Case:
    def __init__(self, k, sd, exe, base):
        self.r = random.Random(f"C32 {sd} {k}")
        self.k, self.exe, self.base = k, exe, base
        self.viol = []
        self.hit = {}

    def run(self):
        r = self.r
        d = os.path.join(self.base, f"c{self.k}")
        os.makedirs(os.path.join(d, "work"))
        lst, has = listing(r)
        with open(os.path.join(d, "list"), "w") as f:
            f.write(lst)
        task = r.choice(("test", "setup", "setup --binary"))
        if task == "test":
            pre = [r.choice(ARGS) for _ in range(r.choice((0, 0, 1, 2, 5)))]
            post = [r.choice(ARGS + DASHED[:-1]) for _ in range(r.choice((0, 0, 1, 3)))]
            argv = ["test"] + pre + (["--"] + post if post or r.random() < 0.2 else [])
            want = [["cargo", "insta", "test", "--all-features", "--lib", "--review"] + pre + post]
        else:
            argv = task.split()
            want = []
            if task == "setup":
                want.append(["cargo", "install", "--locked", "cargo-insta"])
            else:
                want.append(["cargo", "--list"])
                if not has:
                    want.append(["cargo", "install", "cargo-binstall"])
                want.append(["cargo", "binstall", "--no-confirm", "--locked", "cargo-insta"])
            want.append(["rustup", "component", "add", "rustfmt", "clippy"])
        fail, how = None, ""
        mode = "all succeed"
        k = r.random()
        path = BIN
        if k < 0.5:
            fail = r.randrange(len(want))
            how = r.choice(("1", "2", "101", "127", "128", "255", "killed", "term"))
            mode = f"call {fail} ends with {how}"
            want = want[: fail + 1]
        elif k < 0.6 and task != "test":
            # no rustup at all
            path = os.path.join(d, "nothing")
            mode = "no rustup"
            want = want[:-1]
        noise = r.choice(("", "", "error: something", "    binstall"))
        if task == "setup --binary" and noise.strip() == "binstall":
            noise = ""
        env = dict(PATH=path, HOME=d, CARGO=os.path.join(BIN, "cargo"), CARGO_HOME=d, RUSTUP_HOME=d, LC_ALL="C.UTF-8",
                   C32_STATE=d, C32_FAIL="" if fail is None else str(fail), C32_HOW=how, C32_NOISE=noise)
        self.desc = f"xtask {argv!r}, binstall listed: {has}, {mode}, noise {noise!r}"[:600]
        pr = subprocess.Popen([self.exe] + argv, cwd=os.path.join(d, "work"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, se = pr.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid, signal.SIGKILL)
            pr.communicate()
            raise Inconclusive(f"does not end: {self.desc}")
        calls = []
        while os.path.exists(os.path.join(d, f"call.{len(calls)}")):
            with open(os.path.join(d, f"call.{len(calls)}"), "rb") as f:
                calls.append(f.read().decode().split("\0")[:-1])
        failed = fail is not None or mode == "no rustup"
        self.hit = {task: 1, "commands recorded": len(calls), "failing": int(failed), "left alone": int(not failed)}
        if task == "setup --binary":
            self.hit["binstall listed" if has else "binstall missing"] = 1
        if calls != want:
            i = next((i for i, (a, b) in enumerate(zip(calls, want)) if a != b), min(len(calls), len(want)))
            sig = "goes on after a failure" if failed and len(calls) > len(want) and calls[: len(want)] == want else "commands"
            self.viol.append((sig, f"call {i} of {len(calls)}: {str(calls[i:i+1])[:500]}, expected of {len(want)}: {str(want[i:i+1])[:500]}"))
        if failed and pr.returncode == 0:
            self.viol.append(("failure not reported", "a command failed, but the task reports success"))
        if failed and pr.returncode != 0 and not se.strip():
            self.viol.append(("failure not explained", "the task fails without a word"))
        if not failed and pr.returncode != 0:
            self.viol.append(("success not reported", f"exit {pr.returncode} although every command succeeds: {se[-300:]!r}"))
        left = os.listdir(os.path.join(d, "work"))
        if left:
            self.viol.append(("leaves files", f"{left}"))


def one(k, sd, exe, base):
    c = Case(k, sd, exe, base)
    try:
        c.run()
    finally:
        shutil.rmtree(os.path.join(base, f"c{k}"), ignore_errors=True)
    return c


def check():
    res = Result("C32")
    res.rule = (
        "A case runs the built task (`setup`, `setup --binary`, `test` with hostile arguments) with stand-ins for cargo and rustup which record their arguments, print generated command lists and "
        "succeed, fail with some status, are killed, or are missing. The recorded commands and the task's exit status are compared with what the task stands for. evaluations = runs judged; distinct = distinct cases."
    )
    res.assumptions = ["bounded by the executions listed; cargo, rustup are stand-ins"]
    exe = build()
    n = 60000 if tier() == "thorough" else 4000
    limit = 1200 if tier() == "thorough" else 90
    hits, bad, descs = {}, [], set()
    t0 = time.time()
    with Scratch("C32") as sc:

        def go(k):
            if time.time() - t0 > limit:
                return None
            try:
                return one(k, seed(), exe, sc)
            except Inconclusive as e:
                bad.append(str(e))

        with concurrent.futures.ThreadPoolExecutor(ncpu()) as ex:
            for c in ex.map(go, range(n)):
                if c is None:
                    continue
                res.evaluations += 1
                if c.desc not in descs and len(res.samples) < 4 and c.k % 7 == 2:
                    res.samples.append(dict(case=c.k, scenario=c.desc))
                descs.add(c.desc)
                for a, b in c.hit.items():
                    hits[a] = hits.get(a, 0) + b
                for sig, msg in c.viol:
                    res.violation(sig, f"(case {c.k}) {msg} [{c.desc}]", case=c.k, seed=seed())
    res.distinct = len(descs)
    res.extra = dict(monitors=hits, not_carried_out=len(bad), not_carried_out_samples=bad[:3])
    if not res.violations and len(bad) * 4 > n:
        raise Inconclusive(f"{len(bad)} of {n} cases could not be carried out: {bad[:2]}")
    return res.finish()


def replay(j):
    exe = build()
    with Scratch("C32-replay") as sc:
        c = one(j["case"], j["seed"], exe, sc)
    print(c.desc)
    for v in c.viol:
        print(*v)
    return 1 if c.viol else 0
