#!/usr/bin/env python3
"""Driver of the checks.  python3 check.py C01 [--tier quick|thorough] [--replay FILE]

Builds the harness against /repo's working tree in the configurations a property needs, runs the
generated cases in parallel, writes evidence/<id>.json, and on a violation a replay file.
Exit 0: held on everything explored.  1: violated.  2: no answer (the check itself failed).
"""
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
HOST = "x86_64-unknown-linux-gnu"
CORES = min(8, os.cpu_count() or 8)
T0 = time.time()

# name -> profile, features, further settings
CONFIGS = {
    "std": dict(profile="checked", features="std"),
    "stdrel": dict(profile="release", features="std"),
    "nostd": dict(profile="checked", features=""),
    "small": dict(profile="checked", features="alloc,small-hash"),
    "smallstd": dict(profile="release", features="std,small-hash"),
    "io": dict(profile="checked", features="io"),
    "serde": dict(profile="checked", features="std,serde,schemars"),
    "serdesmall": dict(profile="checked", features="io,serde,small-hash"),
    "all": dict(profile="release", features="std,alloc,io,serde,schemars,small-hash"),
    "fuzzcfg": dict(profile="checked", features="std", rustflags="--cfg hashes_fuzz"),
    "fuzzcfgrel": dict(profile="release", features="", rustflags="--cfg hashes_fuzz"),
    "asan": dict(profile="checked", features="std", toolchain="+nightly", target=HOST,
                 rustflags="-Zsanitizer=address"),
    "asansmall": dict(profile="checked", features="alloc,small-hash", toolchain="+nightly",
                      target=HOST, rustflags="-Zsanitizer=address"),
    "miri": dict(features="std", miri=HOST),
    "mirisha": dict(features="std", miri=HOST,
                    rustflags="-Ctarget-feature=+sha,+sse2,+ssse3,+sse4.1"),
    "miris390x": dict(features="std", miri="s390x-unknown-linux-gnu"),
    "mirii686": dict(features="std", miri="i686-unknown-linux-gnu"),
    "miriarmeb": dict(features="", miri="powerpc-unknown-linux-gnu"),
    "miris390xsmall": dict(features="alloc,small-hash", miri="s390x-unknown-linux-gnu"),
}

CORE = ["std", "stdrel", "nostd", "small", "smallstd"]

# property -> list of (config, random cases quick, random cases thorough, extra)
PLAN = {
    "C01": [(c, 150_000, 6_000_000, {}) for c in CORE],
    "C02": [(c, 200_000, 5_000_000, {}) for c in CORE],
    "C03": [(c, 400_000, 8_000_000, {}) for c in CORE],
    "C04": [(c, 250_000, 6_000_000, {}) for c in CORE],
    "C05": [(c, 250_000, 6_000_000, {}) for c in CORE],
    "C06": [(c, 300_000, 8_000_000, {}) for c in CORE],
    "C07": [(c, 200_000, 4_000_000, {}) for c in CORE],
    "C08": [(c, 1_000_000, 20_000_000, {}) for c in ["std", "stdrel", "nostd"]],
    "C09": [(c, 800_000, 15_000_000, {}) for c in ["std", "stdrel", "nostd"]],
    "C10": [(c, 500_000, 15_000_000, {}) for c in ["std", "stdrel"]],
    "C11": [("serde", 400_000, 6_000_000, {}), ("serdesmall", 200_000, 3_000_000, {}),
            ("all", 200_000, 3_000_000, {})],
    "C12": [("serde", 200_000, 1_500_000, {}), ("all", 100_000, 1_500_000, {})],
    "C13": [("std", 150_000, 4_000_000, {}), ("stdrel", 150_000, 4_000_000, {}),
            ("io", 80_000, 2_000_000, {})],
    "C14": [("std", 60_000, 2_000_000, {}), ("nostd", 60_000, 2_000_000, {}),
            ("small", 60_000, 2_000_000, {}), ("all", 60_000, 2_000_000, {})],
    "C15": [("miris390x", 600, 8_000, dict(cap=200, sweep_max=400)),
            ("mirii686", 450, 6_000, dict(cap=200, sweep_max=300)),
            ("miriarmeb", 300, 6_000, dict(cap=200, sweep_max=200)),
            ("std", 20_000, 500_000, {})],
    "C16": [(c, 500_000, 15_000_000, {}) for c in ["std", "stdrel"]],
    "C17": [("std", 300, 6_000, {}), ("stdrel", 300, 6_000, {})],
    "C18": [("asan", 150_000, 5_000_000, {}), ("asansmall", 80_000, 2_000_000, {}),
            ("miri", 700, 10_000, dict(cap=200, sweep_max=400)),
            ("mirisha", 300, 5_000, dict(cap=200, sweep_max=100))],
    "C19": [("std", 80_000, 1_500_000, {}), ("stdrel", 80_000, 1_500_000, {}),
            ("small", 40_000, 500_000, {})],
    "C20": [("fuzzcfg", 200_000, 5_000_000, {}), ("fuzzcfgrel", 100_000, 3_000_000, {})],
}
if os.environ.get("VERIF_TIER") == "thorough":
    PLAN["C15"].append(("miris390xsmall", 0, 6_000, dict(cap=200, sweep_max=500)))

ASSUME = {
    "*": ["The reference implementations in harness/src/refimpl.rs (compared with published test vectors at every run) are right.",
          "Generated inputs are a sample: a fault that needs an input no generator reaches is not seen."],
    **{c: ["Digests of the messages of 2^29 and 2^32 bytes come from Python's hashlib and hmac (giant.json)."]
       for c in ("C01", "C02", "C04", "C05", "C07", "C13")},
    "C03": ["Digests of the messages of 2^29 and 2^32 bytes come from the reference (giant.json)."],
    "C14": ["Feature combinations equal after `std` implies `alloc` are built once."],
    "C15": ["Miri's s390x, i686 and powerpc targets behave as those machines do."],
    "C17": ["Addresses of executed instructions stand for timing; caches and operand-dependent latency of single instructions are out of scope."],
    "C18": ["Messages under Miri are at most a few hundred bytes; AddressSanitizer runs see all sizes."],
}


class NoAnswer(Exception):
    pass


class BuildError(Exception):
    def __init__(self, config, log, inside):
        super().__init__(f"{config}: build failed")
        self.config, self.log, self.inside = config, log, inside


def say(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        for d, _, fs in os.walk(p):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    return h.hexdigest()


RHASH = repo_hash()


ESC = r"\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\\n\s*|\\."


def escaped(x):
    """The bytes of an escape sequence of a Rust string."""
    if x[1] == "u":
        return chr(min(int(x[3:-1].replace("_", ""), 16), 0x10FFFF)).encode("utf-8", "replace") if len(x) > 3 else b"u"
    if x[1] == "x" and len(x) == 4:
        return bytes([int(x[2:], 16)])
    return {"n": b"\n", "r": b"\r", "t": b"\t", "0": b"\0", "\n": b""}.get(x[1], x[1].encode("utf-8", "replace"))


def literals():
    """How often each number and each string occurs in the sources (comments and tests left out)."""
    nums, texts = {}, {}
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f), errors="replace") as fh:
                t = fh.read()
            t = re.split(r"^#\[cfg\(test\)\]\s*mod ", t, flags=re.M)[0]
            t = re.sub(r"(?m)//[^\n]*$", " ", t)
            t = re.sub(r"(?s)/\*.*?\*/", " ", t)

            def text(m):
                b = b"".join(escaped(x) if x[0] == "\\" else x.encode("utf-8", "replace")
                             for x in re.findall(ESC + r"|[^\\]", m.group(1)))
                texts[b.hex()] = texts.get(b.hex(), 0) + 1
                return " "

            t = re.sub(r'"((?:[^"\\]|\\[\s\S])*)"', text, t)
            found = [ord(c) for c in re.findall(r"b?'([^'\\])'", t)]
            for c in re.findall(r"'(" + ESC + ")'", t):
                b = escaped(c)
                found.append(int.from_bytes(b, "big") if len(b) == 1 else ord((b.decode("utf-8", "replace") or "?")[0]))
            num = r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[iu](?:8|16|32|64|128|size))?\b"

            def val(x):
                return int(x.replace("_", ""), 0) if x[:2] in ("0x", "0b", "0o") else int(x.replace("_", ""))

            found += [val(x) for x in re.findall(num, t)]
            for m in re.finditer(r"\[((?:\s*[0-9][0-9a-zA-Z_]*\s*,)+\s*(?:[0-9][0-9a-zA-Z_]*)?\s*)\]", t):
                row = [val(x) for x in re.findall(num, m.group(1))]
                if all(v < 256 for v in row):
                    texts[bytes(row).hex()] = texts.get(bytes(row).hex(), 0) + 1
            found += [val(a) << val(b) for a, b in re.findall(num + r"\s*<<\s*" + num, t) if val(b) < 64]
            found += [val(a) * val(b) for a, b in re.findall(num + r"\s*\*\s*" + num, t)]
            for v in found:
                if 0 <= v < 1 << 64:
                    nums[str(v)] = nums.get(str(v), 0) + 1
    return dict(nums=nums, texts=texts)


def new_literals():
    """What the sources say that they did not say when literals.json was written: numbers and strings for
    the generators to try more often. They decide nothing."""
    try:
        base, now = json.load(open(os.path.join(VERIF, "literals.json"))), literals()
        nums = [int(v) for v, n in now["nums"].items() if n > base["nums"].get(v, 0)]
        texts = [x for x, n in now["texts"].items() if n > base["texts"].get(x, 0) and 0 < len(x) <= 400]
    except (OSError, ValueError, KeyError):
        return []
    a = []
    if nums:
        a.append("dict=" + ",".join(map(str, sorted(nums)[:200])))
    if texts:
        a.append("texts=" + ",".join(sorted(texts)[:50]))
    return a


DICT = new_literals()


def env_for(cfg):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "MIRIFLAGS",
              "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if cfg.get("rustflags"):
        e["RUSTFLAGS"] = cfg["rustflags"]
    if cfg.get("miri"):
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-seed=%d " % (SEED % 1000) + (
            # aliasing is judged on the host target; without that the foreign targets run faster
            "-Zmiri-strict-provenance" if cfg["miri"] == HOST else "-Zmiri-disable-stacked-borrows")
        if cfg["miri"] != HOST or not os.path.isdir(os.path.expanduser("~/.cache/miri")):
            e["XDG_CACHE_HOME"] = os.path.join(BUILD, "miricache", cfg["miri"])
    return e


def fresh(target):
    """Makes cargo notice changes of /repo that its time stamps may hide."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "repo.sha256")
    try:
        same = open(stamp).read() == RHASH
    except OSError:
        same = False
    if not same:
        for d, dirs, _ in os.walk(target):
            for x in list(dirs):
                if x.startswith("chf-") and os.path.basename(d) == ".fingerprint":
                    shutil.rmtree(os.path.join(d, x))
                    dirs.remove(x)
        with open(stamp, "w") as f:
            f.write(RHASH)


def cargo(cfg, verb, more=()):
    cmd = ["cargo"]
    if cfg.get("toolchain"):
        cmd.append(cfg["toolchain"])
    if cfg.get("miri"):
        cmd += ["+nightly", "miri"]
    cmd += [verb, "--offline", "--quiet"]
    if cfg.get("features"):
        cmd += ["--features", cfg["features"]]
    if cfg.get("miri"):
        cmd += ["--target", cfg["miri"]]
    else:
        cmd += ["--profile", cfg["profile"]]
        if cfg.get("target"):
            cmd += ["--target", cfg["target"]]
    return cmd + list(more)


def inside_chf(log):
    return "could not compile `chf`" in log


def build(name):
    cfg = CONFIGS[name]
    target = os.path.join(BUILD, name)
    fresh(target)
    env = env_for(cfg)
    env["CARGO_TARGET_DIR"] = target
    t = time.time()
    if cfg.get("miri"):
        with lock_for(cfg["miri"]):
            if env.get("XDG_CACHE_HOME"):
                r = run_cmd(["cargo", "+nightly", "miri", "setup", "--target", cfg["miri"]], env, 600)
                if r.returncode != 0:
                    raise NoAnswer(f"miri setup for {cfg['miri']}: {tail(r)}")
        r = run_cmd(cargo(cfg, "run", ["--", "selftest"]), env, 700)
        if r.returncode != 0:
            raise BuildError(name, tail(r, 30000), inside_chf(r.stderr))
    else:
        r = run_cmd(cargo(cfg, "build"), env, 700)
        if r.returncode != 0:
            raise BuildError(name, tail(r, 30000), inside_chf(r.stderr))
        r = run_cmd([binary(name), "selftest"], env, 60)
        if r.returncode != 0:
            raise NoAnswer(f"{name}: selftest: {tail(r)}")
    say(f"built {name} in {time.time() - t:.1f}s")


LOCKS = {}
LOCKS_GUARD = threading.Lock()


def lock_for(k):
    with LOCKS_GUARD:
        return LOCKS.setdefault(k, threading.Lock())


def binary(name):
    cfg = CONFIGS[name]
    p = [BUILD, name] + ([cfg["target"]] if cfg.get("target") else [])
    return os.path.join(*p, cfg["profile"], "vh")


def tail(r, n=4000):
    return (r.stdout[-n:] + "\n" + r.stderr[-n:]).strip()


RUNNING = set()


def run_cmd(cmd, env, timeout, cwd=HARNESS):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return subprocess.CompletedProcess(cmd, "timeout", out, err)
    finally:
        RUNNING.discard(p)


def vh_cmd(name, args):
    """Command and environment to run the harness of a configuration."""
    if args[0] in ("run", "c07", "first"):
        args = args + DICT
    cfg = CONFIGS[name]
    env = env_for(cfg)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, name)
    if cfg.get("miri"):
        return cargo(cfg, "run", ["--"] + args), env
    if "asan" in name:
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"
        llvm = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if llvm:
            env["ASAN_SYMBOLIZER_PATH"] = llvm
    return [binary(name)] + args, env


class Shard:
    def __init__(self, prop, name, shard, shards, cases, extra):
        self.prop, self.name, self.shard, self.shards = prop, name, shard, shards
        self.cases, self.extra = cases, extra
        self.report = None
        self.more = []
        self.trouble = None  # dict: kind, choices, message
        base = os.path.join(BUILD, "run", prop, f"{name}.{shard}")
        os.makedirs(os.path.dirname(base), exist_ok=True)
        self.out, self.mirror = base + ".json", base + ".mirror"

    def prepare(self):
        """For an interpreted run: the sweep and the reference's answers, computed by the native build."""
        pre, tape = self.out + ".sweep", self.out + ".tape"
        for f in (pre, tape):
            if os.path.exists(f):
                os.unlink(f)
        self.more = []
        base = [f"prop={self.prop}", f"seed={SEED}", f"tier={TIER}"]
        cmd, env = vh_cmd("std", ["sweep"] + base + [f"{k}={v}" for k, v in self.extra.items()])
        r = run_cmd(cmd, env, 120)
        if r.returncode != 0:
            raise NoAnswer(f"sweep: {tail(r)}")
        with open(pre, "w") as f:
            f.write(r.stdout)
        self.more = [f"prefixes={pre}"]
        cmd, env = vh_cmd("std", self.args() + [f"record={tape}", f"out={self.out}.native"])
        cmd = [c for c in cmd if not c.startswith("mirror=")]
        run_cmd(cmd, env, 120)
        # without it the reference computes
        if os.path.exists(tape):
            self.more.append(f"tape={tape}")

    def args(self):
        a = ["run", f"prop={self.prop}", f"config={self.name}", f"seed={SEED}",
             f"shard={self.shard}", f"shards={self.shards}", f"cases={self.cases}", f"tier={TIER}",
             f"mirror={self.mirror}"]
        a += [f"{k}={v}" for k, v in self.extra.items()] + self.more
        return a

    def go(self):
        miri = CONFIGS[self.name].get("miri")
        if miri:
            self.prepare()
        for f in (self.out, self.mirror, self.out + ".keys"):
            if os.path.exists(f):
                os.unlink(f)
        cmd, env = vh_cmd(self.name, self.args() + ["out=" + ("-" if miri else self.out)])
        r = run_cmd(cmd, env, SHARD_TIMEOUT)
        if r.returncode == 0:
            if miri:
                m = re.search(r"^@report (.*)$", r.stdout, re.M)
                if not m:
                    raise NoAnswer(f"{self.name}: no report: {tail(r)}")
                self.report = json.loads(m.group(1))
            else:
                self.report = json.load(open(self.out))
            return
        self.died(r, miri)

    def died(self, r, miri):
        if miri:
            idx = re.findall(r"^@case (\d+)$", r.stderr, re.M)
            ub = re.search(r"error: (Undefined Behavior|unsupported operation|abnormal termination|deadlock)[^\n]*", r.stderr)
            if idx and r.returncode != "timeout" and ub and not ub.group(1).startswith("unsupported"):
                self.trouble = dict(kind="miri", index=int(idx[-1]), message=miri_message(r.stderr))
                return
            raise NoAnswer(f"{self.name}: {r.returncode}: {tail(r)}")
        choices = mirror_choices(self.mirror)
        if r.returncode == "timeout":
            self.trouble = dict(kind="hang", choices=choices, message="does not return")
            return
        if isinstance(r.returncode, int) and -r.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL,
                                                              signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
            self.trouble = dict(kind="crash", choices=choices, message=crash_message(r))
            return
        raise NoAnswer(f"{self.name} shard {self.shard} ended with {r.returncode}: {tail(r)}")


def mirror_choices(path):
    import struct
    try:
        d = open(path, "rb").read()
    except OSError:
        return []
    w = struct.unpack(f"<{len(d) // 8}Q", d[: len(d) // 8 * 8])
    return list(w[1:1 + w[0]]) if w else []


def crash_message(r):
    m = re.search(r"ERROR: AddressSanitizer: [^\n]*", r.stderr)
    s = m.group(0) if m else f"the process died of signal {-r.returncode}"
    frames = re.findall(r"^\s+#\d+ \S+ in (.*)$", r.stderr, re.M)
    fr = [f for f in frames if "chf" in f][:3]
    if fr:
        s += " in " + " < ".join(fr)
    return s + (": " + r.stderr.strip()[:300] if not m and r.stderr.strip() else "")


def miri_message(err):
    m = re.search(r"error: [^\n]*", err)
    loc = re.search(r"--> (\S+)", err[m.start():]) if m else None
    return (m.group(0) if m else "Miri error") + (f" at {loc.group(1)}" if loc else "")


# ---- shrinking of cases that end the process ---------------------------------------------------

def replay_once(prop, name, choices, timeout, extra):
    args = ["replay", f"prop={prop}", "list=" + (",".join(map(str, choices)) or ",")]
    if extra.get("cap"):
        args.append(f"cap={extra['cap']}")
    cmd, env = vh_cmd(name, args)
    r = run_cmd(cmd, env, timeout)
    miri = CONFIGS[name].get("miri")
    if r.returncode == 0:
        return None, r
    if r.returncode == 1 and not (miri and "error: Undefined" in r.stderr):
        m = re.search(r"^violated: (.*)$", r.stdout, re.M | re.S)
        if m:
            return "judged: " + m.group(1).strip(), r
        if not miri:
            return None, r
    if r.returncode == "timeout":
        return "does not return", r
    if r.returncode == 2:
        return None, r
    return (miri_message(r.stderr) if miri else crash_message(r)), r


def shrink_outside(prop, name, choices, extra, seconds, timeout):
    """Greedy shrinking with one process per candidate, several at a time."""
    end = time.time() + seconds
    best = list(choices)

    def candidates(b):
        n = len(b)
        k = n // 2
        while k:
            yield b[:n - k]
            k //= 2
        for size in (8, 4, 2, 1):
            for i in range(0, n - size + 1, size):
                yield b[:i] + b[i + size:]
        for i in range(n):
            if b[i]:
                yield b[:i] + [0] + b[i + 1:]
                yield b[:i] + [b[i] // 2] + b[i + 1:]
                yield b[:i] + [b[i] - 1] + b[i + 1:]

    with ThreadPoolExecutor(CORES) as ex:
        improved = True
        while improved and time.time() < end:
            improved = False
            it = candidates(best)
            while time.time() < end:
                batch = [c for _, c in zip(range(CORES), it)]
                if not batch:
                    break
                rs = list(ex.map(lambda c: replay_once(prop, name, c, timeout, extra)[0], batch))
                hit = [c for c, r in zip(batch, rs) if r]
                if hit:
                    best = min(hit, key=lambda c: (len(c), c))
                    improved = True
                    break
    return best


def settle(s):
    """Turns what ended a shard into a violation, or finds that it is none."""
    t = s.trouble
    kind = t["kind"]
    if kind == "miri":
        cmd, env = vh_cmd(s.name, s.args() + [f"only={t['index']}", "out=-"])
        r = run_cmd(cmd, env, 600)
        choices = [int(x) for x in re.findall(r"^@draw (\d+)$", r.stderr, re.M)]
        msg, _ = replay_once(s.prop, s.name, choices, 600, s.extra)
        if not msg:
            # depends on what ran before: the numbered case is the reproduction
            return dict(choices=[], index=t["index"], message=t["message"], notes=[], original_len=len(choices))
        best = shrink_outside(s.prop, s.name, choices, s.extra, 60, 120)
        msg = replay_once(s.prop, s.name, best, 600, s.extra)[0] or msg
        return dict(choices=best, message=msg, notes=[], original_len=len(choices))
    limit = 60 if kind == "hang" else 120
    msg, _ = replay_once(s.prop, s.name, t["choices"], limit, s.extra)
    if not msg:
        if kind == "hang":
            raise NoAnswer(f"{s.name}: a shard did not finish in {SHARD_TIMEOUT} s, its last case does")
        # only in this process: the shard itself is the reproduction
        return dict(choices=t["choices"], message=t["message"] + " (within the run of the whole shard)",
                    notes=[], original_len=len(t["choices"]), shard_args=s.args())
    best = t["choices"]
    if kind == "crash":
        best = shrink_outside(s.prop, s.name, best, s.extra, 60, 20)
        m2, r2 = replay_once(s.prop, s.name, best, limit, s.extra)
        msg = m2 or msg
    return dict(choices=best, message=msg, notes=[], original_len=len(t["choices"]))


# ---- results -----------------------------------------------------------------------------------

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.nontrivial = 0
        self.sweep = 0
        self.labels = {}
        self.samples = []
        self.per_config = {}
        self.keyfiles = []
        self.extra_distinct = 0
        self.extra = {}
        self.violations = []  # dicts with config etc.
        self.known = {}

    def add(self, s):
        r = s.report
        self.evaluations += r["evaluations"]
        self.sweep += r["sweep"]
        self.nontrivial += r["nontrivial"]
        for k, v in r["labels"].items():
            self.labels[k] = self.labels.get(k, 0) + v
        for x in r["samples"]:
            x["config"] = s.name
        self.samples += r["samples"]
        c = self.per_config.setdefault(s.name, dict(evaluations=0, nontrivial=0, sweep=0))
        c["evaluations"] += r["evaluations"]
        c["nontrivial"] += r["nontrivial"]
        c["sweep"] += r["sweep"]
        if os.path.exists(s.out + ".keys"):
            self.keyfiles.append(s.out + ".keys")
        else:
            self.extra_distinct += r["distinct"]
        if r["violation"]:
            v = dict(r["violation"])
            v["choices"] = [int(x) for x in v["choices"]]
            self.violation(s.name, v, s.extra)

    def violation(self, config, v, extra):
        v = dict(v)
        v["config"], v["run"] = config, extra
        self.violations.append(v)


def same_everywhere(prop, names, v, res):
    """C14, C15: a result that is wrong in the same way in the other configurations is not their business."""
    if "Undefined Behavior" in v["message"] or not v["choices"]:
        return False
    others = [n for n in names if n != v["config"] and (prop == "C14" or not CONFIGS[n].get("miri"))]
    seen = {replay_once(prop, n, v["choices"], 120, v["run"])[0] for n in [v["config"]] + others}
    if len(seen) == 1:
        say(f"{v['config']}: {v['message']} -- the same in {', '.join(others)}, so not a violation of {prop}")
        res.extra.setdefault("wrong_in_all_configurations", []).append(v["message"][:300])
        return True
    return False


def run_plan(prop, plan, res):
    """Builds and runs one property in its configurations."""
    names = [p[0] for p in plan]
    errs = []

    def b(n):
        try:
            build(n)
        except (BuildError, NoAnswer) as e:
            errs.append(e)

    also = ["std"] if "std" not in names and any(CONFIGS[n].get("miri") for n in names) else []
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(b, also + names))
    if errs:
        for e in errs:
            if isinstance(e, BuildError):
                say(f"build of {e.config} failed:\n{e.log[-4000:]}")
        raise errs[0]
    shards = []
    for name, quick, thorough, extra in plan:
        cases = int((quick if TIER == "quick" else thorough) * SCALE)
        k = CORES
        for i in range(k):
            shards.append(Shard(prop, name, i, k, cases, extra))
    # interpreted ones take longest
    shards.sort(key=lambda s: not CONFIGS[s.name].get("miri"))
    stop = threading.Event()

    def g(s):
        if stop.is_set():
            return
        s.go()
        if s.trouble or (s.report and s.report["violation"]):
            stop.set()

    with ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(g, s) for s in shards]
        err = None
        for f in futs:
            try:
                f.result()
            except NoAnswer as e:
                err = e
                stop.set()
    bad = next((s for s in shards if s.trouble), None)
    for s in shards:
        if s.report:
            res.add(s)
    if not res.violations and bad:
        res.violation(bad.name, settle(bad), bad.extra)
    if prop in ("C14", "C15"):
        res.violations = [v for v in res.violations if not same_everywhere(prop, names, v, res)]
    if not res.violations and err:
        raise err
    say(f"{prop}: {res.evaluations} cases in {', '.join(names)}")


# ---- parts of their own ------------------------------------------------------------------------

# Messages of more than 2^29 and 2^32 zeros: (kind, way to feed it, size of a piece). The digests are in giant.json.
ODD = (1 << 20) + 7
GIANTS = {
    "C01": [(k, f, ODD) for k in ("sha1", "sha256", "sha384", "sha512", "sha512_256", "ripemd160") for f in ("hash", "pieces")],
    "C02": [(k, f, 61) for k in ("sha256", "sha512", "ripemd160", "sip", "hmac-sha1", "sha1", "tagged") for f in ("head", "input")],
    "C03": [("sip", f, 5) for f in ("hash", "u64", "head", "input")],
    "C04": [("hmac-" + k, "input", 0) for k in ("sha1", "sha256", "sha512", "ripemd160")],
    "C05": [("tagged", f, 1) for f in ("hash", "head")],
    "C07": [("sha256", "const", 0)],
    "C13": [(k, f, 0) for k in ("sip", "hmac-sha1", "sha256", "sha512", "tagged", "sha1", "ripemd160") for f in ("write", "bio")],
}


def giants(prop, res):
    rows = {(r["kind"], r["len"]): r["digest"] for r in json.load(open(os.path.join(VERIF, "giant.json")))}
    thorough = TIER != "quick"
    jobs = []
    if prop == "C16":
        n = 2**32 + 77
        jobs = [(c, "-", "eq", at, n, "true false") for c in (x[0] for x in PLAN[prop])
                for at in ([n - 1, 2**32 + 3, 0, 2**31] if thorough else [2**32 + SEED % 77])]
    else:
        for k, (kind, feed, piece) in enumerate(GIANTS[prop]):
            for (rk, n), digest in rows.items():
                if rk != kind or not thorough and n not in (2**29 + 57, 2**32 + 113):
                    continue
                if not thorough and feed == "pieces" and n < 2**32 or not thorough and feed == "hash" and prop == "C01" and n > 2**32:
                    continue
                if not thorough and prop in ("C02", "C13") and (n < 2**32 or (k + SEED) % 2 and k > 7):
                    continue
                for c in [x[0] for x in PLAN[prop]] if thorough else ["stdrel"]:
                    if feed in ("write", "bio") and "std" not in CONFIGS[c]["features"].split(","):
                        continue
                    jobs.append((c, kind, feed, piece, n, f"{digest} {n}"))
    jobs.sort(key=lambda j: -j[4])

    def go(j):
        return j, giant_run(*j[:5])

    n = 0
    with ThreadPoolExecutor(CORES) as ex:
        for j, got in ex.map(go, jobs):
            n += 1
            c, kind, feed, piece, size, want = j
            if got != want:
                res.violation(c, dict(choices=[], message=f"{kind} of {size} zero bytes ({feed}, {piece}): got {got}, want {want}",
                                      notes=[], original_len=0, giant=[kind, feed, piece, size, want]), {})
                break
    res.evaluations += n
    res.nontrivial += n
    res.extra_distinct += n
    res.extra["giant_messages"] = n
    say(f"{prop}: {n} giant messages")


def giant_run(c, kind, feed, piece, size):
    cmd, env = vh_cmd(c, ["giant", f"kind={kind}", f"feed={feed}", f"len={size}", f"piece={piece}"])
    x = run_cmd(cmd, env, 3000 if TIER != "quick" else 600)
    if x.returncode != 0:
        if x.returncode == 101 or (isinstance(x.returncode, int) and x.returncode < 0 and x.returncode != -9):
            return "crash: " + tail(x, 500)
        raise NoAnswer(f"giant: {tail(x)}")
    return x.stdout.strip()


def first_uses(res):
    """C19: processes in which the first use of the crate is by several threads at once."""
    n = 300 if TIER == "quick" else 20_000
    m = 6 if TIER == "quick" else 64
    build("miri")
    jobs = [("miri", SEED * 1000 + i) for i in range(m)]
    jobs += [(c, SEED * 1_000_000 + i) for c in ("std", "stdrel") for i in range(n)]
    with ThreadPoolExecutor(CORES) as ex:
        for (c, seed), bad in zip(jobs, ex.map(lambda j: first_use(*j), jobs)):
            res.evaluations += 1
            res.nontrivial += 1
            res.extra_distinct += 1
            if bad:
                res.violation(c, dict(choices=[], message=bad, notes=[], original_len=0, first=seed), {})
                break
    res.extra["first_uses"] = len(jobs)
    say(f"C19: {len(jobs)} first uses")


def first_use(c, seed):
    """None, or what is wrong."""
    cmd, env = vh_cmd(c, ["first", f"seed={seed}"])
    if "MIRIFLAGS" in env:
        env["MIRIFLAGS"] = re.sub(r"-Zmiri-seed=\d+", f"-Zmiri-seed={seed % 100000}", env["MIRIFLAGS"])
    r = run_cmd(cmd, env, 200)
    if r.returncode == 0:
        return None
    if r.returncode == 1 and "violated: " in r.stdout:
        return r.stdout.strip()[-1500:]
    if CONFIGS[c].get("miri"):
        if "error: Undefined Behavior" in r.stderr:
            return miri_message(r.stderr)
    elif isinstance(r.returncode, int) and r.returncode < 0 and r.returncode != -9:
        return crash_message(r)
    raise NoAnswer(f"first use: {tail(r)}")


C07_MAIN = """#![allow(long_running_const_eval)]
use chf::{{sha256, HashEngine}};
{items}
fn main() {{
    let consts: &[(sha256::Hash, sha256::Midstate, &[u8])] = &[{table}];
    for (h, m, msg) in consts {{
        let rt = sha256::Hash::hash(core::hint::black_box(msg));
        let d = sha256::Hash::hash(core::hint::black_box(msg));
        let mut e = sha256::Engine::default();
        e.input(d.as_byte_array());
        e.input(d.as_byte_array());
        println!("{{:x}} {{:x}} {{:x}} {{:x}}", h, m, rt, e.midstate());
    }}
}}
"""


def const_programs(res):
    """C07: generated programs that hash in const items, compiled and run."""
    n, rounds = (48, 1) if TIER == "quick" else (60, 12)
    total = 0
    for k in range(rounds):
        jobs = []
        for cfgname, feats, rel in (("a", "", False), ("b", "small-hash", False), ("c", "std", True)):
            seed = SEED * 1000 + k * 10 + ord(cfgname)
            cmd, env = vh_cmd("std", ["c07", f"seed={seed}", f"n={n}"])
            r = run_cmd(cmd, env, 60)
            if r.returncode != 0:
                raise NoAnswer(f"c07: {tail(r)}")
            rows = [l.split() for l in r.stdout.split("\n") if l]
            jobs.append((cfgname, feats, rel, rows, seed))

        def go(j):
            cfgname, feats, rel, rows, seed = j
            return j, const_program(cfgname, feats, rel, rows)

        with ThreadPoolExecutor(4) as ex:
            for (cfgname, feats, rel, rows, seed), bad in ex.map(go, jobs):
                total += len(rows)
                if bad:
                    i, msg = bad
                    # the smallest of the failing messages
                    res.violation("const-" + cfgname, dict(
                        choices=[], message=msg, notes=[f"message {rows[i][0]}"], original_len=len(rows),
                        const=dict(cfgname=cfgname, feats=feats, rel=rel, rows=[rows[i]])), {})
                    res.extra["const_items"] = total
                    return
    res.evaluations += total
    res.nontrivial += total
    res.extra_distinct += total
    res.extra["const_items"] = total
    say(f"C07: {total} messages hashed at compile time")


def const_program(cfgname, feats, rel, rows):
    """None, or (index, what is wrong)."""
    d = os.path.join(BUILD, "const", cfgname)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "constprog"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[dependencies]\nchf = { path = "%s", default-features = false, features = [%s] }\n'
                '[profile.dev]\nincremental = false\ndebug = false\n'
                % (REPO, ", ".join('"%s"' % x for x in feats.split(",") if x)))
    items, table = [], []
    for i, (m, _, _) in enumerate(rows):
        b = bytes.fromhex("" if m == "-" else m)
        lit = "&[" + ",".join(map(str, b)) + "]"
        items.append(f"const M{i}: &[u8] = {lit};\nconst H{i}: sha256::Hash = sha256::Hash::const_hash(M{i});\n"
                     f"const T{i}: sha256::Midstate = sha256::Midstate::hash_tag(M{i});")
        table.append(f"(H{i}, T{i}, M{i})")
    with open(os.path.join(d, "src", "main.rs"), "w") as f:
        f.write(C07_MAIN.format(items="\n".join(items), table=", ".join(table)))
    target = os.path.join(d, "target")
    fresh(target)
    env = env_for({})
    env["CARGO_TARGET_DIR"] = target
    r = run_cmd(["cargo", "build", "--offline", "--quiet"] + (["--release"] if rel else []), env, 600, cwd=d)
    if r.returncode != 0:
        m = re.search(r"error\[E0080\][^\n]*", r.stderr)
        if m and not inside_chf(r.stderr):
            c = re.search(r"const [HT](\d+)", r.stderr)
            return (int(c.group(1)) if c else 0), "const evaluation fails: " + m.group(0)
        raise NoAnswer(f"const program does not build: {tail(r)}")
    r = run_cmd([os.path.join(target, "release" if rel else "debug", "constprog")], env, 100, cwd=d)
    if r.returncode != 0:
        raise NoAnswer(f"const program: {tail(r)}")
    lines = [l.split() for l in r.stdout.split("\n") if l]
    bad = []
    for i, ((m, h, t), l) in enumerate(zip(rows, lines)):
        if l != [h, t, h, t]:
            bad.append((len(m), i, f"const_hash, hash_tag, run-time hash, run-time midstate: got {l}, want {[h, t, h, t]}"))
    if len(lines) != len(rows):
        raise NoAnswer("const program printed too little")
    if bad:
        _, i, msg = min(bad)
        return i, msg
    return None


BORROW_TYPES = [("sha1::Hash", 20), ("sha256::Hash", 32), ("sha384::Hash", 48), ("sha512::Hash", 64),
                ("sha512_256::Hash", 32), ("ripemd160::Hash", 20), ("siphash24::Hash", 8), ("sha256t::Hash<T>", 32)]
# (what is borrowed, the borrowing expression of it, whether exclusively); {t} the type, {n} its length
BORROW_VIEWS = [("a", "{t}::from_bytes_ref(&a)", False), ("a", "{t}::from_bytes_mut(&mut a)", True),
                ("h", "h.as_byte_array()", False), ("h", "h.as_bytes()", False), ("h", "AsRef::<[u8]>::as_ref(&h)", False),
                ("h", "&h[..]", False), ("h", "&h[1..]", False), ("h", "&h[..1]", False), ("h", "&h[0..1]", False),
                ("h", "&h[0]", False)]
BORROW_MISUSES = ["outlive", "return", "static", "write", "second", "thread"]


def borrow_function(i, t, n, view, misuse, depth):
    """A function that uses a view after what it refers to is gone or changed; rustc must refuse it."""
    owner, expr, excl = view
    expr = expr.format(t="<" + t + ">", n=n)
    make = f"let mut a = [7u8; {n}];" if owner == "a" else f"let mut h = <{t}>::from_byte_array([7u8; {n}]);"
    renew = f"a = [9u8; {n}];" if owner == "a" else f"h = <{t}>::from_byte_array([9u8; {n}]);"
    arg = f"[u8; {n}]" if owner == "a" else t
    out = "&'static [u8]"
    bytes_of = "AsRef::<[u8]>::as_ref(r)" if owner == "a" else ("std::slice::from_ref(r)" if expr == "&h[0]" else "r.as_ref()")
    wrap = lambda b: "{ " * depth + b + " }" * depth
    body = {
        "outlive": f"let r; {wrap('{ ' + make + ' r = ' + expr + '; }')} show({bytes_of});",
        "return": f"{make} let r = {expr}; let q: &'static _ = r; {renew} let _ = q;",
        "static": f"{make} let r = {expr}; keep({bytes_of});",
        "write": f"{make} let r = {expr}; {wrap(renew)} show({bytes_of});",
        "second": f"{make} let r = {expr}; let s = &mut {owner}; touch(s); show({bytes_of});",
        "thread": f"{make} let r = {expr}; let j = std::thread::spawn(move || show({bytes_of})); {renew} j.join().unwrap();",
    }[misuse]
    return f"pub fn f{i}() {{ {body} }}"


BORROW_HEAD = """#![allow(unused, clippy::all)]
use chf::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct T;
impl sha256t::Tag for T {
    fn engine() -> sha256t::Engine<Self> { <sha256t::Engine<Self> as HashEngine>::from_midstate(sha256::Midstate([7; 32]), 64) }
}
pub fn show(b: &[u8]) { println!("{:?}", b); }
pub fn keep(b: &'static [u8]) { println!("{:?}", b); }
pub fn touch<X>(_: &mut X) {}
"""


def borrow_check(functions):
    """The indices of the functions that rustc accepts."""
    d = os.path.join(BUILD, "borrow")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "borrows"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n'
                '[dependencies]\nchf = { path = "%s" }\n[profile.dev]\nincremental = false\n' % REPO)
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(BORROW_HEAD + "\n".join(functions) + "\n")
    target = os.path.join(d, "target")
    fresh(target)
    env = env_for({})
    env["CARGO_TARGET_DIR"] = target
    r = run_cmd(["cargo", "check", "--offline", "--quiet", "--message-format=json"], env, 600, cwd=d)
    first = BORROW_HEAD.count("\n") + 1
    refused, other = set(), []
    for l in r.stdout.split("\n"):
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        if m["target"]["name"] != "borrows":
            raise NoAnswer("chf does not build: " + (m["message"].get("rendered") or "")[:2000])
        code = (m["message"].get("code") or {}).get("code")
        spans = [x for x in m["message"]["spans"] if x["is_primary"]]
        if not spans:
            continue
        if code not in (None, "E0597", "E0505", "E0506", "E0499", "E0502", "E0503", "E0515", "E0716", "E0373", "E0521"):
            other.append(m["message"].get("rendered"))
        refused.update(x["line_start"] - first for x in spans)
    if other:
        raise NoAnswer("borrow program: " + other[0][:2000])
    if r.returncode == 0 and refused or r.returncode != 0 and not refused:
        raise NoAnswer(f"borrow program: {tail(r)}")
    return [i for i in range(len(functions)) if i not in refused]


def borrow_programs(res):
    """C18: generated functions that keep a view longer than what it refers to; none may compile."""
    rnd = random.Random(SEED)
    types = BORROW_TYPES + [("hmac::Hash<%d>" % n, n) for n in (1, 32, rnd.randrange(2, 200))]
    fs, what = [], []
    for t, n in types:
        for v in BORROW_VIEWS:
            if "1" in v[1] and n == 1:
                continue
            for m in BORROW_MISUSES:
                fs.append(borrow_function(len(fs), t, n, v, m, rnd.randrange(4)))
                what.append(f"{t}: {v[1].format(t=t, n=n)}: {m}")
    # and one that is right, so that not everything is refused
    good = len(fs)
    fs.append("pub fn good() { let mut a = [7u8; 32]; { let r = sha256::Hash::from_bytes_mut(&mut a); show(r.as_bytes()); } a[0] = 1; show(sha256::Hash::from_bytes_ref(&a).as_bytes()); }")
    ok = borrow_check(fs)
    if good not in ok:
        raise NoAnswer("borrow program: the right function was refused")
    bad = [i for i in ok if i != good]
    res.evaluations += good
    res.nontrivial += good
    res.extra_distinct += good
    res.extra["borrow_programs"] = good
    say(f"C18: {good} functions that must not compile")
    if bad:
        i = min(bad, key=lambda i: len(fs[i]))
        res.violation("borrow", dict(choices=[], message=f"safe code with a dangling or aliased view compiles: {fs[i]}",
                                     notes=[what[j] for j in bad], original_len=len(bad), borrow=fs[i]), {})


def builds(name):
    try:
        build(name)
        return True
    except BuildError:
        return False


def stub_check(feats, slot):
    """None if this builds with cfg(hashes_fuzz), the log if not."""
    target = os.path.join(BUILD, "stub", str(slot))
    fresh(target)
    env = env_for(dict(rustflags="--cfg hashes_fuzz"))
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "check", "--offline", "--quiet"] + (["--features", feats] if feats else [])
    r = run_cmd(cmd, env, 300, cwd=os.path.join(VERIF, "combo"))
    if r.returncode == 0:
        return None
    if not inside_chf(r.stderr):
        raise NoAnswer(f"cfg(hashes_fuzz) [{feats}]: {tail(r)}")
    return tail(r, 30000)


def stub_builds(res):
    """C20: the stub builds with every feature combination."""
    todo = combos()
    slots = 6
    results = {}

    def work(i):
        for f in todo[i::slots]:
            results[f] = stub_check(f, i)

    with ThreadPoolExecutor(slots) as ex:
        list(ex.map(work, range(slots)))
    res.evaluations += len(todo)
    res.nontrivial += len(todo)
    res.extra_distinct += len(todo)
    res.extra["feature_combinations_built_with_the_stub"] = len(todo)
    for f in todo:
        if results[f] is not None:
            m = re.search(r"^error[^\n]*", results[f], re.M)
            res.violation("stub", dict(choices=[], message=f"with cfg(hashes_fuzz), features [{f}]: {m.group(0) if m else results[f][-500:]}",
                                       notes=[], original_len=0, stubfeats=f), {})
            return


FEATURES = ["std", "alloc", "io", "serde", "schemars", "small-hash"]


def combos():
    out, seen = [], set()
    for bits in range(64):
        fs = [f for i, f in enumerate(FEATURES) if bits >> i & 1]
        eff = frozenset(fs + (["alloc"] if "std" in fs else []))
        if eff not in seen:
            seen.add(eff)
            out.append(",".join(fs))
    return out


def combo_run(feats, slot, cases, profile="dev"):
    """Transcript of a feature combination, or the log of a failed build."""
    d = os.path.join(VERIF, "combo")
    target = os.path.join(BUILD, "combo", str(slot))
    fresh(target)
    env = env_for({})
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "build", "--offline", "--quiet"] + (["--features", feats] if feats else [])
    r = run_cmd(cmd, env, 300, cwd=d)
    if r.returncode != 0:
        if not inside_chf(r.stderr) and "could not compile `combo`" not in r.stderr:
            raise NoAnswer(f"combination [{feats}]: {tail(r)}")
        return None, tail(r)
    r = run_cmd([os.path.join(target, "debug", "combo"), str(SEED), str(cases)], env, 300, cwd=d)
    if r.returncode != 0:
        return None, f"the program ended with {r.returncode}: {tail(r)}"
    return r.stdout.split("\n"), None


BARE = "x86_64-unknown-none"


THUMB = "thumbv6m-none-eabi"  # 32 bit, no 64 bit atomics, no compare-and-swap


def bare_run(feats, triple=BARE):
    """None if this builds where there is no standard library, the log if not."""
    std = "core,alloc" if "alloc" in feats else "core"
    d = os.path.join(VERIF, "nostd")
    target = os.path.join(BUILD, "bare-" + std.replace(",", "-") + ("" if triple == BARE else "-thumb"))
    fresh(target)
    env = env_for({})
    env["CARGO_TARGET_DIR"] = target
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "-Zbuild-std=" + std, "--target", triple]
    r = run_cmd(cmd + ["--features", ",".join(feats)], env, 300, cwd=d)
    if r.returncode == 0:
        return None
    if not inside_chf(r.stderr) and "could not compile `nostd`" not in r.stderr:
        raise NoAnswer(f"{triple} [{','.join(feats)}]: {tail(r)}")
    return tail(r, 30000)


def bare_matrix(alloc, triple=BARE):
    out = []
    if triple == THUMB:
        sets = [["alloc"], ["alloc", "io", "serde", "small-hash"]] if alloc else [[], ["io", "serde", "small-hash"]]
        return [(fs, triple, bare_run(fs, triple)) for fs in sets]
    for bits in range(8):
        fs = [f for i, f in enumerate(("io", "serde", "small-hash")) if bits >> i & 1] + (["alloc"] if alloc else [])
        out.append((fs, triple, bare_run(fs)))
    return out


def feature_matrix(res):
    """C14: every feature combination builds, and a program prints the same in all of them."""
    cases = 400 if TIER == "quick" else 6000
    todo = combos()
    slots = 6
    results = {}

    def work(i):
        for f in todo[i::slots]:
            results[f] = combo_run(f, i, cases)

    bare = []
    with ThreadPoolExecutor(slots + 4) as ex:
        b = [ex.submit(bare_matrix, alloc, t) for alloc in (False, True) for t in (BARE, THUMB)]
        list(ex.map(work, range(slots)))
        for f in b:
            bare += f.result()
    base = None
    n = 0
    if all(lines is None and not inside_chf(log) for lines, log in results.values()):
        raise NoAnswer(f"the program of the feature matrix builds nowhere: {results[todo[0]][1]}")
    if all(log is not None and not inside_chf(log) for _, _, log in bare):
        raise NoAnswer(f"the program for {BARE} builds with no features: {bare[0][2]}")
    for fs, triple, log in bare:
        if log is not None:
            e = re.search(r"^error[^\n]*", log, re.M)
            res.violation("bare", dict(choices=[], message=f"features [{','.join(fs)}] without a standard library ({triple}): {e.group(0) if e else log[-500:]}",
                                       notes=[], original_len=0, bare=fs, triple=triple), {})
            return
    res.extra["feature_combinations_built_without_std_library"] = len(bare)
    res.evaluations += len(bare)
    res.nontrivial += len(bare)
    res.extra_distinct += len(bare)
    for f in todo:
        lines, log = results[f]
        if lines is None:
            res.violation("combo", dict(choices=[], message=f"features [{f}]: {log[:1500]}", notes=[],
                                        original_len=0, combo=dict(features=f, cases=cases)), {})
            return
        n += len(lines) - 1
        if base is None:
            base = lines
        elif lines != base:
            i = next(i for i, (a, b) in enumerate(zip(base, lines)) if a != b)
            a, b = base[i].split(" "), lines[i].split(" ")
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), 0)
            res.violation("combo", dict(choices=[], message=f"features [{f}], case {i}: {b[j][:300]!r}, with features [{todo[0]}]: {a[j][:300]!r}",
                                        notes=[lines[i][:500]], original_len=0,
                                        combo=dict(features=f, cases=cases)), {})
            return
    res.evaluations += n
    res.nontrivial += n
    res.extra_distinct += cases
    res.extra["feature_combinations_built_and_run"] = len(todo)
    res.extra["transcript_lines_per_combination"] = len(base) - 1
    res.samples.append(dict(config="combo", case=[base[min(len(base) - 2, 7)][:400]]))
    say(f"C14: {len(todo)} feature combinations, {n} transcript lines")


# ---- main --------------------------------------------------------------------------------------

def write_evidence(res, rule):
    distinct = res.extra_distinct
    if res.keyfiles:
        exe = next((binary(c) for c in res.per_config if not CONFIGS[c].get("miri") and "asan" not in c),
                   None) or next(binary(c) for c in res.per_config if not CONFIGS[c].get("miri"))
        r = run_cmd([exe, "merge", "files=" + ",".join(res.keyfiles)], env_for({}), 300)
        distinct += int(r.stdout.strip())
    samples = []
    per = {}
    for s in res.samples:
        k = s.get("config")
        per[k] = per.get(k, 0) + 1
        if per[k] <= 4:
            samples.append(s)
    cov = dict(evaluations=res.evaluations, distinct_nontrivial=distinct, nontrivial=res.nontrivial,
               rule=rule, samples=samples[:20], swept=res.sweep, per_configuration=res.per_config,
               labels=dict(sorted(res.labels.items(), key=lambda kv: -kv[1])))
    cov.update(res.extra)
    ev = dict(property=res.prop, tier=TIER, seed=SEED, level="exploration", coverage=cov,
              assumptions=ASSUME["*"] + ASSUME.get(res.prop, []),
              wall_s=round(time.time() - T0, 1), violations=len(res.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", res.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def write_replay(res, v):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(VERIF, "replays", f"{res.prop}-{h}.json")
    v = dict(property=res.prop, seed=SEED, tier=TIER, **v)
    v["how"] = f"cd /verif && python3 check.py {res.prop} --replay {p}"
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def do_replay(prop, path):
    v = json.load(open(path))
    name = v["config"]
    print(f"{prop} in configuration {name}: {v['message']}")
    if v.get("bare") is not None:
        log = bare_run(v["bare"], v.get("triple", BARE))
        print(log)
        bad = log is not None
    elif v.get("stubfeats") is not None:
        log = stub_check(v["stubfeats"], 0)
        print(log)
        bad = log is not None
    elif v.get("combo"):
        base = combo_run("", 0, v["combo"]["cases"])
        got = combo_run(v["combo"]["features"], 1, v["combo"]["cases"])
        bad = got[0] is None or got[0] != base[0]
    elif v.get("borrow"):
        bad = bool(borrow_check([v["borrow"]]))
        print(v["borrow"])
    elif v.get("const"):
        c = v["const"]
        r = const_program(c["cfgname"], c["feats"], c["rel"], c["rows"])
        print(r)
        bad = bool(r)
    elif v.get("stub") or v.get("unbuilt"):
        try:
            build(name)
            bad = False
        except BuildError as e:
            print(e.log)
            bad = True
    else:
        build(name)
        if v.get("first") is not None:
            msg = None
            for _ in range(1 if CONFIGS[name].get("miri") else 200):
                msg = msg or first_use(name, v["first"])
            print(msg)
            bad = bool(msg)
        elif v.get("giant"):
            *g, want = v["giant"]
            got = giant_run(name, *g)
            print(f"got {got}, want {want}")
            bad = got != want
        elif v.get("index") is not None or v.get("shard_args"):
            args = v.get("shard_args") or ["run", f"prop={prop}", f"config={name}", f"seed={v['seed']}",
                                           f"tier={v['tier']}", f"only={v['index']}"]
            args = args + [f"{k}={x}" for k, x in v["run"].items()] + ["out=-"]
            cmd, env = vh_cmd(name, args)
            r = run_cmd(cmd, env, 900)
            print(tail(r))
            bad = r.returncode != 0
        else:
            msg, r = replay_once(prop, name, v["choices"], 300, v["run"])
            print(r.stdout[-3000:], r.stderr[-3000:])
            bad = bool(msg)
    print("reproduced" if bad else "not reproduced")
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if bad else 0


def rule_of(prop):
    for name, *_ in PLAN[prop]:
        if not CONFIGS[name].get("miri"):
            cmd, env = vh_cmd(name, ["rule", f"prop={prop}"])
            return run_cmd(cmd, env, 60).stdout.strip()
    return ""


def main():
    global SEED, TIER, SCALE, SHARD_TIMEOUT
    argv = sys.argv[1:]
    prop = argv[0]
    SEED = int(os.environ.get("VERIF_SEED", "1") or 1) & (2**63 - 1)
    TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
    SCALE = float(os.environ.get("VERIF_SCALE", "1"))
    if "--tier" in argv:
        TIER = argv[argv.index("--tier") + 1]
    SHARD_TIMEOUT = 420 if TIER == "quick" else 6 * 3600
    os.makedirs(BUILD, exist_ok=True)
    if prop == "literals":
        with open(os.path.join(VERIF, "literals.json"), "w") as f:
            json.dump(literals(), f, indent=0, sort_keys=True)
        return 0
    if prop == "setup":
        for n in ("std",):
            build(n)
        return 0
    if "--replay" in argv:
        return do_replay(prop, argv[argv.index("--replay") + 1])
    res = Result(prop)
    try:
        if prop == "C14":
            feature_matrix(res)
        if prop == "C18":
            borrow_programs(res)
        if not res.violations:
            run_plan(prop, PLAN[prop], res)
        if (prop in GIANTS or prop == "C16") and not res.violations:
            giants(prop, res)
        if prop == "C07" and not res.violations:
            const_programs(res)
        if prop == "C19" and not res.violations:
            first_uses(res)
        if prop == "C20" and not res.violations:
            stub_builds(res)
    except BuildError as e:
        if e.inside and prop == "C20":
            # the statement says that it builds
            res.violation("fuzzcfg", dict(choices=[], message=f"with cfg(hashes_fuzz): {e.log[:1500]}", notes=[],
                                          original_len=0, stub=True), {})
        elif e.inside and prop == "C15" and CONFIGS[e.config].get("miri", HOST) != HOST and builds("std"):
            m = re.search(r"^error[^\n]*", e.log, re.M)
            res.violation(e.config, dict(choices=[], message=f"does not build for {CONFIGS[e.config]['miri']}: {m.group(0) if m else e.log[-500:]}",
                                         notes=[], original_len=0, unbuilt=True), {})
        elif prop == "C13" and not e.inside and (m := re.search(r"error\[E\d+\]:[^\n]*\bWrite\b[^\n]*", e.log)):
            # the statement says which builds have the traits
            res.violation(e.config, dict(choices=[], message=f"features [{CONFIGS[e.config]['features']}]: {m.group(0)}", notes=[],
                                         original_len=0, unbuilt=True), {})
        else:
            say("no answer:", e)
            return 2
    except NoAnswer as e:
        say("no answer:", e)
        return 2
    try:
        rule = rule_of(prop)
    except OSError:
        rule = ""
    write_evidence(res, rule)
    if res.violations:
        v = res.violations[0]
        p = write_replay(res, v)
        print(f"{prop} ({v['config']}): {v['message']}")
        for n in v.get("notes", [])[:20]:
            print("   ", n[:300])
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: held on {res.evaluations} cases ({TIER}, seed {SEED}, {time.time() - T0:.0f} s)")
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except KeyboardInterrupt:
        code = 2
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    for p in list(RUNNING):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    sys.stdout.flush()
    os._exit(code)
