"""What every check shares: building from /repo, running shards, reporting."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
CORES = 8

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", NO_COLOR="1",
           RUSTUP_TOOLCHAIN="stable", RUST_BACKTRACE="0")


class Broken(Exception):
    """The check itself could not run: neither held nor violated."""


class NoBuild(Exception):
    """A program that must compile against /repo does not."""

    def __init__(self, log):
        super().__init__(log)
        self.log = log


def sh(cmd, timeout=None, cwd=None, env=None):
    """Run to the end; (returncode or None when out of time, stdout, stderr)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or ENV,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


RUSTC_ERROR = re.compile(r"^error(\[E\d+\])?:", re.M)


def cargo(args, cwd=HARNESS, env=None, timeout=800):
    """cargo build; a compiler error is NoBuild, anything else Broken. Retried once."""
    for attempt in (0, 1):
        rc, out, err = sh(["cargo"] + args, cwd=cwd, env=env, timeout=timeout)
        if rc == 0:
            return err
        if rc is None:
            raise Broken("build ran out of time: " + " ".join(args))
        if attempt == 0:
            continue
        infra = re.search(r"No space left|signal: 9|SIGKILL|Cannot allocate memory|failed to download|"
                          r"no matching package|linking with .* failed", err)
        if RUSTC_ERROR.search(err) and not infra:
            raise NoBuild(err)
        raise Broken("build failed: " + err[-3000:])


class Result:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.evaluations = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.violations = []   # (detail, replay dict)
        self.known = {}
        self.notes = []
        self.extra = {}

    def count(self, what, n=1):
        self.counters[what] = self.counters.get(what, 0) + n

    def eval(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.hashes.add(hash_of(key))

    def violation(self, detail, replay=None):
        self.violations.append((detail, replay or {}))

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)


def hash_of(s):
    h = 0xCBF29CE484222325
    for b in s.encode("utf-8", "surrogateescape"):
        h = ((h ^ b) * 0x100000001B3) & 0xFFFFFFFFFFFFFFFF
    return h


class Scratch:
    """A directory that goes away."""

    def __enter__(self):
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.path = tempfile.mkdtemp(dir=base)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def build_bin(name, profile="dev"):
    args = ["build", "--offline", "--locked", "--bin", name]
    if profile != "dev":
        args += ["--profile", profile]
    cargo(args)
    return os.path.join(HARNESS, "target", "debug" if profile == "dev" else profile, name)


def build_both(name):
    """With debug assertions and overflow checks, and without."""
    return [build_bin(name), build_bin(name, "plain")]


def run_shards(res, exes, check, scale=1.0, timeout=600, shards=CORES, extra=(), env=None, memory=3 << 30):
    """Run a harness binary (or several, in turn) over all cores and fold in what its monitors saw."""
    exes = exes if isinstance(exes, list) else [exes]
    with Scratch() as dir:
        procs = []
        for i in range(shards):
            crumb, hashes = os.path.join(dir, "c%d" % i), os.path.join(dir, "h%d" % i)
            cmd = [exes[i % len(exes)], check, "--seed", str(res.seed), "--tier", res.tier, "--scale", str(scale)] + list(extra)
            full = cmd + ["--shard", "%d/%d" % (i, shards), "--crumb", crumb, "--hashes", hashes]
            out = open(os.path.join(dir, "o%d" % i), "w+")
            err = open(os.path.join(dir, "e%d" % i), "w+")
            if memory:
                full = ["prlimit", "--as=%d" % memory] + full
                cmd = ["prlimit", "--as=%d" % memory] + cmd
            p = subprocess.Popen(full, stdout=out, stderr=err, env=env or ENV, start_new_session=True)
            procs.append((p, cmd, full, crumb, hashes, out, err))
        end = time.time() + timeout
        for p, cmd, full, crumb, hashes, out, err in procs:
            why = None
            try:
                p.wait(max(0.1, end - time.time()))
                if p.returncode != 0:
                    why = "exit %s" % p.returncode
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                why = "no end"
            out.seek(0)
            text = out.read()
            err.seek(0)
            errs = err.read()
            out.close()
            err.close()
            done = fold(res, text, cmd)
            if os.path.exists(hashes):
                import array
                a = array.array("Q")
                with open(hashes, "rb") as f:
                    a.frombytes(f.read())
                res.hashes.update(a)
            if why or not done:
                died(res, why or "no summary", cmd, full, crumb, errs, env)


def fold(res, text, cmd):
    done = False
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("event") == "violation":
            res.violation("%s: %s" % (d["case"], d["detail"]),
                          {"cmd": cmd + ["--only", d["case"]], "case": d["case"]})
        elif d.get("event") == "summary":
            done = True
            res.evaluations += d["evaluations"]
            for k, v in d["counters"].items():
                res.count(k, v)
            for s in d["samples"]:
                if len(res.samples) < 12 and s["kind"] not in [x.get("kind") for x in res.samples]:
                    res.samples.append(s)
            for k, v in d["known"].items():
                res.known[k] = res.known.get(k, 0) + v
    return done


def died(res, why, cmd, full, crumb, errs, env):
    """A shard crashed or hung: find out whether the case it was at does so by itself."""
    case = ""
    if os.path.exists(crumb):
        case = open(crumb).read().strip()
    if case:
        alone = cmd + ["--only", case]
        seen = []
        for _ in (0, 1):
            rc, out, err = sh(alone, timeout=200, env=env)
            seen.append(rc)
            if rc == 0:
                break
        if all(rc != 0 for rc in seen):
            tail = "\n".join((errs or err).splitlines()[-40:])[:3000]
            how = "did not end within 200 s" if seen[-1] is None else "ended with status %s" % seen[-1]
            return res.violation("case %s %s (%s): %s" % (case, how, why, tail), {"cmd": alone, "case": case})
    # Not by itself: does the same history do it again?
    rc, out, err = sh(full, timeout=400, env=env)
    if rc == 0:
        fold(res, out, cmd)
        res.notes.append("a shard stopped (%s) at %s and did not when run again" % (why, case))
    elif rc is None and why == "no end":
        raise Broken("shard does not end: %s at %s" % (" ".join(full), case))
    else:
        tail = "\n".join(err.splitlines()[-40:])[:3000]
        res.violation("run stopped (%s, again %s) near case %s: %s" % (why, rc, case, tail), {"cmd": full, "case": case})


NIGHTLY = dict(ENV, RUSTUP_TOOLCHAIN="nightly")


def build_sanitized(name, sanitizer, build_std, features=("--no-default-features",)):
    """A harness binary, and all it links, under a compiler sanitizer."""
    dir = os.path.join(HARNESS, "target", sanitizer)
    env = dict(NIGHTLY, RUSTFLAGS="-Zsanitizer=" + sanitizer, CARGO_TARGET_DIR=dir)
    args = ["build", "--offline", "--locked", "--target", "x86_64-unknown-linux-gnu", "--bin", name] + list(features)
    cargo(args + (["-Zbuild-std"] if build_std else []), env=env)
    return os.path.join(dir, "x86_64-unknown-linux-gnu", "debug", name)


def parallel(jobs, n=CORES):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(lambda f: f(), jobs))


UNSUPPORTED = re.compile(r"error: (unsupported operation|resource exhaustion)")


def miri(res, name, args, first, count, what, timeout=300, flags=""):
    """Run a harness binary under Miri with many schedules. The outputs of the runs that ended."""
    cmd = ["cargo", "miri", "run", "--offline", "--locked", "--no-default-features", "--quiet", "--bin", name, "--"] + args

    def go(seeds, timeout):
        env = dict(NIGHTLY, MIRIFLAGS="-Zmiri-disable-isolation %s %s" % (seeds, flags))
        return sh(cmd, cwd=HARNESS, env=env, timeout=timeout)

    # The first time also builds, and finds what does not depend on the schedule.
    rc, out, err = go("-Zmiri-seed=%d" % first, 800)
    if rc is not None and rc != 0 and "Running `" not in err and RUSTC_ERROR.search(err) and "could not compile" in err:
        raise NoBuild(err)
    runs = [(rc, out, err, "-Zmiri-seed=%d" % first)]
    if rc == 0 and count > 1:
        seeds = "-Zmiri-many-seeds=%d..%d" % (first + 1, first + count)
        runs.append(go(seeds, timeout) + (seeds,))
    lines = []
    for rc, out, err, seeds in runs:
        lines += [l for l in out.splitlines() if l.startswith("{")]
        if rc == 0:
            continue
        if rc is None:
            one = "-Zmiri-seed=%d" % (first + 1)
            rc, out, err = go(one, 200)
            if rc is not None:
                res.notes.append("Miri was stopped after %d s with %s" % (timeout, seeds))
                continue
            res.violation("%s does not end under Miri (%s)" % (what, one), {"cmd": cmd})
        elif UNSUPPORTED.search(err):
            res.notes.append("Miri does not support what this tree does: " + UNSUPPORTED.search(err).group(0))
        else:
            at = err.find("error:")
            res.violation("%s under Miri (%s): %s" % (what, seeds, err[max(at, 0):][:3500]), {"cmd": cmd, "miriflags": seeds})
    return lines
