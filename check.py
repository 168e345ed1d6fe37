#!/usr/bin/env python3
"""Runs the generated-input check of one property against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--only SUB]
       check.py --replay FILE

Exit status: 0 property held on everything explored, 1 violation (a VIOLATION line names the
replay file), 2 no answer (build failure or an error of the machinery).
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MDARRAY_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("HARNESS_TARGET", os.path.join(HERE, "target"))
CORES = min(8, os.cpu_count() or 1)
HANG = 60.0
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}

CONFIG = json.load(open(os.path.join(HERE, "checks.json")))


def log(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


class BuildFailed(NoAnswer):
    """The harness does not compile. `user` is set if the library itself does."""
    user = False


# ---------------------------------------------------------------- findings

def findings(prop):
    """Recorded findings of the property: identifier -> description."""
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


# ---------------------------------------------------------------- building

def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class Profile:
    def __init__(self, name, cargo, outdir, env=None, toolchain=None):
        self.name, self.cargo, self.outdir, self.env, self.toolchain = name, cargo, outdir, env or {}, toolchain
        self.runenv = {}


def profiles(names):
    host = "x86_64-unknown-linux-gnu"
    table = {
        "checked": Profile("checked", [], "debug"),
        "fast": Profile("fast", ["--release"], "release"),
        "asan": Profile(
            "asan",
            ["--target", host, "--features", "plain-alloc"],
            os.path.join(host, "debug"),
            {"RUSTFLAGS": "-Awarnings -Zsanitizer=address"},
            "+nightly",
        ),
    }
    table["asan"].runenv = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"}
    return [table[n] for n in names]


def target_dir(p):
    return TARGET + "-asan" if p.name == "asan" else TARGET


def build(binary, profs):
    """Builds the binary of the property in each profile from /repo's current tree."""
    want = repo_hash()
    procs = []
    for tdir in sorted({target_dir(p) for p in profs}):
        os.makedirs(tdir, exist_ok=True)
        stamp = os.path.join(tdir, "repo.sha256")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            for f in glob.glob(os.path.join(tdir, "**", ".fingerprint", "mdarray-*"), recursive=True):
                shutil.rmtree(f, ignore_errors=True)
            for f in glob.glob(os.path.join(tdir, "**", ".fingerprint", "harness-*"), recursive=True):
                shutil.rmtree(f, ignore_errors=True)
            if os.path.exists(stamp):
                os.remove(stamp)
    out = {}
    for tdir in sorted({target_dir(p) for p in profs}):
        for p in [p for p in profs if target_dir(p) == tdir]:
            env = dict(os.environ)
            env.pop("CARGO_ENCODED_RUSTFLAGS", None)
            env["RUSTFLAGS"] = "-Awarnings"
            env["CARGO_TARGET_DIR"] = tdir
            env["CARGO_NET_OFFLINE"] = "true"
            env.update(p.env)
            cmd = ["cargo"] + ([p.toolchain] if p.toolchain else []) + ["build", "--offline", "--locked", "--bin", binary] + p.cargo
            # The two profiles use different directories; cargo locks each of them separately.
            procs.append((p, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            out[p.name] = os.path.join(tdir, p.outdir, binary)
    bad = None
    for p, proc in procs:
        text, _ = proc.communicate()
        if proc.returncode != 0:
            bad = (p, text)
    if bad:
        errs = re.findall(r"^error.*?(?=^\S|\Z)", bad[1], re.S | re.M)
        e = BuildFailed("build failed (%s)\n%s" % (bad[0].name, "".join(errs)[:4000] or bad[1][-3000:]))
        e.user = "could not compile `harness`" in bad[1] and "could not compile `mdarray`" not in bad[1] and bool(re.search(r"^error\[E\d+\]", bad[1], re.M))
        e.profile = bad[0].name
        raise e
    for tdir in {target_dir(p) for p in profs}:
        with open(os.path.join(tdir, "repo.sha256"), "w") as f:
            f.write(want)
    return out


# ---------------------------------------------------------------- single cases

def run_one(exe, p, sub, choices=None, case_seed=None, timeout=20.0, trace=None):
    """Runs one case. Returns (failed, message, choices, notes)."""
    cmd = [exe, "one", "--sub", sub]
    if choices is not None:
        cmd += ["--choices", "-"]
    else:
        cmd += ["--case-seed", str(case_seed)]
    if trace:
        cmd += ["--trace", trace]
    env = dict(os.environ)
    env.update(p.runenv)
    try:
        data = ",".join(map(str, choices)).encode() if choices is not None else b""
        r = subprocess.run(cmd, input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        rc, out = r.returncode, r.stdout.decode("utf8", "replace")
        err = r.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = "timeout", "", ""
    notes = re.search(r"^NOTES (.*)$", out, re.M)
    ch = re.search(r"^CHOICES (.*)$", out, re.M)
    notes = notes.group(1) if notes else ""
    got = [int(x) for x in ch.group(1).split(",") if x] if ch else None
    if trace and got is None and os.path.exists(trace):
        lines = open(trace, errors="replace").read().splitlines()
        got = [int(l[2:]) for l in lines if l.startswith("c ")]
        notes = "; ".join(l[2:] for l in lines if l.startswith("n "))
    if rc == 0:
        return False, "", got, notes
    if rc == 3:
        m = re.search(r"^RESULT fail (.*)$", out, re.M)
        return True, m.group(1) if m else "failed", got, notes
    if rc == "timeout":
        return True, "the case does not terminate", got, notes
    if isinstance(rc, int) and rc < 0:
        if -rc not in CRASH:
            raise NoAnswer("case ended by signal %d" % -rc)
        msg = "the process crashed with %s" % signal.Signals(-rc).name
        m = re.search(r"ERROR: AddressSanitizer: (.*)", err) or re.search(r"panicked at (.*\n.*)", err)
        if m:
            msg += " (%s)" % m.group(1).replace("\n", " ")[:300]
        return True, msg, got, notes
    raise NoAnswer("case runner exited with %r: %s" % (rc, err[-1000:]))


def kind(msg):
    if "does not terminate" in msg:
        return "hang"
    return "crash" if "process crashed" in msg else "fail"


def shrink(exe, p, sub, choices, msg, budget=25.0, attempts=600):
    """Deletes and reduces choices while the case still fails."""
    best, best_msg = list(choices), msg
    start, used = time.time(), 0
    hang = kind(msg) == "hang"
    timeout = 3.0 if hang else 10.0

    def attempt(c):
        nonlocal best, best_msg, used
        if c == best or used >= attempts or time.time() - start > budget:
            return False
        used += 1
        tr = tempfile.mktemp()
        try:
            bad, m, got, _ = run_one(exe, p, sub, choices=c, timeout=timeout, trace=tr)
        except NoAnswer:
            return False
        finally:
            if os.path.exists(tr):
                os.remove(tr)
        if bad and (kind(m) == "hang") == hang:
            got = got if got is not None else c
            # Trailing zeros are implied.
            while got and got[-1] == 0:
                got = got[:-1]
            if (len(got), sum(got)) < (len(best), sum(best)):
                best, best_msg = got, m
                return True
        return False

    while best and best[-1] == 0:
        best = best[:-1]
    improved = True
    while improved and used < attempts and time.time() - start < budget:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if used >= attempts or time.time() - start > budget:
                    break
            size //= 2
        i = 0
        while i < len(best):
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                    improved = True
                    break
            i += 1
    return best, best_msg, used


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = re.sub(r"[^A-Za-z0-9]+", "-", data.get("sub", "shard")).strip("-")
    path = os.path.join(d, "%s-%s-%s.json" % (prop, name, data["profile"]))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


# ---------------------------------------------------------------- campaigns

class Worker:
    def __init__(self, exe, p, seed, shard, shards, cases, secs, tmp, only, start=None):
        self.exe, self.p, self.seed, self.shard, self.shards = exe, p, seed, shard, shards
        self.cases, self.only, self.tmp = cases, only, tmp
        self.deadline = time.time() + secs
        self.parts = []
        self.n = 0
        self.launch(start)

    def launch(self, start=None):
        self.n += 1
        base = os.path.join(self.tmp, "%s-%d-%d" % (self.p.name, self.shard, self.n))
        self.out, self.cur = base + ".json", base + ".cur"
        cmd = [self.exe, "run", "--seed", str(self.seed), "--shard", str(self.shard), "--shards", str(self.shards),
               "--cases", str(self.cases), "--secs", "%.1f" % max(1.0, self.deadline - time.time()),
               "--out", self.out, "--cur", self.cur]
        if self.only:
            cmd += ["--only", self.only]
        if start is not None:
            cmd += ["--start", str(start)]
        env = dict(os.environ)
        env.update(self.p.runenv)
        self.err = open(base + ".err", "wb+")
        self.proc = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.err, env=env)
        self.last, self.last_t = None, time.time()

    def current(self):
        try:
            line = open(self.cur).read().splitlines()[0]
            idx, cs, sub = line.split(None, 2)
            return int(idx), int(cs), sub
        except (OSError, IndexError, ValueError):
            return None


def campaign(prop, exes, profs, seed, cases, secs, only):
    """Runs all shards; returns (stats, failure or None)."""
    tmp = tempfile.mkdtemp(prefix="mdcheck-")
    workers, failure = [], None
    per = max(1, CORES // len(profs))
    results = []
    try:
        for k, p in enumerate(profs):
            n = int(cases * {"fast": 1, "checked": 0.3, "asan": 0.1}[p.name])
            for s in range(per):
                workers.append(Worker(exes[p.name], p, seed * 1000003 + k, s, per, n, secs, tmp, only))
        running = list(workers)
        while running and failure is None:
            time.sleep(0.03)
            for w in list(running):
                rc = w.proc.poll()
                if rc is None:
                    cur = w.current()
                    if cur != w.last:
                        w.last, w.last_t = cur, time.time()
                    elif time.time() - w.last_t > HANG and cur:
                        w.proc.kill()
                        w.proc.wait()
                        idx, cs, sub = cur
                        hung = True
                        for _ in range(2):
                            bad, msg, _, _ = run_one(w.exe, w.p, sub, case_seed=cs, timeout=30.0)
                            if not (bad and kind(msg) == "hang"):
                                hung = False
                        if hung:
                            failure = (w, sub, cs, None, "the case does not terminate", "")
                            break
                        w.launch(start=idx + w.shards)
                    continue
                running.remove(w)
                if rc in (0, 3):
                    r = json.load(open(w.out))
                    results.append((w, r, w.out + ".hashes"))
                    if rc == 3:
                        f = r["failure"]
                        failure = (w, f["sub"], None, f["choices"], f["message"], f["notes"])
                        break
                elif rc < 0 and -rc in CRASH:
                    cur = w.current()
                    if cur is None:
                        raise NoAnswer("worker crashed before its first case")
                    failure = (w, cur[2], cur[1], None, "the process crashed with %s" % signal.Signals(-rc).name, "")
                    failure[0].crash_index = cur[0]
                    break
                else:
                    w.err.seek(0)
                    raise NoAnswer("worker ended with status %d: %s" % (rc, w.err.read()[-1000:].decode("utf8", "replace")))
        stats = {"evaluations": 0, "nontrivial": 0, "tags": {}, "subs": {}, "samples": [], "rule": "", "timed_out": False, "profiles": {}, "slowest": (0.0, "")}
        distinct = set()
        for w, r, hashes in results:
            stats["evaluations"] += r["evaluations"]
            stats["nontrivial"] += r["nontrivial"]
            stats["timed_out"] |= r["timed_out"]
            stats["rule"] = r["rule"]
            stats["slowest"] = max(stats["slowest"], (r["slowest"], r["slowest_case"]))
            stats["profiles"][w.p.name] = stats["profiles"].get(w.p.name, 0) + r["evaluations"]
            for k, v in r["tags"].items():
                stats["tags"][k] = stats["tags"].get(k, 0) + v
            for k, v in r["subs"].items():
                stats["subs"][k] = stats["subs"].get(k, 0) + v
            stats["samples"] += r["samples"]
            if len(distinct) < 20_000_000:
                data = open(hashes, "rb").read()
                distinct.update(data[i:i + 8] for i in range(0, len(data), 8))
        stats["distinct"] = len(distinct)
        return stats, failure
    finally:
        for w in workers:
            if w.proc.poll() is None:
                w.proc.kill()
            w.proc.wait()
            w.err.close()
        shutil.rmtree(tmp, ignore_errors=True)


def cut(text, n=1500):
    return text if len(text) <= n else "%s ... (%d characters)" % (text[:n], len(text))


def report(prop, cfg, failure):
    """Confirms, shrinks and records a failure. Prints the VIOLATION line."""
    w, sub, cs, choices, msg, notes = failure
    trace = tempfile.mktemp(prefix="mdtrace-")
    try:
        bad, m, got, nt = run_one(w.exe, w.p, sub, choices=choices, case_seed=cs, timeout=30.0, trace=trace)
    finally:
        if os.path.exists(trace):
            os.remove(trace)
    data = {"property": prop, "profile": w.p.name, "sub": sub}
    if bad and got is not None:
        best, best_msg, used = shrink(w.exe, w.p, sub, got, m)
        trace = tempfile.mktemp(prefix="mdtrace-")
        bad2, m2, got2, notes2 = run_one(w.exe, w.p, sub, choices=best, timeout=30.0, trace=trace)
        if os.path.exists(trace):
            os.remove(trace)
        data.update(choices=best, message=m2 if bad2 else best_msg, case=notes2, first_choices=len(got), shrink_runs=used)
    else:
        # Only fails after the earlier cases of the shard: the replay runs the shard.
        data.update(shard={"seed": w.seed, "shard": w.shard, "shards": w.shards, "cases": w.cases}, message=msg, case=notes)
    path = write_replay(prop, data)
    log("sub-check: %s (profile %s)" % (sub, w.p.name))
    log("case: %s" % cut(data["case"]))
    log("failure: %s" % cut(data["message"]))
    log("VIOLATION property=%s replay=%s" % (prop, path))


def type_error(prop, tier, seed, cfg, e, t0):
    """For properties about static types: the library compiles, and the program that uses its
    results with the promised types does not."""
    path = write_replay(prop, {"property": prop, "profile": e.profile, "sub": "types", "types": True, "message": str(e)})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                     "rule": "The program with the promised types is compiled first; it was rejected, so that no case was run.",
                     "samples": [str(e)[:2000]]},
        "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log("The program that relies on the promised types does not compile:")
    log(str(e))
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def check(prop, tier, seed, only=None):
    cfg = CONFIG[prop]
    os.environ["MDARRAY_KNOWN"] = ",".join(findings(prop))
    t0 = time.time()
    names = cfg.get(tier + "_profiles", ["checked", "fast"])
    profs = profiles(names)
    try:
        exes = build(cfg["bin"], profs)
    except BuildFailed as e:
        if not (e.user and cfg.get("types")):
            raise
        return type_error(prop, tier, seed, cfg, e, t0)
    built = time.time() - t0
    cases, secs = cfg[tier]["cases"], cfg[tier]["secs"]
    stats, failure = campaign(prop, exes, profs, seed, cases, secs, only)
    if failure:
        report(prop, cfg, failure)
    for ident, text in findings(prop).items():
        if stats["tags"].get(ident):
            log("KNOWN-FINDING: property=%s %s" % (prop, text))
    samples = stats["samples"][:40]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": cfg["level"],
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": stats["distinct"],
            "rule": "Cases are drawn by the generators of each sub-check from a seeded choice sequence; a case is non-trivial if "
                    + stats["rule"] + ". Distinct cases are counted by sub-check and choice sequence.",
            "samples": samples,
            "nontrivial_with_repeats": stats["nontrivial"],
            "cases_per_profile": stats["profiles"],
            "cases_per_sub_check": stats["subs"],
            "events": stats["tags"],
            "stopped_by_time_limit": stats["timed_out"],
            "slowest_case": "%.3f s: %s" % stats["slowest"],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log("%s %s seed=%d: %d cases (%d distinct non-trivial) in %.1f s, of which build %.1f s, slowest case %.2f s%s"
        % (prop, tier, seed, stats["evaluations"], stats["distinct"], time.time() - t0, built, stats["slowest"][0],
           "" if not failure else " - FAILED"))
    return 1 if failure else 0


def replay(path):
    data = json.load(open(path))
    prop = data["property"]
    cfg = CONFIG[prop]
    os.environ["MDARRAY_KNOWN"] = ",".join(findings(prop))
    profs = profiles([data["profile"]])
    try:
        exes = build(cfg["bin"], profs)
    except BuildFailed as e:
        if not (e.user and data.get("types")):
            raise
        log("failure: %s" % e)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if data.get("types"):
        log("the program compiles")
        return 0
    p, exe = profs[0], exes[data["profile"]]
    if "choices" in data:
        bad, msg, _, notes = run_one(exe, p, data["sub"], choices=data["choices"], timeout=60.0)
        log("case: %s" % (notes or data.get("case", "")))
    else:
        s = data["shard"]
        tmp = tempfile.mkdtemp(prefix="mdcheck-")
        w = Worker(exe, p, s["seed"], s["shard"], s["shards"], s["cases"], 600, tmp, None)
        rc = w.proc.wait()
        bad, msg = rc != 0, "shard ended with status %d" % rc
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        log("failure: %s" % msg)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("the case passes")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        return check(a.property, a.tier, a.seed, a.only)
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
