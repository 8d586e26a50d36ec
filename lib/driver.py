"""What every check shares: building from /repo's working tree, running jobs, reporting, evidence.

Exit codes: 0 the property held on everything explored, 1 with a VIOLATION line, 2 the check itself could not answer.
"""
import concurrent.futures as cf
import fcntl, glob, resource, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()


class CheckError(Exception):
    """The check cannot answer (exit 2)."""


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(kw)
    return e


def tree_hash():
    """Content of everything the build of enumset reads."""
    h = hashlib.sha256()
    files = []
    for d in ("enumset", "enumset_derive"):
        for root, dirs, names in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("target", "tests")]
            files += [os.path.join(root, n) for n in names]
    for f in sorted(files) + [os.path.join(REPO, "Cargo.toml")]:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def fresh_target(target=None):
    """Cargo trusts modification times; a tree restored with old ones would be taken for built. So, when the content
    differs from that of the last build, forget that enumset was ever built in this target directory."""
    target = target or TARGET
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "enumset-tree")
    now = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for p in glob.glob(os.path.join(target, "**", ".fingerprint", "enumset*"), recursive=True):
            shutil.rmtree(p, ignore_errors=True)
        open(stamp, "w").write(now)


def lock():
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, ".verif-lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, cwd=None, timeout=None, e=None, stdin=None, mem_gb=None):
    limit = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))) if mem_gb else None
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           input=stdin, text=True, errors="replace", preexec_fn=limit)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        dec = lambda b: (b or b"").decode(errors="replace") if isinstance(b, (bytes, type(None))) else b
        return None, dec(x.stdout), dec(x.stderr)


def replay_file(pid, name, text):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', name)[:80]}.txt")
    open(p, "w").write(text)
    return p


class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.violations = []   # (key, text for the replay)
        self.coverage = {}
        self.assumptions = []
        self.known = load_known(pid)

    def violation(self, key, text):
        self.violations.append((key, text))

    def finish(self):
        fresh = []
        for key, text in self.violations:
            hit = next((k for k in self.known if k[0] in key), None)
            if hit:
                print(f"KNOWN-FINDING: property={self.pid} {hit[1]}")
            else:
                fresh.append((key, text))
        for i, (key, text) in enumerate(fresh[:5]):
            p = replay_file(self.pid, key, text)
            print(f"--- {self.pid} {key}\n{text[:1500]}")
            print(f"VIOLATION property={self.pid} replay={p}")
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        c = {k: v for k, v in self.coverage.items() if isinstance(v, (int, bool))}
        print(f"{self.pid} {TIER}: {'VIOLATED' if fresh else 'held'} on {c} in {ev['wall_s']} s")
        sys.stdout.flush()
        return 1 if fresh else 0


def load_known(pid):
    """known_findings.txt: lines `finding: property=<id> key=<substring of the violation's key> <what fails>`;
    lines `fixed: ...` are a record and suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def build(rep, crate, args, toolchain=None, target=None, extra_env=None, timeout=800):
    """Builds a harness crate. A harness that stops compiling while enumset itself compiles is a violation: the harness
    only uses the documented API on documented-valid enums. Returns True when built."""
    d = os.path.join(VERIF, crate)
    target = target or TARGET
    fresh_target(target)
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "-q"] + args
    e = env(CARGO_TARGET_DIR=target, **(extra_env or {}))
    # what cargo writes to the lock must not differ from what is committed
    rc, out, err = run(cmd, cwd=d, e=e, timeout=timeout)
    if rc == 0:
        return True
    if rc is None:
        raise CheckError(f"build of {crate} timed out")
    rc2, _, err2 = run(["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "-q", "-p", "enumset"], cwd=d, e=e,
                       timeout=timeout)
    if rc2 != 0:
        raise CheckError(f"enumset itself does not build:\n{err2[-3000:]}")
    # make sure the failure is rustc's judgement and not, say, a full disk
    if not re.search(r"^error(\[E\d+\])?:", err, re.M) or re.search(r"No space left|signal: 9|SIGKILL|cannot allocate", err):
        raise CheckError(f"build of {crate} failed:\n{err[-3000:]}")
    first = re.search(r"^error.*?(?=^\S|\Z)", err, re.M | re.S)
    rep.violation(f"build-{crate}", "A program that uses only the documented API on documented-valid enums does not compile any more, "
                  f"although enumset itself does.\ncommand: (cd {d} && {' '.join(cmd)})\n\n{err[-6000:] if not first else first.group(0)[:2000] + chr(10) + '...' + chr(10) + err[-4000:]}")
    return False


JOB_TIMEOUT = 250 if TIER == "thorough" else 120


def run_jobs(rep, exe, jobs, timeout=None, runner=None, e=None, mem_gb=3):
    """Runs one subprocess per job. Returns the `done` records. Once a few jobs have failed no more are started: the
    verdict is known, and a job that hangs costs its whole time limit."""
    timeout = timeout or JOB_TIMEOUT
    done, bad = [], []
    runner = runner or []

    def one(job):
        if len(bad) >= 6:
            return None
        t = time.time()
        rc, out, err = run(runner + [exe, "--job", job, "--tier", TIER], timeout=timeout, e=e, mem_gb=mem_gb)
        if rc != 0:
            bad.append(job)
        return job, rc, out, err, time.time() - t

    with cf.ThreadPoolExecutor(NCPU) as ex:
        results = [r for r in ex.map(one, jobs) if r]
    slow = sorted(results, key=lambda r: -r[4])[:3]
    lost = []
    for job, rc, out, err, dt in results:
        rec = None
        for line in out.splitlines():
            if line.startswith("{"):
                try:
                    rec = json.loads(line)
                except ValueError:
                    pass
        if rc == 0 and rec and rec["kind"] == "done":
            done.append(rec)
        elif rc == 3 and rec and rec["kind"] == "fail":
            rep.violation(job, f"case: {rec['case']}\nexpected: {rec['want']}\nobserved: {rec['got']}\n"
                          f"reproduce: {exe} --job {job} --tier {TIER}\n")
        else:
            lost.append((job, rc, out, err))
    lost.sort(key=lambda r: r[1] is None)
    if lost and not rep.violations:
        job, rc, out, err = lost[0]
        crashed(rep, exe, job, rc, out, err, timeout, runner, e, mem_gb)
    rep.slow = [(r[0], round(r[4], 1)) for r in slow]
    return done


def crashed(rep, exe, job, rc, out, err, timeout, runner, e, mem_gb):
    """The job ended without a verdict: name the case it ended in, twice the same, before believing it."""
    if rc in (-9, 137):
        raise CheckError(f"job {job} was killed (out of memory?)")

    def again(k):
        tr = os.path.join(TARGET, f"trace-{os.getpid()}-{k}.txt")
        rc2, out2, err2 = run(runner + [exe, "--job", job, "--tier", TIER, "--trace", tr], timeout=timeout * 2, e=e, mem_gb=mem_gb)
        try:
            mark = open(tr, errors="replace").read().strip()
        except OSError:
            mark = "<nothing>"
        if os.path.exists(tr):
            os.remove(tr)
        return rc2, mark, out2, err2

    with cf.ThreadPoolExecutor(2) as ex:
        marks = list(ex.map(again, range(2)))
    for rc2, mark, out2, err2 in marks:
        if rc2 == 0:
            raise CheckError(f"job {job} ended with {rc}, then passed when repeated:\n{out[-500:]}\n{err[-1500:]}")
        if rc2 in (-9, 137):
            raise CheckError(f"job {job} was killed (out of memory?)")
    if marks[0][:2] != marks[1][:2]:
        raise CheckError(f"job {job} ended with {rc}, and differently when repeated: {[m[:2] for m in marks]}\n{err[-1500:]}")
    how = "did not end" if rc is None else f"ended with status {rc}"
    rep.violation(job, f"The job {how} instead of giving an answer; the last case it began (after which it was still building the next, "
                  f"if it is not the one to blame):\n{marks[0][1]}\nstdout: {out[-800:]}\nstderr: {err[-1500:]}\n"
                  f"reproduce: {exe} --job {job} --tier {TIER} --trace /tmp/trace.txt\n")


def mc_coverage(rep, done, njobs, bounds, extra=None):
    """Coverage of a state-space check, summed over what the jobs measured."""
    samples = []
    for r in done:
        samples += r["samples"][-1:]
    step = max(1, len(samples) // 12)
    notes = sorted({n for r in done for n in r["notes"]})
    common = dict(enums=len(done), jobs=njobs, bounds=bounds, samples=samples[::step][:12], exhaustive=True,
                  slowest_jobs=[f"{a} {b}s" for a, b in getattr(rep, "slow", [])])
    total = lambda k: sum(r[k] for r in done)
    if rep.level == "model_checking":
        rep.coverage = dict(states=total("states"), transitions=total("transitions"), traces_validated_against_impl=total("traces"),
                            distinct_outcomes=total("outcomes"), **common)
    else:
        rep.coverage = dict(evaluations=total("transitions"), distinct_nontrivial=total("outcomes"), cases=total("states"), **common)
    if notes:
        rep.coverage["notes"] = notes[:20]
    if extra:
        rep.coverage.update(extra)


# ---- interpreting programs for other platforms

HOST = "x86_64-unknown-linux-gnu"
BE32, BE64, LE32 = "powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"


def miri_sysroot(t):
    root = os.path.join(TARGET, "miri-" + t)
    if os.path.isdir(root):
        return root
    tmp = root + f".{os.getpid()}"
    rc, out, err = run(["cargo", "+nightly", "miri", "setup", "--target", t], cwd="/tmp", e=env(MIRI_SYSROOT=tmp), timeout=600)
    if rc != 0:
        raise CheckError(f"miri setup {t}: {err[-1500:]}")
    os.rename(tmp, root)
    return root


def pointer_widths(rep, which, targets=(HOST, LE32, BE32)):
    """The part of C06 and C07 that depends on the width of usize, of C10 that depends on byte order and calling convention, interpreted for other platforms."""
    d = os.path.join(VERIF, "w32")
    target = os.path.join(TARGET, "w32")
    fresh_target(target)

    def cmd(t):
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", t, "--", which]

    def one(t):
        e = env(MIRI_SYSROOT=miri_sysroot(t), CARGO_TARGET_DIR=os.path.join(target, t), MIRIFLAGS="-Zmiri-disable-isolation")
        fresh_target(os.path.join(target, t))
        return run(cmd(t), cwd=d, e=e, timeout=600)

    with cf.ThreadPoolExecutor(len(targets)) as ex:
        results = list(ex.map(one, targets))
    done = []
    for t, (rc, out, err) in zip(targets, results):
        rec = next((json.loads(l) for l in out.splitlines() if l.startswith("{")), None)
        if rc == 0 and rec and rec["kind"] == "done":
            done.append(rec)
        elif rec and rec["kind"] == "fail":
            rep.violation(f"{t}-{which}", f"platform {t}\ncase: {rec['case']}\nexpected: {rec['want']}\nobserved: {rec['got']}\nreproduce: (cd {d} && {' '.join(cmd(t))})\n")
        elif "Undefined Behavior" in err:
            rep.violation(f"{t}-{which}-ub", f"platform {t}\n{err[err.index('Undefined Behavior'):][:3000]}")
        else:
            raise CheckError(f"w32 {which} on {t}: {rc} {err[-2000:]}")
    return done
