"""C22 and C23: one fixed exploration (crate cf) under an interpreter that detects undefined behaviour, on several platforms,
and under every configuration; the transcripts have to agree."""
import concurrent.futures as cf
from driver import *

CF = os.path.join(VERIF, "cf")


def transcript(out):
    """{section: (count, hash)}, complete?"""
    d, end = {}, None
    for l in out.splitlines():
        w = l.split()
        if len(w) == 3 and w[0] == "end":
            end = int(w[2])
        elif len(w) == 3:
            d[w[0]] = (w[1], w[2])
    return d, end


def diff(a, b, skip):
    return sorted(s for s in set(a) | set(b) if not any(x in s for x in skip) and a.get(s) != b.get(s))


def details(what_a, dump_a, what_b, dump_b, section):
    """The first records of a section that differ."""
    la, lb = [[l for l in x.splitlines() if l.startswith(section + ":")] for x in (dump_a, dump_b)]
    n = next((i for i in range(max(len(la), len(lb))) if la[i:i + 1] != lb[i:i + 1]), None)
    if n is None:
        return f"(the records of {section} agree when repeated)"
    return "\n".join([f"section {section}, record {n} of {len(la)}/{len(lb)}:", f"  {what_a}: {(la[n:n+1] or ['-'])[0]}", f"  {what_b}: {(lb[n:n+1] or ['-'])[0]}"] + [f"  then {x} / {y}" for x, y in zip(la[n + 1:n + 4], lb[n + 1:n + 4])])


def bad_build(err):
    return not re.search(r"^error(\[E\d+\])?:", err, re.M) or re.search(r"No space left|SIGKILL|signal: 9|cannot allocate", err)


def build_cf(rep, target, feats, profile="dev", toolchain=None):
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "-q", "--features", ",".join(feats), "--profile", profile]
    rc, out, err = run(cmd, cwd=CF, e=env(CARGO_TARGET_DIR=target), timeout=700)
    if rc == 0:
        return os.path.join(target, "debug" if profile == "dev" else profile, "cf")
    if rc is None or bad_build(err):
        raise CheckError(f"building cf: {rc} {err[-2000:]}")
    rc2, _, err2 = run(cmd + ["-p", "enumset"], cwd=CF, e=env(CARGO_TARGET_DIR=target), timeout=700)
    key = f"build-{'+'.join(feats) or 'none'}-{profile}"
    i = re.search(r"^error", err, re.M).start()
    rep.violation(key, f"features [{','.join(feats)}], profile {profile}: {'enumset' if rc2 else 'a program that uses only the documented API'} does not compile\n{' '.join(cmd)}\n{err[i:i + 4000]}")
    return None


def go(exe, args):
    rc, out, err = run([exe] + args, timeout=200, mem_gb=3)
    if rc is None:
        raise CheckError(f"{exe} {args} did not end")
    return rc, out, err


# ---- C22

MIRI = "-Zmiri-strict-provenance -Zmiri-disable-isolation -Zmiri-backtrace=1 "


def c22(rep):
    thorough = TIER == "thorough"
    size = "small" if thorough else "tiny"
    # (target, features, flags): alignment is checked symbolically only where no dependency trips over it
    sym = "-Zmiri-symbolic-alignment-check "
    confs = [(HOST, "alloc", sym), (BE32, "serde,alloc", "")]
    if thorough:
        confs += [(HOST, "serde,alloc", "-Zmiri-tree-borrows "), (BE64, "serde,alloc", "-Zmiri-seed=7 "), (LE32, "serde,alloc", "-Zmiri-seed=3 "), (BE32, "alloc", sym), (BE64, "alloc", sym), (LE32, "", sym)]
    targets = sorted({c[0] for c in confs})
    roots = {}

    native_target = os.path.join(TARGET, "cf0")
    mtarget = os.path.join(TARGET, "cfm")
    fresh_target(native_target)
    fresh_target(mtarget)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = {t: ex.submit(miri_sysroot, t) for t in targets}
        native = build_cf(rep, native_target, ["alloc", "serde"])
        roots = {t: f.result() for t, f in fs.items()}
    if not native:
        rep.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["the program did not compile"])
        return
    rc, base_out, err = go(native, ["--size", size])
    base, end = transcript(base_out)
    if end is None:
        rep.violation("native", f"the native run of the exploration ended with {rc} in section {next(reversed(base), '-')}\n{err[-1500:]}")
        end = 0

    def menv(t, flags):
        return env(MIRI_SYSROOT=roots[t], CARGO_TARGET_DIR=mtarget, MIRIFLAGS=MIRI + flags, CF_PROGRESS="1")

    def mcmd(t, feats):
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", t, "--features", feats, "--"]

    N = 17
    for t, feats, flags in confs:  # builds, one after another
        rc, out, err = run(mcmd(t, feats) + ["--part", f"{10**6}/{10**6 + 1}"], cwd=CF, e=menv(t, flags), timeout=700)
        if rc != 0:
            raise CheckError(f"building for {t}: {err[-2500:]}")
    jobs = [(c, p) for c in confs for p in range(N)]
    stop = []

    def one(job):
        (t, feats, flags), p = job
        if len(stop) > 3:
            return None
        rc, out, err = run(mcmd(t, feats) + ["--part", f"{p}/{N}", "--size", size], cwd=CF, e=menv(t, flags), timeout=600)
        if rc != 0:
            stop.append(1)
        return rc, out, err

    with cf.ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, jobs))
    records, sections, samples, differing = 0, 0, [], []
    for ((t, feats, flags), p), r in zip(jobs, outs):
        if r is None:
            continue
        rc, out, err = r
        got, e2 = transcript(out)
        where = f"{t} [{feats}] part {p}/{N}"
        at = re.findall(r"^@ (\S+)", err, re.M)
        if rc != 0:
            m = re.search(r"^error: (Undefined Behavior: .*|memory leaked.*|abnormal termination.*)", err, re.M)
            if m and "Undefined" in m.group(1):
                body = err[m.start():]
                rep.violation(f"ub-{t}-{at[-1] if at else '?'}", f"{where}, {flags}\nin section {at[-1] if at else '?'} (repeat: {' '.join(mcmd(t, feats))} --part {p}/{N} --size {size})\n{body[:5000]}")
                continue
            if rc is None:
                raise CheckError(f"{where}: no end within 600 s, in {at[-1:]}")
            if m:
                rep.violation(f"end-{t}-{at[-1] if at else '?'}", f"{where}: {err[m.start():][:3000]}")
                continue
            raise CheckError(f"{where}: miri ended with {rc}: {err[-2500:]}")
        if e2 is None:
            raise CheckError(f"{where}: incomplete transcript")
        records += e2
        sections += len(got)
        skip = ["/native-"] if t != HOST else []
        if "serde" not in feats:
            skip += ["/serde-"]
        if "alloc" not in feats:
            skip += ["/alloc-"]
        mine = {s: v for s, v in base.items() if s.split("/")[0] in {x.split("/")[0] for x in got}}
        for s in diff(mine, got, skip)[:1]:
            differing.append((t, feats, flags, p, s))
        if p % 8 == 3 and got:
            s = sorted(got)[len(got) // 2]
            samples.append(f"{t} [{feats}] {s}: {got[s][0]} records, fingerprint {got[s][1]}, as natively")
    for t, feats, flags, p, s in differing[:3]:
        _, a, _ = go(native, ["--size", size, "--dump", s])
        rc, b, err = run(mcmd(t, feats) + ["--part", f"{p}/{N}", "--size", size, "--dump", s], cwd=CF, e=menv(t, flags), timeout=600)
        rep.violation(f"result-{t}-{s}", f"{t}: the result differs from that on {HOST}\n{details(HOST, a, t, b, s)}")
    rep.coverage = dict(states=sections, transitions=records, traces_validated_against_impl=records, exhaustive=True, platforms=[f"{t} [{f}] {fl}".strip() for t, f, fl in confs],
                        bounds=f"53 enums (all storages, formats, integer layouts, sparse, single-variant and empty ones, one whose PartialEq lies); size '{size}': all subsets of up to {4 if thorough else 3} boundary variants and their complements, all pairs of those of {3 if thorough else 2}, every public safe method; integers, word lists and JSON/bincode inputs with unknown bits",
                        samples=samples[:12])


# ---- C23

FEATS = ["alloc", "serde", "std", "proc-macro-crate"]


def c23(rep):
    thorough = TIER == "thorough"
    size = "full"
    allf = ["alloc", "serde", "proc-macro-crate"]
    subsets = [[f for i, f in enumerate(FEATS) if b >> i & 1] for b in range(16)]
    confs = [(allf, "dev")]
    if thorough:
        confs += [(s, p) for s in subsets for p in ("dev", "release", "devplain", "relchecked") if (s, p) not in confs] + [(allf, "small"), ([], "small"), (["serde", "std"], "small")]
    else:
        confs += [(s, "dev") for s in ([], ["alloc"], ["serde"], ["std"], ["proc-macro-crate"], ["serde", "std"], FEATS)]
        confs += [(allf, "release"), (allf, "relchecked"), (allf, "devplain"), ([], "release"), (["serde"], "devplain")]
    workers = 4
    queues = [[] for _ in range(workers)]
    for i, c in enumerate(confs):
        queues[i % workers].append(c)

    def work(w):
        target = os.path.join(TARGET, f"cf{w}")
        fresh_target(target)
        res = []
        for feats, profile in queues[w]:
            exe = build_cf(rep, target, feats, profile)
            if exe:
                keep = f"{exe}-{'_'.join(feats)}-{profile}"
                shutil.copy(exe, keep)
                res.append((feats, profile, keep, go(keep, ["--size", size])))
        return res

    with cf.ThreadPoolExecutor(workers) as ex:
        runs = [r for rs in ex.map(work, range(workers)) for r in rs]
    runs.sort(key=lambda r: confs.index((r[0], r[1])))
    if not runs:
        rep.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["nothing compiled"])
        return
    name = lambda r: f"[{','.join(r[0])}] {r[1]}"
    base = runs[0]
    b, bend = transcript(base[3][1])
    records, sections, samples = 0, 0, []
    for r in runs:
        rc, out, err = r[3]
        got, end = transcript(out)
        if end is None:
            rep.violation(f"end-{name(r)}", f"{name(r)}: the program ended with {rc} after section {next(reversed(got), '-')}\n{err[-1500:]}")
            continue
        records += end
        sections += len(got)
        skip = [] if {"alloc", "std"} & set(r[0]) else ["/alloc-"]
        if "serde" not in r[0]:
            skip += ["/serde-"]
        d = diff(b, got, skip)
        for s in d[:2]:
            _, x, _ = go(base[2], ["--size", size, "--dump", s])
            _, y, _ = go(r[2], ["--size", size, "--dump", s])
            rep.violation(f"differs-{name(r)}-{s}", f"features and profile change an answer ({len(d)} sections differ)\n{details(name(base), x, name(r), y, s)}\nreproduce: cargo build in {CF} with these features and profile, then cf --size {size} --dump {s}")
        if got:
            s = sorted(got)[(len(samples) * 37) % len(got)]
            samples.append(f"{name(r)}: {end} answers; {s}: {got[s][0]} records, fingerprint {got[s][1]}")
    rep.coverage = dict(states=sections, transitions=records, traces_validated_against_impl=records, exhaustive=True, configurations=len(runs),
                        bounds="53 enums; all subsets of up to 7 boundary variants and their complements, all pairs of those of 4, every public safe method, every single-bit integer and word list to 6 words; "
                               + ("all 16 feature subsets x 4 profiles, 3 x a fifth" if thorough else "8 feature subsets, 4 profiles"), samples=samples[:14])
