"""Programs given to rustc: many small modules per file, each judged on its own.

A module is accepted when a file in which no module has an error compiles. Modules with errors (attributed by the lines of the
diagnostics' spans) are set aside and the rest is compiled again, until nothing is left to set aside: so an error of an early
phase never hides the judgement on another module, and what is accepted has been through the whole compiler, code generation included.
"""
import json, os, shutil
from driver import *

RUSTC = ["rustc"]
EXEC_TIMEOUT = 60 if TIER == "quick" else 200


class Externs:
    def __init__(self, crate, target=None, features=None):
        """Builds the dependencies of a harness crate and finds their libraries."""
        d = os.path.join(VERIF, crate)
        target = target or TARGET
        fresh_target(target)
        cmd = ["cargo", "build", "--offline", "--lib", "--message-format=json"] + (["--features", features] if features else [])
        rc, out, err = run(cmd, cwd=d, e=env(CARGO_TARGET_DIR=target), timeout=700)
        if rc != 0:
            raise CheckError(f"building the dependencies of {crate} failed:\n{err[-3000:]}")
        self.libs, self.dirs = {}, set()
        for line in out.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact":
                n = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        self.libs[n] = f
                        self.dirs.add(os.path.dirname(f))

    def args(self, names, alias=None):
        a = []
        for d in sorted(self.dirs):
            a += ["-L", "dependency=" + d]
        for n in names:
            a += ["--extern", f"{(alias or {}).get(n, n)}={self.libs[n]}"]
        return a


class Prog:
    """id, source of the module's body, whether it is expected to compile (None: not judged), whether it has `pub fn run() -> Result<(), String>`"""
    __slots__ = ("id", "src", "ok", "runs", "errors", "note", "why")

    def __init__(self, id, src, ok=True, runs=False, note="", why=None):
        self.why = why  # of a program to be refused: what makes a list of errors the right ones
        self.id, self.src, self.ok, self.runs, self.note, self.errors = id, src, ok, runs, note, []


def outermost(span, path):
    """The line in our file that a span comes from, through macro expansions."""
    hit = None
    while span:
        if os.path.basename(span["file_name"]) == os.path.basename(path):
            hit = span["line_start"]
        span = (span.get("expansion") or {}).get("span")
    return hit


def compile_once(head, progs, path, exe, args, edition):
    lines, ranges = head.split("\n"), []
    for i, p in enumerate(progs):
        body = p.src.split("\n")
        lo = len(lines) + 1
        lines.append(f"pub mod m{i} {{")
        lines += body
        lines.append("}")
        ranges.append((lo, len(lines), p))
    runs = [i for i, p in enumerate(progs) if p.runs]
    lines.append("fn main() {")
    lines.append("    ::std::panic::set_hook(::std::boxed::Box::new(|_| {}));")
    for i in runs:
        lines.append(f"    match ::std::panic::catch_unwind(|| crate::m{i}::run()) {{ Ok(Ok(())) => println!(\"{i} ok\"), Ok(Err(e)) => println!(\"{i} bad {{}}\", e), Err(_) => println!(\"{i} bad it panicked\") }}")
    lines.append("}")
    open(path, "w").write("\n".join(lines) + "\n")
    cmd = RUSTC + [path, "--crate-name", "progs", "--edition", edition, "-o", exe, "-C", "debuginfo=0", "-C", "codegen-units=4", "--error-format=json", "-A", "warnings",
                   "--cap-lints", "warn"] + args
    if "-D" in args:
        cmd = [c for c in cmd if c not in ("--cap-lints", "warn", "-A", "warnings")]
    rc, out, err = run(cmd, timeout=500)
    if rc == 0:
        return set()
    if rc is None or rc not in (1, 101) or "internal compiler error" in err:
        raise CheckError(f"rustc ended with {rc}: {err[-1500:]}")
    hit, stray = set(), []
    for line in err.splitlines():
        if not line.startswith("{"):
            continue
        d = json.loads(line)
        if d.get("level") != "error":
            continue
        ls = [l for s in d["spans"] if s["is_primary"] for l in [outermost(s, path)] if l] or [l for s in d["spans"] for l in [outermost(s, path)] if l]
        if not ls:
            if d["spans"] or not d["message"].startswith("aborting due to"):
                stray.append(d["message"])
            continue
        for l in ls:
            for lo, hi, p in ranges:
                if lo <= l <= hi:
                    hit.add(p)
                    p.errors.append(d["message"])
                    break
            else:
                raise CheckError(f"an error outside all programs: {d['rendered'][:800]}")
    if not hit:
        raise CheckError(f"rustc failed without naming a program: {stray[:5]} {err[-1500:]}")
    return hit


def judge(rep, progs, head, args, name, edition="2021", chunk=None):
    """Compiles and runs; reports what differs from what is expected. Returns counts."""
    work = os.path.join(TARGET, "progs-" + name)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    k = chunk or max(1, min(250, -(-len(progs) // NCPU)))
    # those expected to fail go in files of their own: fewer rounds, and no harm from leaving them out
    good, bad = [p for p in progs if p.ok], [p for p in progs if not p.ok]
    chunks = [c[i:i + k] for c in (good, bad) for i in range(0, len(c), k)]
    ran, hung = [0], []

    def one(ci):
        n, todo = 0, list(chunks[ci])
        path, exe = os.path.join(work, f"c{ci}.rs"), os.path.join(work, f"c{ci}.exe")
        while todo:
            hit = compile_once(head, todo, path, exe, args, edition)
            n += 1
            if not hit:
                break
            todo = [p for p in todo if p not in hit]
            if n > 40:
                raise CheckError("too many rounds of compilation")
        res = {}
        if todo and any(p.runs for p in todo):
            if len(hung) > 3:
                return []
            rc, out, err = run([exe], timeout=EXEC_TIMEOUT, mem_gb=4)
            if rc != 0:
                hung.append(ci)
            for line in out.splitlines():
                a, b, c = (line.split(" ", 2) + [""])[:3]
                res[int(a)] = (b, c)
            for i, p in enumerate(todo):
                if p.runs and i not in res:
                    res[i] = ("bad", f"the program {'did not end' if rc is None else f'ended ({rc})'} before it finished: {err[-500:]}")
                    break
        return [(p, res.get(i)) for i, p in enumerate(todo)]

    with cf.ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(one, range(len(chunks))))
    accepted = set()
    for out in outs:
        for p, r in out:
            accepted.add(p)
            if r:
                ran[0] += 1
                if r[0] != "ok":
                    rep.violation(p.id, f"program:\n{p.src}\n\n{p.note}\nit compiles, but running it: {r[1]}\n")
    shutil.rmtree(work, ignore_errors=True)
    if len(hung) > 3:
        progs = []  # part of them was left out: the verdict is known
    for p in progs:
        got = p in accepted
        if not got and not p.ok and p.why and not p.why(p.errors):
            rep.violation(p.id, f"program:\n{head}\n{p.src}\n\n{p.note}\nrefused, but not for the reason it should be: {p.errors[:3]}\n")
        if p.ok is not None and got != p.ok:
            rep.violation(p.id, f"program (edition {edition}, rustc {' '.join(a for a in args if not a.startswith('dependency='))}):\n{head}\n{p.src}\n\n{p.note}\n" + (
                f"expected to compile, but: {p.errors[:3]}\n" if p.ok else "expected to be refused by the compiler, but it compiles\n"))
    return dict(programs=len(progs), accepted=len(accepted), refused=len(progs) - len(accepted), executed=ran[0])
