#!/usr/bin/env python3
"""Generate and confirm the planted bugs of tools/seeddefs.py.

  seed.py gen [ID...]      write /verif/seeded/<id>/
  seed.py confirm [ID...]  apply each one in a scratch copy: must build, pass the stable tests, and its demo must fail
  seed.py check [ID...]    apply each one in /repo, run its property's quick check, undo
Results are appended to /tmp/seed/results.txt.
"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeddefs import BUGS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = VERIF + "/seeded"
WORK = "/tmp/seed"

CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
enumset = { path = "@REPO@/enumset", features = [@FEATURES@] }
serde = { version = "1" }
serde_derive = "1"
serde_json = "1"
'''

DEMO = '''#!/bin/bash
# Run in the root of the repository: exits 0 if the property holds for main.rs, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
[ -f "$here/names.rs" ] && cp "$here/names.rs" "$work/names.rs"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$work/Cargo.toml"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 2
export CARGO_TARGET_DIR=$work/target CARGO_NET_OFFLINE=true
'''
RUN = 'cargo run -q --offline {flags}\n'
MIRI = '''export XDG_CACHE_HOME=$work/cache MIRIFLAGS="-Zmiri-disable-isolation"
cargo +nightly miri setup -q --target {target} >/dev/null 2>&1
cargo +nightly miri run -q --offline --target {target}
'''
REJECT = '''# the enum in main.rs must be refused by the derive, and the same one without the option accepted
cp src/main.rs good.rs
sed -e '/enumset(serialize_repr/d' -e 's/0x1_0000_0003/0x3/' good.rs > src/main.rs
cargo run -q --offline || exit 3
cp good.rs src/main.rs
if cargo build -q --offline 2> err.txt; then echo "accepted an enum that must be refused"; exit 1; fi
grep -q "^error" err.txt
'''


REFUSE = '''cargo run -q --offline || exit 3
cp src/bad.rs src/main.rs
if cargo build -q --offline 2> err.txt; then echo "accepted a program that must be refused"; exit 1; fi
grep -q "^error" err.txt
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def edit(root, b):
    for f, old, new in b["edits"]:
        p = os.path.join(root, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches in %s for:\n%s" % (b["id"], n, f, old))
        open(p, "w").write(s.replace(old, new))


def copy():
    c = WORK + "/gen"
    if os.path.exists(c):
        shutil.rmtree("/tmp/seed/gen")
    os.makedirs(WORK, exist_ok=True)
    sh("git -C /repo worktree prune; git clone -q --no-hardlinks /repo %s" % c)
    return c


def gen(bugs):
    c = copy()
    for b in bugs:
        sh("git -C %s checkout -q -- ." % c)
        edit(c, b)
        d = "%s/%s" % (SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/meta.json", "w").write(json.dumps(
            {"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        open(d + "/main.rs", "w").write(b["main"].lstrip("\n"))
        feats = ", ".join('"%s"' % f for f in b["features"] if f != "bincode")
        cargo = CARGO.replace("@FEATURES@", feats)
        if "bincode" in b["features"]:
            cargo += 'bincode = "1"\n'
        kind = b["kind"].split()
        if kind[0] == "edition":
            cargo = cargo.replace('edition = "2021"', 'edition = "%s"' % kind[1])
        if kind[0] == "miri":
            cargo = cargo.split("serde = {")[0]
        if "renamed" in kind:
            cargo = cargo.replace("enumset = {", 'renamed = { package = "enumset",')
        open(d + "/Cargo.toml.in", "w").write(cargo)
        shutil.copy(VERIF + ("/mcs" if "bincode" in b["features"] else "/mc") + "/Cargo.lock", d + "/Cargo.lock")
        if "names" in kind:
            open(d + "/names.rs", "w").write("e!(" + " ".join("V%d" % i for i in range(300)) + ");\n")
        body = DEMO
        if kind[0] == "miri":
            body += MIRI.format(target=kind[1])
        elif kind[0] == "refuse":
            open(d + "/bad.rs", "w").write(b["bad"].lstrip("\n"))
            body += REFUSE
        elif kind[0] == "reject":
            body += REJECT
        else:
            body += RUN.format(flags="--release" if "release" in kind else "")
        open(d + "/demo.sh", "w").write(body)
        os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree("/tmp/seed/gen")


def demo(root, b):
    r = sh(["bash", "%s/%s/demo.sh" % (SEEDED, b["id"])], cwd=root, timeout=600)
    return r.returncode, r.stdout[-600:]


def log(*a):
    line = " ".join(str(x) for x in a)
    print(line, flush=True)
    open(WORK + "/results.txt", "a").write(line + "\n")


def apply(b):
    r = sh(["git", "-C", "/repo", "apply", "%s/%s/patch.diff" % (SEEDED, b["id"])])
    if r.returncode:
        raise SystemExit("cannot apply %s: %s" % (b["id"], r.stdout))


def undo():
    sh("git -C /repo checkout -q -- .")


def confirm(bugs):
    base = set()
    d = json.load(open("/opt/vp/BASELINE.json"))
    for b in bugs:
        try:
            apply(b)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                log(b["id"], "BUILD-FAILS", r.stdout[-400:])
                continue
            sh("bash /opt/vp/test.sh /tmp/seed/t.json")
            t = json.load(open("/tmp/seed/t.json"))
            passed = names(t, "passed")
            missing = [x for x in names(d, "passed") if x not in passed]
            rc, out = demo("/repo", b)
            log(b["id"], "tests", "OK" if not missing else "FAIL %d e.g. %s" % (len(missing), missing[:2]),
                "demo", "OK" if rc else "PASSES-WITH-BUG", out.strip().splitlines()[-2:] if rc else "")
        finally:
            undo()


def names(d, key):
    return set(d["stable"] if "stable" in d else d[key])


def clean(bugs):
    for b in bugs:
        rc, out = demo("/repo", b)
        log(b["id"], "demo on the unchanged tree:", "OK" if rc == 0 else "FAILS " + out)


def check(bugs, tier="quick"):
    man = {c["property"] if "property" in c else c["id"]: c for c in checks()}
    for b in bugs:
        try:
            apply(b)
            c = man[b["prop"]]
            import time
            t = time.time()
            r = sh(c[tier], cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier))
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION property=" + b["prop"])]
            log(b["id"], b["prop"], tier, "rc", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED",
                "%.0fs" % (time.time() - t), v[0][:150] if v else r.stdout[-300:])
        finally:
            undo()


def checks():
    m = json.load(open(VERIF + "/MANIFEST.json"))
    out = []
    for c in m["checks"]:
        out.append({"property": c.get("property") or c.get("property_id"), "quick": c.get("quick") or c.get("quick_cmd"),
                    "thorough": c.get("thorough") or c.get("thorough_cmd")})
    return out


if __name__ == "__main__":
    os.makedirs(WORK, exist_ok=True)
    what, ids = sys.argv[1], sys.argv[2:]
    bugs = [b for b in BUGS if not ids or b["id"] in ids or b["prop"] in ids]
    {"gen": gen, "confirm": confirm, "clean": clean, "check": check}[what](bugs)
