"""The checks, by property."""
import os
from driver import *
from c13 import c13
from c14 import c14
from c24 import c24
from c22 import c22, c23
from c25 import c25

MC = "model_checking"
SMALL = "enums of up to {} variants: every subset; larger ones: every subset of {} variants next to storage boundaries over 3 backgrounds, singletons, co-singletons, prefixes, suffixes"
WIDE1 = "; every two and three adjacent variants of enums of up to {} variants, all but two and every interval of those of up to {}"
WIDE = "; every two variants, every interval and their complements, of enums of up to {} variants (two-set operations: against 5 others each)"


def run_bin(rep, crate, name):
    """Builds a harness and runs its jobs; the records of what they explored, or None when it does not compile."""
    thorough = []
    if crate == "mcc":
        gen_macros()
        thorough = ["--features", "thorough"] if TIER == "thorough" else []
    if not build(rep, crate, ["--bin", name] + thorough):
        return None
    exe = os.path.join(TARGET, "debug", name)
    rc, out, err = run([exe, "--list"])
    jobs = out.split()
    if rc != 0 or not jobs:
        raise CheckError(f"{exe} --list: {rc} {err[-500:]}")
    return run_jobs(rep, exe, jobs)


def bin_check(crate, name, bounds, extra=None, more=None, also=()):
    def fn(rep):
        done = []
        for c, b in ((crate, name),) + also:
            d = run_bin(rep, c, b)
            if d is None and not done:
                failed(rep)
                return
            done += d or []
            if rep.violations:
                break
        if more and not rep.violations:
            done += more(rep)
        mc_coverage(rep, done, len(done), bounds[TIER], extra)
    return fn


def failed(rep):
    if rep.level == MC:
        rep.coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["the harness did not compile"])
    else:
        rep.coverage = dict(evaluations=0, distinct_nontrivial=0, rule="none ran", samples=["the harness did not compile"])


CHECKS = {}


def mc(id, crate, quick, thorough, level=MC, **kw):
    CHECKS[id] = (bin_check(crate, id.lower(), dict(quick=quick, thorough=thorough), **kw), level)


WIDTHS = "; for usize also the boundary bits on platforms with 32-bit pointers of either byte order"


mc("C01", "mc", "all pairs of: " + SMALL.format(9, 7) + WIDE.format(66),
   "all pairs of: " + SMALL.format(11, 9) + WIDE.format(130))
mc("C02", "mc", "all states over 9 boundary variants (all, where there are fewer), every mutating operation in each",
   "all states over 12 boundary variants (all, where there are fewer), every mutating operation in each")
mc("C03", "mc", SMALL.format(8, 6) + WIDE1.format(66, 18) + "; every front/back/skip call sequence on the smaller sets, every split on the others",
   SMALL.format(10, 8) + WIDE1.format(130, 34) + "; every front/back/skip call sequence on the smaller sets, every split on the others")
mc("C04", "mc", "sequences to length 4 (sets: 3) over 5 boundary variants; runs of one item to 65 537 long",
   "sequences to length 6 (sets: 5) over 6 boundary variants; runs of one item to 16 777 217 long")
MADE = "; every way of making each; every operation on pairs from smaller families; every constant of C12; every input with unknown bits of C18"
mc("C05", "mc", SMALL.format(8, 6) + MADE, SMALL.format(13, 10) + MADE, also=(("mcs", "c05s"), ("mcc", "c05c")))
mc("C06", "mc", SMALL.format(12, 10) + WIDE.format(66) + WIDTHS, SMALL.format(16, 14) + WIDE.format(130) + WIDTHS, more=lambda rep: pointer_widths(rep, "c06"))
mc("C07", "mc", "all 8- and 16-bit integers; wider: all combinations of 10 boundary bits, every single bit and every pair" + WIDTHS,
   "all 8- and 16-bit integers; wider: all combinations of 13 boundary bits, every single bit and every pair" + WIDTHS, more=lambda rep: pointer_widths(rep, "c07"))
mc("C08", "mc", SMALL.format(9, 8) + WIDE.format(66) + "; destinations of 0 to 2 words more than needed, and up to 128 (1025) words more",
   SMALL.format(12, 11) + WIDE.format(130) + "; destinations of 0 to 2 words more than needed, and up to 128 (1025) words more")
mc("C09", "mc", "lists of 0 to 2 words more than needed and far longer ones (to 1025 words more), all combinations of up to 6 letters per position, every single bit of every position over 2 backgrounds",
   "as quick, with more letters per position")
FFI = "; every subset of 11 small enums through calls and structs of the C ABI, on platforms of both byte orders and pointer widths"
mc("C10", "mc", SMALL.format(11, 10) + WIDE.format(130) + "; all combinations of 11 boundary bits of the integer" + FFI,
   SMALL.format(14, 13) + WIDE.format(130) + "; all combinations of 15 boundary bits of the integer" + FFI, more=lambda rep: pointer_widths(rep, "c10"))
mc("C11", "mc", "all pairs of: " + SMALL.format(8, 6) + WIDE.format(66) + "; triples of 96 of them",
   "all pairs of: " + SMALL.format(10, 8) + WIDE.format(130) + "; triples of 200 of them")
mc("C15", "mcs", "by human-readable and by binary formats: " + SMALL.format(12, 8) + WIDE.format(66) + "; integer tokens around every power of two", SMALL.format(16, 12) + WIDE.format(130) + "; integer tokens around every power of two")
mc("C16", "mcs", "by human-readable and by binary formats: " + SMALL.format(10, 7) + WIDE.format(66) + "; element sequences to length 6 (map: 4)", SMALL.format(16, 11) + WIDE.format(130) + "; element sequences to length 9 (map: 6)")
mc("C17", "mcs", "by human-readable and by binary formats: " + SMALL.format(10, 7) + WIDE.format(66) + "; lists to 2 words more than needed", SMALL.format(16, 11) + WIDE.format(130) + "; lists to 2 words more than needed")
mc("C18", "mcs", "by human-readable and by binary formats: " + "all 8-bit values; wider: every single and every pair of unknown bits over boundary sets; word lists to 2 beyond the storage over up to 9 letters per position", "as quick, with all 16-bit values and more letters")
mc("C19", "mcs", "by human-readable and by binary formats: " + "a fault at every call for: " + SMALL.format(8, 6), "a fault at every call for: " + SMALL.format(13, 9), level="fault_enumeration",
   extra=dict(rule="one evaluation per (set or input, call position); non-trivial: the fault hits a call after the first; distinct by (set or input, position)"))
mc("C20", "mc", SMALL.format(8, 6) + WIDE.format(66) + "; every format flag, a write failing at every call",
   SMALL.format(11, 8) + WIDE.format(130) + "; every format flag, a write failing at every call")
mc("C21", "mc", "all pairs of variants (20 boundary ones above 32); variants with: " + SMALL.format(9, 7) + WIDE.format(66),
   "all pairs of variants (40 boundary ones above 32); variants with: " + SMALL.format(12, 9) + WIDE.format(130))


def gen_macros(tier=TIER):
    """The constants C12 has rustc evaluate; written only when they differ, so that cargo sees no change."""
    out = os.path.join(VERIF, "mcc", "src", f"gen_{tier}.rs")
    tmp = out + f".{os.getpid()}"
    rc, _, err = run(["python3", os.path.join(VERIF, "tools", "gen_macros.py"), tier, tmp])
    if rc != 0:
        raise CheckError("gen_macros: " + err[-1000:])
    if os.path.exists(out) and open(out, "rb").read() == open(tmp, "rb").read():
        os.remove(tmp)
    else:
        os.replace(tmp, out)


CHECKS["C12"] = (bin_check("mcc", "c12", dict(
    quick="enums of 1 to 3 variants: every pair of set expressions for each macro; larger: boundary variants",
    thorough="as quick, over more enums and longer operand lists"), dict(
    rule="one evaluation per constant (distinct by its text; non-trivial: its value is neither empty nor full), each evaluated by rustc in a const context")), "exploration")

CHECKS["C13"] = (c13, "exploration")

CHECKS["C14"] = (c14, "exploration")

CHECKS["C22"] = (c22, MC)

CHECKS["C23"] = (c23, MC)

CHECKS["C24"] = (c24, "exploration")

CHECKS["C25"] = (c25, "exploration")


def setup():
    rep = Report("setup", "other")
    gen_macros()
    for crate in ("mc", "mcs", "mcc", "px", "pxs", "pxn"):
        build(rep, crate, [])
    for k, t in rep.violations:
        print(k, t[:2000])
    return 0
