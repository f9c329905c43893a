#!/opt/venv/bin/python
"""C33: the code generator's options have exactly the stated effect.

Every list of up to three kind options over a catalogue (new names, redefinitions, other spellings, malformed ones) is given to the
real command line; the generated modules are compiled with a host, a scheme and a program that prints every kind's value.  Every
spelling of preprocessor definitions is crossed with conditions around a dummy argument, and what the generator takes the scheme to be
is compared with what the C preprocessor makes of it.  Every combination of the output options is run and the complete
directory tree compared with the one the options describe."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc  # noqa
import cg  # noqa
from cg import V  # noqa

# ---------------------------------------------------------------- kinds
SPECS = ["kind_phys=REAL64", "kind_phys=REAL32", "kind_dyn=REAL32", "kind_dyn=REAL64", " kind_dyn = REAL32 ", "kind_i=INT64", "KIND_PHYS=REAL32",
         "Kind_Dyn=real64", "kind_x", "a=b=c", ""]
ISO = {"real32": 4, "real64": 8, "int64": 8, "int32": 4}


def kinds_of(opts):
    """name -> value, or None if an option is malformed."""
    k = {"kind_phys": "real64"}
    for o in opts:
        p = o.split("=")
        if len(p) != 2:
            return None
        k[p[0].strip().lower()] = p[1].strip().lower()
    return k


def kinds_case(opts):
    k = kinds_of(opts)
    d = mc.newdir("c33k")
    names = sorted(k or {"kind_phys": ""})
    vs = [V("h_" + n, "q_" + n, "integer" if n == "kind_i" else "real", n, "1") for n in names]
    args = [V("a_" + n, "q_" + n, "integer" if n == "kind_i" else "real", n, "1", intent="inout") for n in names]
    own = [V("o_" + n, "own_" + n, "integer" if n == "kind_i" else "real", n, "1", intent="out") for n in names]
    use = [v.copy(intent="in") for v in own]
    body = ["errmsg = ''", "errflg = 0"]
    s1 = cg.Scheme("s1", {"run": (cg.err_vars() + args + own, body + ["a_%s = a_%s + 1" % (n, n) for n in names] + ["o_%s = 2" % n for n in names], [])},
                   uses=["ccpp_kinds, only: " + ", ".join(names)])
    s2 = cg.Scheme("s2", {"run": (cg.err_vars() + args + use, body + ["a_%s = a_%s + o_%s" % (n, n, n) for n in names], [])},
                   uses=["ccpp_kinds, only: " + ", ".join(names)])
    m = cg.HostMod("hm", vs, uses=["ccpp_kinds, only: " + ", ".join(names)])
    c = cg.Case(mods=[m], schemes=[s1, s2], suites=[("sa", cg.suite_xml("sa", '<group name="g"><scheme>s1</scheme><scheme>s2</scheme></group>'))],
                kinds=[])
    try:
        c.write(d)
        st, txt = c.generate(extra=[x for o in opts for x in ("--kind-type", o)])
        if k is None:
            if st == "ok":
                return "a malformed kind option was accepted"
            bad = [o for o in opts if len(o.split("=")) != 2]
            if not any(b in txt for b in bad):
                return "the message does not show the malformed option: %s" % txt[-300:]
            if os.path.isdir(os.path.join(d, "out")) and any(f.endswith(".F90") for f in os.listdir(os.path.join(d, "out"))):
                return "code was generated although an option is malformed"
            return None
        if st != "ok":
            return "refused: %s %s" % (st, txt[-500:])
        if os.path.exists(os.path.join(d, "ccpp_kinds.F90")):
            return "unexpected ccpp_kinds.F90"
        prog = "program drv\n use ccpp_kinds, only: %s\n use hm, only: %s\n use hst_ccpp_cap, only: hst_ccpp_physics_run\n implicit none\n" \
            " character(len=512) :: errmsg\n integer :: errflg\n" % (", ".join(names), ", ".join(v.local for v in vs))
        prog += "".join(" h_%s = 1\n" % n for n in names)
        prog += "".join(" print '(a,1x,i0)', '%s', %s\n" % (n, n) for n in names)
        prog += "end program\n"
        ok, out = c.compile(prog)
        if not ok:
            return "the generated code does not compile: %s" % out[-700:]
        rc, out = c.execute("")[:2]
        got = dict(x.split() for x in out.split("\n") if x.strip())
        want = {n: str(ISO[v]) for n, v in k.items()}
        if rc != 0 or got != want:
            return "kind values %s (rc %s), expected %s" % (got, rc, want)
        return None
    finally:
        mc.rmdir(d)


# ---------------------------------------------------------------- preprocessor definitions
# option text -> what the C preprocessor is given
PRE = {"": [], "UNSET": [], "A": ["-DA"], "-DA": ["-DA"], "A,B": ["-DA", "-DB"], "A B": ["-DA", "-DB"], "-DA -DB": ["-DA", "-DB"],
       "-DA,-DB": ["-DA", "-DB"], " A , B ": ["-DA", "-DB"], "A=1": ["-DA=1"], "A=2,B=0": ["-DA=2", "-DB=0"], "-DA=2 -DB": ["-DA=2", "-DB"],
       "A=0": ["-DA=0"], "-DB=2": ["-DB=2"], "AB": ["-DAB"], "B,A=2": ["-DB", "-DA=2"], "  A  B=2 ": ["-DA", "-DB=2"], "DA": ["-DDA"],
       "-DDA": ["-DDA"], "C,B=2": ["-DC", "-DB=2"]}
CONDS = ["#ifdef A", "#ifndef A", "#if defined(B)", "#if defined(A) && defined(B)", "#if defined(A) || defined(B)", "#if !defined(B)", "#if defined(DA)",
         "#ifdef AB", "#if defined(A) && A > 1", "#if defined(B) && B == 2", "#if defined(C)", "#ifdef UNSET", "#if A", "#if B"]


def pre_case(opt, cond, given):
    """given: the conditional argument is in the metadata."""
    d = mc.newdir("c33p")
    try:
        rc, out = mc.run(["cpp", "-P"] + PRE[opt], inp=cond + "\nyes\n#endif\n")[:2]
        assert rc == 0, out
        kept = "yes" in out
        a = [V("x", "q_x", "integer", "", "1", intent="inout")] + ([V("y", "q_y", "integer", "", "1", intent="inout")] if given else [])
        s = cg.Scheme("s1", {"run": (cg.err_vars() + a, ["errmsg = ''", "errflg = 0"], [])})
        c = cg.Case(mods=[cg.HostMod("hm", [V("x", "q_x", "integer", "", "1"), V("y", "q_y", "integer", "", "1")])], schemes=[s],
                    suites=[("sa", cg.suite_xml("sa", '<group name="g"><scheme>s1</scheme></group>'))])
        c.write(d)
        open(os.path.join(d, "s1.F90"), "w").write("\n".join([
            "module s1", " implicit none", " private", " public :: s1_run", "contains", " !> \\section arg_table_s1_run Argument Table",
            " !! \\htmlinclude s1_run.html", " !!", cond, " subroutine s1_run(errmsg, errflg, x, y)", "#else",
            " subroutine s1_run(errmsg, errflg, x)", "#endif", "  character(len=512), intent(out) :: errmsg", "  integer, intent(out) :: errflg",
            "  integer, intent(inout) :: x", cond, "  integer, intent(inout) :: y", "#endif", "  errmsg = ''", "  errflg = 0",
            " end subroutine s1_run", "end module s1", ""]))
        st, txt = c.generate(extra=(["--preproc-directives=" + opt] if opt else []))
        if st == "ok" and given != kept:
            return "the C preprocessor %s the argument, the metadata %s it, and it was accepted" % ("keeps" if kept else "drops",
                                                                                                 "has" if given else "doesn't have")
        if st != "ok" and given == kept:
            return "refused (%s): %s" % (st, txt[-300:])
        if st.startswith("crash") or st == "internal":
            return "the tool ended with %s: %s" % (st, txt[-300:])
        return None
    finally:
        mc.rmdir(d)


# ---------------------------------------------------------------- output options
def base_case():
    s = cg.Scheme("s1", {"run": (cg.err_vars() + [V("x", "q_x", intent="inout"), V("w", "own_w", intent="out")], ["errmsg = ''", "errflg = 0", "w = x"], [])})
    return cg.Case(mods=[cg.HostMod("hm", [V("x", "q_x")])], schemes=[s],
                   suites=[("sa", cg.suite_xml("sa", '<group name="g"><scheme>s1</scheme></group>'))], kinds=["kind_phys=REAL64"])


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs
            if f not in ("capgen.log",)}


ROOTS = {"default": (None, "."), "relative": ("out", "out"), "nested": ("o/u/t", "o/u/t"), "absolute": ("@/abs", "abs"), "dotted": ("./x/../out2", "out2"),
         "existing": ("inp", "inp"), "blank": ("my out", "my out")}
TABLES = {"default": (None, "%s/datatable.xml"), "name": ("dt.xml", "%s/dt.xml"), "absolute": ("@/tab.xml", "tab.xml"), "dotted": ("./dt2.xml", "%s/dt2.xml")}


def out_case(root, table, host, verb, force, again):
    d = os.path.realpath(mc.newdir("c33o"))
    try:
        inp = os.path.join(d, "inp")
        c = base_case()
        c.write(inp)
        before = tree(d)
        a = ["--host-files", ",".join(["inp/hm.meta"] + (["inp/hst.meta"])), "--scheme-files", "inp/s1.meta", "--suites", "inp/sa.xml",
             "--kind-type", "kind_phys=REAL64"]
        if host:
            a += ["--host-name", "hst"]
        r, rd = ROOTS[root]
        t, td = TABLES[table]
        if r is not None:
            a += ["--output-root", r.replace("@", d)]
        if t is not None:
            a += ["--ccpp-datafile", t.replace("@", d)]
        a += ["--verbose"] * verb + ["--force-overwrite"] * force
        for _ in range(1 + again):
            st, txt = cg.run_capgen(d, a)
            if st != "ok":
                return None, "refused: %s %s" % (st, txt[-400:])
        rd = os.path.normpath(rd)
        td = os.path.normpath(td % rd if "%s" in td else td)
        after = tree(d)
        new = {k: v for k, v in after.items() if before.get(k) != v}
        if any(k not in after for k in before):
            return None, "input files are gone"
        want = {os.path.normpath(os.path.join(rd, f)) for f in ["ccpp_kinds.F90", "ccpp_sa_cap.F90"] + (["hst_ccpp_cap.F90"] if host else [])} | {td}
        if set(new) != want:
            return None, "files written: %s, expected: %s" % (sorted(new), sorted(want))
        dt = new[td].decode()
        for f in want - {td}:
            if os.path.join(d, f) not in dt:
                return None, "the data table does not name %s" % f
        return {os.path.basename(k): v for k, v in new.items() if k != td}, None
    finally:
        mc.rmdir(d)


def go(job):
    kind, args = job
    return {"kinds": kinds_case, "pre": pre_case, "out": out_case}[kind](*args)


def main():
    ck = mc.Check("C33", "exploration")
    cg.preload()
    n = 3 if not ck.quick else 2
    jobs = [("kinds", (list(o),)) for k in range(n + 1) for o in itertools.product(SPECS, repeat=k)]
    jobs += [("pre", x) for x in itertools.product(PRE, CONDS, (False, True))]
    outs = [x for x in itertools.product(ROOTS, TABLES, (True, False), (0, 1, 2), (False, True), (False, True))]
    if ck.quick:
        outs = [x for x in outs if (x[3:] in ((0, False, False), (2, True, True), (1, False, True)))]
    jobs += [("out", x) for x in outs]
    base, done = {}, 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        done += 1
        ck.outcome(job[0])
        label = "%s %s" % (job[0], job[1])
        if isinstance(res, mc.Crash):
            ck.violation("machinery " + label, "the tool could not be run: %s" % res)
            continue
        if job[0] == "out":
            files, why = res
            if not why:
                for f, v in files.items():
                    # the wording of the host's part of the code depends on whether there is a host cap
                    b = base.setdefault((f, job[1][2]), (v, label))
                    if b[0] != v:
                        why = "%s differs from the one of %s" % (f, b[1])
        else:
            why = res
        if why:
            ck.violation(label, why)
    ck.sample("kinds ['kind_dyn=REAL32', 'KIND_PHYS=REAL32']")
    ck.finish(evaluations=done, distinct_nontrivial=done, exhaustive=True)


if __name__ == "__main__":
    main()
