"""C03: a scheme error stops the phase at once and reaches the host unchanged.

Fault enumeration: for every suite tree of a catalogue (all shapes up to a size bound, all phase
profiles) every scheme call of every phase is made to fail in turn, with several error codes.  The
real generated code must execute exactly the prefix of the call sequence up to the failing call and
hand the host that code and that message.  A second family does the same for schemes whose calls are
surrounded by generated conversion, optional-argument and debug-check code."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import sdf
from cg import V, Scheme, HostMod, Case, suite_xml, driver, err_vars

PROF = {
    "sa": ["register", "init", "timestep_init", "run", "timestep_final", "final"],
    "sb": ["run", "init", "final", "timestep_final"],
    "sc": ["timestep_init", "run", "register"],
    "sd": ["run"],
}
CODES = [1, -3, 77]


def suites(quick):
    out = []
    loops = ["2", sdf.LOOPVAR, "3"]
    labs = [["sa", "sb", "sc"], ["sb", "sb", "sa"]]
    for n, depth, kinds in ((1, 2, ("c", "t")), (2, 2, ("c", "t")), (3, 1 if quick else 2, ("c", "t"))):
        for f in sdf.forests(n, depth, kinds):
            for lab in labs[:1 if n > 2 and quick else 2]:
                out.append([("g1", sdf.label(f, iter(lab), itertools.cycle(loops)))])
    for lab in itertools.product(PROF, repeat=3):
        out.append([("g1", (("s", lab[0]), ("s", lab[1]))), ("g2", (("s", lab[2]),))])
    if not quick:
        for f in sdf.forests(4, 2, ("c",)):
            out.append([("g1", sdf.label(f, iter(["sa", "sb", "sc", "sa"]), itertools.cycle(loops)))])
    return [("u%d" % i, g) for i, g in enumerate(out)]


SEQ = ["register", "init", "timestep_init", "run", "timestep_final", "final"]


def plan(name, groups, code0):
    """One legal cycle per failing position; returns [(command, expected trace, code, msg)]."""
    lv = {sdf.LOOPVAR: 2}
    cmds = [(ph, g) for ph in SEQ for g in ([x for x, _ in groups] if ph == "run" else ["x"])]
    res = []
    for k, (ph, g) in enumerate(cmds):
        full = sdf.expected(groups, PROF, ph, g, lv)
        if ph == "init":
            # a failing initialisation: repeat after finalisation so that every position fails once
            for j in range(len(full)):
                c = CODES[(j + code0) % len(CODES)]
                res.append(("fail %d %d" % (j + 1, c), None))
                res.append(("init %s x 1 1" % name, (full[:j + 1], c, "MSG:" + full[j])))
                res.append(("fail 0 0", None))
                res.append(("final %s x 1 1" % name, "any"))
            res.append(("init %s x 1 1" % name, (full, 0, "")))
        elif ph in ("timestep_init", "timestep_final"):
            other = "timestep_final" if ph == "timestep_init" else "timestep_init"
            for j in range(len(full)):
                c = CODES[(j + code0) % len(CODES)]
                res.append(("fail %d %d" % (j + 1, c), None))
                res.append(("%s %s x 1 1" % (ph, name), (full[:j + 1], c, "MSG:" + full[j])))
                res.append(("fail 0 0", None))
                res.append(("%s %s x 1 1" % (other, name), "any"))
            res.append(("%s %s x 1 1" % (ph, name), (full, 0, "")))
        elif ph == "final":
            for j in range(len(full)):
                c = CODES[(j + code0) % len(CODES)]
                res.append(("fail %d %d" % (j + 1, c), None))
                res.append(("final %s x 1 1" % name, (full[:j + 1], c, "MSG:" + full[j])))
                res.append(("fail 0 0", None))
                res.append(("init %s x 1 1" % name, "any"))
            res.append(("final %s x 1 1" % name, (full, 0, "")))
        else:
            for j in range(len(full)):
                c = CODES[(j + code0) % len(CODES)]
                res.append(("fail %d %d" % (j + 1, c), None))
                res.append(("%s %s %s 1 1" % (ph, name, g), (full[:j + 1], c, "MSG:" + full[j])))
            res.append(("fail 0 0", None))
            res.append(("%s %s %s 1 1" % (ph, name, g), (full, 0, "")))
    return res


def job(part):
    good, bad = sdf.build_batches(part, PROF, size=len(part))
    res, faults, steps = [], 0, 0
    for b in good:
        script, exp = ["setn 2"], [(None, None, None)]
        for i, (name, groups) in enumerate(b.suites):
            for cmd, e in plan(name, groups, i):
                script.append(cmd)
                exp.append((name, groups, e))
        _, out = b.run(script)
        done = set()
        for i, (name, groups, e) in enumerate(exp):
            if e is None or name in done:
                continue
            if i >= len(out):
                res.append((groups, script[i], "program ended before '%s'" % script[i]))
                break
            if e == "any":
                # after an error the suite state is not specified by this property
                if out[i][2] != 0:
                    done.add(name)
                continue
            if e[1]:
                faults += 1
            steps += 1 + len(e[0])
            if out[i][1] != e[0] or out[i][2] != e[1] or out[i][3] != e[2]:
                res.append((groups, script[i], "'%s' with failing call %s: expected calls %s code %d message '%s'; "
                            "got %s code %s message '%s'" % (script[i], e[2] or None, e[0], e[1], e[2],
                                                             out[i][1], out[i][2], out[i][3])))
                done.add(name)
        b.close()
    for (name, groups), st, txt in bad:
        res.append((groups, "build", "no working code: %s\n%s" % (st, txt[-1000:])))
    return faults, steps, res


# ---- family 2: calls wrapped by conversions / optional arguments / debug checks
def wrapped_case(combo, debug):
    """combo: per scheme, index of argument style."""
    dims = ["horizontal_dimension"]
    hv = sdf.HOSTVARS + [
        V("qa", "quantity_a", units="m", dims=dims, fattr="allocatable"),
        V("qb", "quantity_b", units="1", dims=dims, active="(flag_b)", fattr="allocatable"),
        V("flag_b", "flag_b", "logical", "", "flag"),
        V("lun", "log_unit", "integer", "", "1")]
    mod = HostMod("hmod", hv)
    ld = ["horizontal_loop_extent"]
    styles = [
        [V("a", "quantity_a", units="cm", dims=ld, intent="inout")],
        [V("a", "quantity_a", units="m", dims=ld, intent="in"),
         V("b", "quantity_b", units="1", dims=ld, intent="inout", opt=True)],
        [V("w", "work_quantity", units="1", dims=ld, intent="out")],
        [V("a", "quantity_a", units="m", kind="kind_r4", dims=ld, intent="inout")],
    ]
    schemes = []
    for i, st in enumerate(combo):
        vs = [V("ncol", "horizontal_loop_extent", "integer", "", "count", intent="in")]
        vs += [v.copy() for v in styles[st]]
        if st == 1:
            vs.append(V("flag", "flag_b", "logical", "", "flag", intent="in"))
        body = ["call tr('w%d_run', errmsg, errflg)" % i]
        if st == 2:
            body.append("w = 1.0")
        schemes.append(Scheme("w%d" % i, {"run": (vs + err_vars(), body)},
                              uses=["mc_tr", "ccpp_kinds, only: kind_r4"] if st == 3 else ["mc_tr"]))
    xml = suite_xml("ws", '<group name="g1">%s<subcycle loop="2"><scheme>w%d</scheme></subcycle></group>' % (
        "".join("<scheme>w%d</scheme>" % i for i in range(len(combo) - 1)), len(combo) - 1))
    c = Case(mods=[mod], schemes=schemes, suites=[("ws", xml)],
             kinds=("kind_phys=REAL64", "kind_r4=REAL32"), debug=debug)
    drv = driver("hst", uses="  use hmod, only: qa, qb, flag_b, ncols, nsub, pver",
                 init="  ncols = 3; pver = 2; nsub = 2; flag_b = .true.\n"
                      "  allocate(qa(3), qb(3)); qa = 1; qb = 2",
                 ops="    case('flag')\n      flag_b = .not. flag_b\n")
    return c, drv


def job2(arg):
    combo, debug = arg
    c, drv = wrapped_case(combo, debug)
    d = mc.newdir("w")
    c.write(d)
    st, txt = c.generate()
    if st != "ok":
        return arg, 0, "generation %s: %s" % (st, txt[-800:])
    ok, txt = c.compile(drv)
    if not ok:
        return arg, 0, "compile: " + txt[-1500:]
    n = len(combo)
    full = ["w%d_run" % i for i in range(n)] + ["w%d_run" % (n - 1)]
    script, exp = ["register ws x 1 3", "init ws x 1 3", "timestep_init ws x 1 3"], [None] * 3
    for fl in (0, 1):
        for j in range(len(full)):
            code = CODES[j % 3]
            script += ["fail %d %d" % (j + 1, code), "run ws g1 1 3"]
            exp += [None, (full[:j + 1], code, "MSG:" + full[j])]
        script += ["fail 0 0", "run ws g1 1 3", "flag"]
        exp += [None, (full, 0, ""), None]
    rc, txt = c.execute("\n".join(script) + "\n")
    out = sdf.parse_out(txt)
    bad = None
    for i, e in enumerate(exp):
        if i >= len(out) or out[i][2] is None and e:
            bad = "program ended at '%s': %s" % (script[i], txt[-600:])
            break
        if e and (out[i][1] != e[0] or out[i][2] != e[1] or out[i][3] != e[2]):
            bad = "'%s' failing %s: expected %s; got %s" % (script[i], e[2], e, out[i][1:])
            break
    mc.rmdir(d)
    return arg, len(full) * 2, bad


def main():
    ck = mc.Check("C03", "fault_enumeration")
    alls = suites(ck.quick)
    n = 0
    for faults, steps, res in mc.pmap(job, mc.chunks(alls, 20)):
        ck.add(evaluations=faults, phase_steps=steps)
        n += faults
        for groups, cmd, what in res:
            ck.violation(repr((groups, cmd.split()[0])), "suite:\n%s\n%s" % (sdf.suite_body(groups), what),
                         {"groups": repr(groups)})
    combos = [(c, dbg) for k in (1, 2) for c in itertools.product(range(4), repeat=k)
              for dbg in (False, True)]
    if not ck.quick:
        combos += [(c, dbg) for c in itertools.product(range(4), repeat=3) for dbg in (False, True)]
    for arg, faults, bad in mc.pmap(job2, combos):
        ck.add(evaluations=faults, wrapped_cases=1)
        n += faults
        if bad:
            ck.violation("wrapped %r" % (arg,), bad, {"wrapped": arg})
    for _, g in alls[:2] + alls[-2:]:
        ck.sample({"suite": sdf.suite_body(g), "plan": plan("u", g, 0)[:6]})
    ck.finish(distinct_nontrivial=n, exhaustive=True,
              rule="every scheme-call position (phase, position, subcycle iteration) of every suite tree "
                   "with at most 3 leaves and of schemes with converted/optional/allocated arguments, with "
                   "and without debug checks; each is a distinct injected fault")


main()
