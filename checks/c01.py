"""C01: generated caps give each scheme argument the host quantity it names.

Exhaustive enumeration of cells (one host quantity x the declarations of the scheme arguments that
name it): every cell is generated by the real capgen, compiled, and every phase is executed for every
column window and every value of the host's activity flag; what each scheme sees and what the host
holds afterwards is compared with a value model of the quantity."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cells
from cells import Cell, HQ, SA, HDIM, VL, VI, NT, run_cells

DIMS = [(), (HDIM,), (HDIM, VL), (HDIM, VI), (HDIM, VL, NT), (NT,), (VL,), (NT, HDIM)]
WHERE = ["mod", "ddt", "nest", "sec:1", "sec:2", "secn", "secf", "sec2", "secm", "seci", "secl"]
INTENT = ["in", "inout", "out"]
ACTIVE = ["(flag_for_mc_condition)", "(.not. flag_for_mc_condition)",
          "(mode_for_mc_condition > 2 .and. flag_for_mc_condition)"]


MODES = [(f, m) for f in (True, False) for m in (2, 3, 4)]


def conditions():
    """All conditions of a small grammar (every operator that a condition may contain)."""
    fl, mo = "flag_for_mc_condition", "mode_for_mc_condition"
    rel = ["==", "/=", "<=", ">=", "<", ">", ".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge."]
    E = ["(%s %s 3)" % (mo, r) for r in rel] + ["(3 %s %s)" % (r, mo) for r in rel[:6]]
    E += ["(%s%s3)" % (mo, r) for r in rel[:6]] + ["%s > 2" % mo]
    for op in (".and.", ".or.", ".eqv.", ".neqv."):
        E += ["(%s %s (%s >= 3))" % (fl, op, mo), "((%s < 3) %s (.not. %s))" % (mo, op, fl),
              "(%s %s .true.)" % (fl, op), "(.false. %s %s)" % (op, fl)]
    E += ["(.not. (%s .and. (%s /= 3)))" % (fl, mo), "(.NOT. (%s .OR. (%s <= 2)))" % (fl, mo),
          "((%s == 2) .or. (%s == 4))" % (mo, mo)]
    return E


def space(quick):
    C = []
    # location x rank x intent
    for w, d, i in itertools.product(WHERE, DIMS, INTENT):
        C.append(Cell(HQ(dims=d, where=w), [SA(intent=i)]))
    # type
    for t, d, i, w in itertools.product(("integer", "logical", "character"), DIMS[:5], INTENT,
                                        ("mod",) if quick else ("mod", "ddt", "secn")):
        C.append(Cell(HQ(typ=t, units="1", dims=d, where=w), [SA(intent=i)]))
    # transforms: units x kind x orientation
    vd = [d for d in DIMS if VL in d or VI in d]
    for d, i in itertools.product(DIMS, INTENT):
        tops = list(itertools.product((None, True, False), repeat=2)) if d in vd else [(None, None)]
        for (t1, t2), u, k in itertools.product(tops, (None, "cm"), (None, "kind_r4")):
            if quick and k and (t1, t2) not in ((None, None), (True, False), (False, True)):
                continue
            C.append(Cell(HQ(dims=d, top=t1), [SA(top=t2, units=u, kind=k, intent=i)]))
    for hu, su in [("K", "C"), ("Pa", "hPa"), ("s", "min"), ("km h-1", "m s-1"), ("h", "s"),
                   ("C", "K"), ("kg kg-1", "g kg-1")]:
        for i, d in itertools.product(INTENT, ((), (HDIM, VL))):
            C.append(Cell(HQ(dims=d, units=hu), [SA(units=su, intent=i)]))
    # transforms of quantities elsewhere
    for w, d, i in itertools.product(WHERE[1:], DIMS[:4], INTENT):
        if quick and (w == "sec:1" or d == (HDIM, VI)):
            continue
        C.append(Cell(HQ(dims=d, where=w, top=True if d in vd else None), [SA(units="cm", intent=i)]))
    # optional arguments
    acts = ACTIVE if not quick else ACTIVE[:2]
    for a, d, i, w in itertools.product([None] + acts, DIMS[:5], INTENT, ("mod", "ddt")):
        for tr in ({}, {"units": "cm"}, {"kind": "kind_r4"}):
            if quick and (w == "ddt" or d == (HDIM, VI)) and tr:
                continue
            C.append(Cell(HQ(dims=d, where=w, active=a), [SA(intent=i, opt=True, **tr)]))
    for d, i in itertools.product(vd, INTENT):
        C.append(Cell(HQ(dims=d, active=ACTIVE[0], top=True), [SA(intent=i, opt=True, units="cm")]))
    # several schemes naming the same quantity in one group, with their own names and declarations
    decl = [dict(), dict(units="cm"), dict(kind="kind_r4"), dict(units="km", kind="kind_r4")]
    for (a, b), (i, j) in itertools.product(itertools.product(decl, repeat=2),
                                            itertools.product(INTENT, repeat=2)):
        for d in ((HDIM, VL),) if quick else ((HDIM, VL), (), (HDIM,)):
            C.append(Cell(HQ(dims=d), [SA(intent=i, local="x", **a), SA(intent=j, local="y", **b)]))
    for (i, j) in itertools.product(INTENT, repeat=2):
        for act in (None, ACTIVE[0]):
            for (a, b) in (({}, {}), ({}, dict(units="cm")), (dict(units="cm"), {})):
                for n in ("x", "y"):
                    C.append(Cell(HQ(dims=(HDIM,), active=act), [
                        SA(intent=i, local="x", opt=True, **a), SA(intent=j, local=n, opt=True, **b)]))
    for t in itertools.product((None, True, False), repeat=3):
        C.append(Cell(HQ(dims=(HDIM, VL), top=t[0]), [SA(top=t[1], local="x"), SA(top=t[2], local="y")]))
        C.append(Cell(HQ(dims=(HDIM, VL), top=t[0]), [SA(top=t[1], local="x", units="cm", intent="out"),
                                                      SA(top=t[2], local="x", units="km")]))
    # separate groups and repeated calls
    for a, b in itertools.product(decl, repeat=2):
        C.append(Cell(HQ(dims=(HDIM, VL)), [SA(local="x", **a), SA(local="y", **b)], samegroup=False))
        C.append(Cell(HQ(dims=(HDIM,)), [SA(local="x", **a), SA(local="x", **b)], loop=2))
    # other phases see the whole quantity
    for ph in ("init", "timestep_init", "timestep_final", "final"):
        for d, i in itertools.product(DIMS[:4], INTENT):
            for tr in ({}, {"units": "cm"}):
                C.append(Cell(HQ(dims=d), [SA(intent=i, phase=ph, **tr)]))
    for ph in ("init", "timestep_init", "timestep_final", "final"):
        for tr in ({}, {"units": "cm"}):
            C.append(Cell(HQ(dims=(HDIM,)), [SA(phase=ph, local="a", **tr), SA(local="b")]))
            C.append(Cell(HQ(dims=(HDIM,)), [SA(local="b"), SA(phase=ph, local="a", **tr)]))
            C.append(Cell(HQ(dims=(HDIM,), active=ACTIVE[0]), [SA(phase=ph, local="a", opt=True, **tr),
                                                              SA(local="b", opt=True)]))
    # explicit lower bound in the horizontal dimension
    for d, i, u in itertools.product(((HDIM,), (HDIM, VL)), INTENT, (None, "cm")):
        C.append(Cell(HQ(dims=d), [SA(intent=i, hdim1=True, units=u)]))
    # schemes that do not ask for the sizes of the dimensions
    for d, i, w, ph in itertools.product(DIMS, INTENT, WHERE[:1] if quick else WHERE, ("run", "init")):
        C.append(Cell(HQ(dims=d, where=w), [SA(intent=i, bare=True, phase=ph)]))
    for i, w, tr in itertools.product(INTENT, WHERE, ({"units": "cm"}, {"kind": "kind_r4"})):
        C.append(Cell(HQ(dims=(HDIM,), where=w), [SA(intent=i, bare=True, **tr)]))
    for d, i, tr, ph in itertools.product(DIMS, INTENT, ({"units": "cm"}, {"kind": "kind_r4"}, {"top": False}),
                                          ("run", "init")):
        if "top" in tr and d not in vd:
            continue
        C.append(Cell(HQ(dims=d, top=True if "top" in tr else None), [SA(intent=i, bare=True, phase=ph, **tr)]))
        C.append(Cell(HQ(dims=(HDIM,), where=w), [SA(intent=i, bare=True, local="x", **tr),
                                                  SA(intent="inout", bare=True, local="y")]))
    # inactive quantities that the host does not even allocate
    for d, u in itertools.product(((HDIM,), (HDIM, VL)), (None, "cm")):
        C.append(Cell(HQ(dims=d, active=ACTIVE[0], props=(("_unalloc", 1),)), [SA(opt=True, units=u)]))
    if not quick:
        # three schemes with every mix of declaration and intent
        for decls in itertools.product(decl[:3], repeat=3):
            for ints in itertools.product(INTENT, repeat=3):
                C.append(Cell(HQ(dims=(HDIM, VL)), [SA(intent=i, local=n, **k) for i, n, k in
                                                    zip(ints, ("x", "y", "x"), decls)]))
        for w, d, i, k, u in itertools.product(WHERE, DIMS[:5], INTENT, (None, "kind_r4"), (None, "cm")):
            for a in (None, ACTIVE[0]):
                if a and w.startswith("sec"):
                    continue
                C.append(Cell(HQ(dims=d, where=w, active=a), [SA(intent=i, kind=k, units=u, opt=bool(a))]))
    seen, out = set(), []
    for c in C:
        k = repr((c.key(), c.loop))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def main():
    ck = mc.Check("C01", "exploration")
    C = space(ck.quick)
    jobs = []
    for part in mc.chunks(C, 30):
        jobs.append((part, False, (True, False) if any(c.hq.active for c in part) else (True,)))
    if not ck.quick:
        for part in mc.chunks(C, 30):
            jobs.append((part, True, (True, False) if any(c.hq.active for c in part) else (True,)))
    else:
        for part in mc.chunks(C[::6], 30):
            jobs.append((part, True, (True, False) if any(c.hq.active for c in part) else (True,)))
    un = [c for c in C if c.hq.props]
    jobs.append((un, False, (True, False), ("-O0",)))
    cond = [Cell(HQ(dims=d, active=e), [SA(opt=True, passflag=False)]) for e in conditions()
            for d in (((),) if ck.quick else ((), (HDIM,)))]
    for part in mc.chunks(cond, 30):
        jobs.append((part, False, MODES))
    C += cond
    steps = n = 0
    import time
    seen = set()
    for job, (res, st) in zip(jobs, mc.pmap(run_cells, jobs)):
        steps += st
        debug = job[1]
        for c, s, w in res:
            n += 1
            ck.outcome(s)
            seen.add((repr(c), c.loop))
            if s not in ("ok", "refused"):
                un = "" if not c.hq.props else "unchecked " if len(job) > 3 else "unallocated "
                ck.violation(un + "%s debug=%s %r loop=%s" % (s, debug, c, c.loop), "%s: %s\n%s" % (s, c, w[:1500]))
    refused = ck.outcomes.get("refused", 0)
    ck.sample(repr(C[0]))
    ck.sample(repr(C[-1]))
    ck.finish(evaluations=steps, distinct_nontrivial=len(seen), cells=len(C), cell_builds=n,
              exhaustive=True, refused_cells=refused,
              rule="every cell of the declared product of host location x rank x type x units x kind x "
                   "orientation x activity with scheme declarations; nontrivial = the scheme call was executed "
                   "on real generated code and compared with the value model; evaluations = scheme calls compared")


main()
