"""C02: schemes run in exactly the order and number the suite definition states.

Exhaustive enumeration of suite-definition trees (groups, nested subcycles, time splits, schemes with
every phase profile) up to a size bound.  Every suite is generated by the real generator, compiled,
and every phase is executed; the recorded call trace must equal the trace obtained by walking the
tree."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import sdf

PROF = {
    "sa": ["register", "init", "timestep_init", "run", "timestep_final", "final"],
    "sb": ["run", "init", "final"],
    "sc": ["timestep_final", "timestep_init", "run"],
    "sd": ["run"],
    "se": ["register", "init"],
    "sf": ["timestep_init", "final"],
    "sg": ["run", "register", "timestep_final"],
}
LOOPS = ["2", "3", sdf.LOOPVAR, "1", None, "4"]


def growth(n, names):
    """Restricted-growth labellings."""
    def rec(pre, m):
        if len(pre) == n:
            yield [names[i] for i in pre]
            return
        for i in range(min(m + 1, len(names))):
            yield from rec(pre + [i], max(m, i + 1))
    return list(rec([], 0))


def suites(quick):
    out = []

    def add(groups):
        out.append(groups)

    def shapes(n, depth, kinds, labels, rotations=(0,)):
        for f in sdf.forests(n, depth, kinds):
            nc = sdf.ncycles(f)
            for lab in labels:
                for r in (rotations if nc else (0,)):
                    lp = itertools.cycle(LOOPS[r:] + LOOPS[:r])
                    add([("g1", sdf.label(f, iter(lab), lp))])
    # tree shapes
    shapes(1, 3, ("c", "t"), growth(1, ["sa"]), rotations=range(len(LOOPS)))
    shapes(2, 2, ("c", "t"), growth(2, ["sa", "sb"]), rotations=(0, 2))
    shapes(3, 2 if not quick else 1, ("c", "t"), growth(3, ["sa", "sb", "sc"]))
    shapes(3, 2, ("c",), growth(3, ["sa", "sb", "sc"]), rotations=(0,) if quick else (0, 2, 4))
    if not quick:
        shapes(4, 2, ("c",), growth(4, ["sa", "sb", "sc"]))
        shapes(3, 3, ("c",), growth(3, ["sa", "sb", "sc"]))
    # phase profiles x distribution over groups
    names = list(PROF)
    for n in (1, 2, 3):
        pool = names if n < 3 or not quick else ["sa", "sb", "sc", "sf"]
        for lab in itertools.product(pool, repeat=n):
            for cut in itertools.product((0, 1), repeat=n - 1):
                groups, cur = [], [("s", lab[0])]
                for s, c in zip(lab[1:], cut):
                    if c:
                        groups.append(cur)
                        cur = []
                    cur.append(("s", s))
                groups.append(cur)
                if n == 3 and quick and sum(cut) == 0:
                    continue
                add([("g%d" % (i + 1), tuple(g)) for i, g in enumerate(groups)])
    # two groups of nested content
    for f1 in sdf.forests(2, 1, ("c",)):
        for f2 in sdf.forests(2, 1, ("c",)):
            add([("phys", sdf.label(f1, iter(["sa", "sb"]), itertools.cycle(LOOPS))),
                 ("dyn", sdf.label(f2, iter(["sb", "sc"]), itertools.cycle(LOOPS[1:])))])
    # degenerate and named constructs
    s = lambda n: ("s", n)
    add([("g1", ()), ("g2", (s("sa"),))])
    add([("g1", (s("sa"),)), ("g2", ())])
    add([("g1", (("c", "2", (), None), s("sa")))])
    add([("g1", (("t", ()), s("sa")))])
    add([("g1", (s("sa"), ("c", "3", (), None)))])
    for n1, n2 in itertools.product([None, "loop_a", "loop_b", "Loop_a"], repeat=2):
        add([("g1", (("c", "2", (s("sa"),), n1), ("c", "3", (s("sb"),), n2)))])
        add([("g1", (("c", "2", (s("sa"), ("c", "3", (s("sb"),), n2)), n1),))])
        add([("g1", (("c", "2", (("c", sdf.LOOPVAR, (s("sb"),), n2), s("sa")), n1), s("sd")))])
    add([("g1", (("c", "12", (s("sa"), ("c", "11", (s("sb"),), None)), None),))])
    # suite-wide init and final schemes, which may also be schemes of the groups
    pool = ["sa", "sb", "se", "sf", "sd"]
    for ti, tf in itertools.product([None, "@init", "@initialize"], [None, "@final", "@finalize"]):
        if ti is None and tf is None or quick and {ti, tf} & {"@initialize", "@finalize"} and ti and tf:
            continue
        for si in pool if ti else [None]:
            for sf in pool if tf else [None]:
                for body in ([("g1", (s("sb"), s("sa")))], [("g1", (s("sb"),)), ("g2", (s("sf"), s("sc")))], [("g1", (s("se"), s("sa"), s("sf"), s("sb")))]):
                    if quick and len(body) == 1 and len(body[0][1]) == 4 and ti and tf:
                        continue
                    add(([(ti, (s(si),))] if ti else []) + body + ([(tf, (s(sf),))] if tf else []))
    return [("u%d" % i, g) for i, g in enumerate(out)]


def script_for(name, groups, nvals):
    L = ["register %s x 1 1" % name, "init %s x 1 1" % name]
    for k, n in enumerate(nvals):
        L += ["setn %d" % n, "timestep_init %s x 1 1" % name]
        gs = [g for g, _ in groups if not g.startswith("@")]
        for g in (gs if k % 2 == 0 else gs[::-1]):
            L.append("run %s %s 1 1" % (name, g))
        L.append("timestep_final %s x 1 1" % name)
    return L + ["final %s x 1 1" % name]


def walk(batch, nvals=(2, 0, 3)):
    """Execute all suites of a built batch; returns (violations, steps)."""
    script, exp = [], []
    for name, groups in batch.suites:
        n = 2
        for cmd in script_for(name, groups, nvals):
            script.append(cmd)
            w = cmd.split()
            if w[0] == "setn":
                n = int(w[1])
                exp.append(None)
            else:
                exp.append((name, groups, w[0], w[2],
                            sdf.expected(groups, batch.profiles, w[0], w[2], {sdf.LOOPVAR: n})))
    rc, out = batch.run(script)
    viol, steps = {}, 0
    for i, e in enumerate(exp):
        if e is None:
            continue
        if i >= len(out):
            viol.setdefault(e[0], "program ended (rc %s) before '%s'" % (rc, script[i]))
            continue
        steps += 1 + len(e[4])
        if out[i][1] != e[4] or out[i][2] != 0:
            viol.setdefault(e[0], "%s of part '%s': expected calls %s, code 0; got %s, code %s %s" % (
                e[2], e[3], e[4], out[i][1], out[i][2], out[i][3]))
    return viol, steps


def job(part):
    good, bad = sdf.build_batches(part, PROF, size=len(part))
    res = []
    steps = 0
    for b in good:
        v, st = walk(b)
        steps += st
        for name, groups in b.suites:
            if name in v:
                res.append((groups, v[name]))
        b.close()
    for (name, groups), st, txt in bad:
        res.append((groups, "accepted suite definition gives no working code: %s\n%s" % (st, txt[-1500:])))
    return steps, len(part), res


def main():
    ck = mc.Check("C02", "exploration")
    allsuites = suites(ck.quick)
    if ck.replay_file:
        import json
        g = json.load(open(ck.replay_file))["case"]["groups"]
        allsuites = [("u0", eval(g))]
    parts = mc.chunks(allsuites, 30)
    seen = set()
    for steps, n, res in mc.pmap(job, parts):
        ck.add(evaluations=n, phase_steps=steps)
        for groups, what in res:
            ck.violation(repr(groups), "suite:\n%s\n%s" % (sdf.suite_body(groups), what),
                         {"groups": repr(groups)})
    for _, g in allsuites:
        seen.add(repr(g))
    for _, g in allsuites[:3] + allsuites[-2:]:
        ck.sample({"suite": sdf.suite_body(g)})
    ck.finish(distinct_nontrivial=len(seen), exhaustive=True,
              rule="all suite trees with at most 3 scheme leaves (thorough: 4) and nesting depth 2-3 over "
                   "subcycles (loop literal, variable, absent) and time splits, all phase-profile "
                   "combinations of up to 3 schemes over up to 3 groups; distinct = distinct trees, each "
                   "compiled and all phases executed with run-time loop counts 2, 0 and 3")


main()
