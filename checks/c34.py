"""C34: a scheme written for one layer is called once for every layer.

A scheme whose argument lacks the vertical dimension of the host's quantity is called in a loop over that
dimension.  Every cell (quantities x schemes, each argument whole or one layer of its quantity) is generated
by the real capgen, compiled and executed for every column window; the calls, what each call sees and what
the host holds afterwards are compared with a value model which calls the scheme for layer 1, 2, ..., n."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cells
from cells import HDIM, HLE, VL, VI, NT, SIZES, NCOL, Arr, conv, FMT, parse, parse_vals, close, body
from cg import V, Scheme, HostMod, Case, suite_xml, driver, err_vars

VERT = (VL, VI)


class A:
    """One argument: quantity number, whole or one layer of it."""

    def __init__(self, q, layer=False, intent="inout", units=None, kind=None, opt=False, local=None):
        self.q, self.layer, self.intent, self.units, self.kind, self.opt = q, layer, intent, units, kind, opt
        self.local = local

    def key(self):
        return (self.q, "layer" if self.layer else "whole", self.intent, self.units, self.kind, self.opt)


class Q:
    def __init__(self, dims, typ="real", units="m", where="mod", active=None):
        self.dims, self.typ, self.units, self.where, self.active = tuple(dims), typ, units, where, active
        self.kind = "kind_phys" if typ == "real" else ""

    def key(self):
        return (self.dims, self.typ, self.units, self.where, self.active)


class Cell:
    def __init__(self, qs, schemes, loop=None, phase="run", own=False, split=False, fail=None):
        self.qs, self.schemes, self.loop, self.phase = qs, schemes, loop, phase
        self.own = own             # the first quantity belongs to the suite (the first scheme defines it)
        self.split = split         # every scheme in a group of its own
        self.fail = fail           # (scheme, n): the n-th call of the scheme fails

    def key(self):
        return (tuple(q.key() for q in self.qs), tuple(tuple(a.key() for a in s) for s in self.schemes),
                self.loop, self.phase, self.own, self.split, self.fail)

    def __repr__(self):
        return repr(self.key())

    def groups(self, i):
        """[(name of the group, its schemes)]"""
        n = range(len(self.schemes))
        return [("g%dx%d" % (i, j), [j]) for j in n] if self.split else [("g%d" % i, list(n))]


class Batch:
    def __init__(self, cs, debug=False):
        self.cells, self.debug = cs, debug

    def build(self):
        dims = [V("ncols", HDIM, "integer", "", "count", protected="True"),
                V("pver", VL, "integer", "", "count", protected="True"),
                V("pverp", VI, "integer", "", "count", protected="True"),
                V("nthing", NT, "integer", "", "count", protected="True"),
                V("host_flag", "flag_for_mc_condition", "logical", "", "flag")]
        modv, ddtv, init, dump, schemes, groups, secs = list(dims), [], [], [], [], [], []
        self.arr = {}
        ln = {HDIM: "ncols", VL: "pver", VI: "pverp", NT: "nthing"}
        for i, c in enumerate(self.cells):
            for k, q in enumerate(c.qs):
                n = 1
                for d in q.dims:
                    n *= SIZES[d]
                base = 1000 * (10 * i + k + 1)
                fl = [base + m for m in range(1, n + 1)]
                self.arr[i, k] = Arr([SIZES[d] for d in q.dims], [float(x) for x in fl] if q.typ == "real" else fl)
                if c.own and k == 0:
                    continue
                nm = "h%dq%d" % (i, k)
                props = {"active": q.active} if q.active else {}
                v = V(nm, "mc_quantity_%d_%d" % (i, k), q.typ, q.kind, q.units, q.dims, fattr="allocatable" if q.dims else "", **props)
                ref = nm
                bigd = list(q.dims)
                if q.where == "ddt":
                    ddtv.append(v)
                    ref = "phys%" + nm
                elif q.where == "sec":
                    v.local = "%s(%s)" % (nm, ",".join(list(":" * len(q.dims)) + ["2"]))
                    modv.append(v)
                    secs.append("%s, allocatable :: %s(%s)" % (v.ftype(), nm, ",".join(":" * (len(q.dims) + 1))))
                    bigd.append(NT)
                else:
                    modv.append(v)
                if bigd:
                    init.append("allocate(%s(%s))" % (ref, ",".join(ln[d] for d in bigd)))
                    if q.where == "sec":
                        init.append("%s = -1" % ref)
                        ref += "(%s,2)" % ",".join(":" * len(q.dims))
                    init.append("%s = reshape([(%s,mc_i=1,size(%s))], shape(%s))" % (
                        ref, ("real(%d + mc_i, kind_phys)" if q.typ == "real" else "%d + mc_i") % base, ref, ref))
                else:
                    init.append("%s = %d" % (ref, base + 1))
                dump.append("write(6,'(a,*(1x,%s))') 'H %d_%d', %s" % (FMT[q.typ], i, k, ref))
            for j, s in enumerate(c.schemes):
                nm = "c%ds%d" % (i, j)
                vs, b, need, upd = [], ["mc_cnt = mc_cnt + 1"], set(), []
                for k, a in enumerate(s):
                    q = c.qs[a.q]
                    d = [x for x in q.dims if not (a.layer and x in VERT)]
                    if c.phase == "run":
                        d = [HLE if x == HDIM else x for x in d]
                    need |= set(d)
                    kind = a.kind or q.kind
                    v = V(a.local or "x%d" % k, "mc_quantity_%d_%d" % (i, a.q), q.typ, kind, a.units or q.units, d, intent=a.intent, opt=a.opt)
                    v.kind = kind
                    vs.append(v)
                    out = body("%sa%d" % (nm, k), v.local, q.typ, kind, len(d), a.intent, a.opt)
                    if c.fail and c.fail[0] == j:
                        # what is written and what is modified are kept apart: a call which fails modifies nothing
                        b += [s for s in out if "write(6" in s]
                        upd += [s for s in out if "write(6" not in s]
                    else:
                        upd += out
                    if a.intent == "out":
                        upd.append("%s%s = %s + mc_cnt*100" % ("if (present(%s)) " % v.local if a.opt else "", v.local, v.local))
                for d, l in ((HLE, "ncol"), (HDIM, "ncol"), (VL, "nz"), (VI, "nzi"), (NT, "nth")):
                    if d in need:
                        vs.insert(0, V(l, d, "integer", "", "count", intent="in"))
                if c.fail and c.fail[0] == j:
                    b += ["if (mc_cnt == %d) then" % c.fail[1], "  errflg = 7", "  errmsg = 'mc fails'", "  return", "end if"]
                b += upd
                schemes.append(Scheme(nm, {c.phase: (vs + err_vars(), b, ["integer :: mc_i", "integer, save :: mc_cnt = 0"])},
                                      uses=["mc_tr", "ccpp_kinds, only: kind_r4"]))
            for g, js in c.groups(i):
                x = "".join("<scheme>c%ds%d</scheme>" % (i, j) for j in js)
                if c.loop:
                    x = '<subcycle loop="%d">%s</subcycle>' % (c.loop, x)
                groups.append('<group name="%s">%s</group>' % (g, x))
        ddts = []
        if ddtv:
            ddts.append(("phys_t", ddtv))
            modv.append(V("phys", "mc_physics_state", "phys_t", "", "DDT"))
        self.case = Case(host="hst", mods=[HostMod("hmod", modv, ddts=ddts, extra=secs)], schemes=schemes,
                         suites=[("su", suite_xml("su", "\n".join(groups)))],
                         kinds=("kind_phys=REAL64", "kind_r4=REAL32"), debug=self.debug)
        drv = driver("hst", uses="  use hmod", decls="  integer :: mc_i",
                     init="  ncols=%d; pver=%d; pverp=%d; nthing=%d\n  host_flag=.true." % (
                         NCOL, SIZES[VL], SIZES[VI], SIZES[NT]),
                     ops="    case('reset')\n      read(line,*) op, host_flag\n      call setup()\n"
                         "    case('dump')\n      call dumpall()\n")
        dealloc = []
        for s in init:
            if s.startswith("allocate("):
                r = s[9:].split("(")[0]
                dealloc.append("if (allocated(%s)) deallocate(%s)" % (r, r))
        sub = "\ncontains\n  subroutine setup()\n" + "\n".join("    " + s for s in dealloc + init) + \
            "\n  end subroutine setup\n  subroutine dumpall()\n" + "\n".join("    " + s for s in dump) + \
            "\n  end subroutine dumpall\nend program drv\n"
        drv = drv.replace("end program drv\n", sub)
        d = mc.newdir("layer")
        self.case.write(d)
        st, txt = self.case.generate()
        if st != "ok":
            return "refused" if st == "CCPPError" else "generator " + st, txt
        ok, txt = self.case.compile(drv)
        return ("ok", "") if ok else ("compile", txt)

    def close(self):
        mc.rmdir(self.case.dir)

    # ---- oracle
    def calls(self, i, js, cs, ce, flag, cnt, arr):
        c = self.cells[i]
        exp = []
        win = list(range(cs - 1, ce)) if c.phase == "run" else list(range(NCOL))
        for _ in range(c.loop or 1):
            for j in js:
                s = c.schemes[j]
                nm = "c%ds%d" % (i, j)
                lv = {x for a in s if a.layer for x in c.qs[a.q].dims if x in VERT}
                n = SIZES[lv.pop()] if lv else 1
                for lay in range(n):
                    cnt[nm] = cnt.get(nm, 0) + 1
                    new = []
                    for k, a in enumerate(s):
                        q = c.qs[a.q]
                        if a.opt and q.active and not flag:
                            exp.append(("N", "%sa%d" % (nm, k), None))
                            continue
                        ar = arr[i, a.q]
                        sel = [win if d == HDIM else lay if a.layer and d in VERT else list(range(SIZES[d])) for d in q.dims]
                        sub = ar.take(sel) if q.dims else ar
                        u = a.units or q.units
                        vals = [conv(x, q.units, u) for x in sub.flat] if q.typ == "real" else list(sub.flat)
                        if sub.shape:
                            exp.append(("S", "%sa%d" % (nm, k), tuple(sub.shape)))
                        elif a.intent == "out":
                            exp.append(("S", "%sa%d" % (nm, k), ()))
                        else:
                            exp.append(("S", "%sa%d" % (nm, k), ()))
                        if a.intent != "out":
                            exp.append(("A", "%sa%d" % (nm, k), vals))
                        if a.intent == "inout":
                            vals = [x * 2 + 1 for x in vals]
                        elif a.intent == "out":
                            vals = [(m + 1 if sub.shape else 7) + cnt[nm] * 100 for m in range(len(vals))]
                        if a.intent != "in":
                            new.append((ar, sel, [conv(x, u, q.units) if q.typ == "real" else x for x in vals], sub.shape, q.dims))
                    if c.fail and c.fail == (j, cnt[nm]):
                        return exp, 7
                    for ar, sel, vals, shp, dd in new:
                        if dd:
                            ar.put(sel, Arr(shp, vals))
                        else:
                            ar.flat = vals
        return exp, 0

    def execute(self, windows, flags=(True,)):
        viol, steps = {}, 0
        init = {k: list(a.flat) for k, a in self.arr.items()}
        for flag in flags:
            for cs, ce in windows:
                for k, a in self.arr.items():
                    a.flat = list(init[k])
                cnt = {}
                script, plan = ["reset %s" % ("T" if flag else "F")], [None]
                for ph in ("register", "init", "timestep_init", "run", "dump", "run", "dump", "timestep_final", "final"):
                    if ph == "dump":
                        script.append("dump")
                        plan.append("dump")
                    elif ph == "run":
                        for i, c in enumerate(self.cells):
                            for g, js in c.groups(i):
                                script.append("run su %s %d %d" % (g, cs, ce))
                                plan.append([(i, js)] if c.phase == "run" else [])
                    else:
                        script.append("%s su x %d %d" % (ph, cs, ce))
                        plan.append([(i, list(range(len(c.schemes)))) for i, c in enumerate(self.cells) if c.phase == ph])
                rc, txt = self.case.execute("\n".join(script) + "\n", timeout=120)
                out = parse(txt)
                for k, p in enumerate(plan):
                    if k >= len(out):
                        for i in ([x for x, _ in plan[k - 1]] if isinstance(plan[k - 1], list) else []) or range(len(self.cells)):
                            viol.setdefault(i, "program ended (rc %s) in '%s': %s" % (rc, script[k - 1], txt[-300:]))
                        break
                    if p is None:
                        continue
                    if p == "dump":
                        seen = {r[1]: r[2] for r in out[k][1] if r[0] == "H"}
                        for (i, m), a in self.arr.items():
                            c = self.cells[i]
                            if c.own and m == 0:
                                continue
                            got = parse_vals(seen.get("%d_%d" % (i, m), []), c.qs[m].typ)
                            r4 = any(x.kind == "kind_r4" for s in c.schemes for x in s)
                            if len(got) != len(a.flat) or not all(close(x, y, 3e-5 if r4 else 1e-9) for x, y in zip(got, a.flat)):
                                viol.setdefault(i, "host quantity %d after the calls (columns %d:%d, flag %s): expected %s, got %s" % (
                                    m, cs, ce, flag, a.flat, got))
                        continue
                    exp, code = [], 0
                    for i, js in p:
                        e, code = self.calls(i, js, cs, ce, flag, cnt, self.arr)
                        exp += [(i, r) for r in e]
                        if code:
                            break
                    p = [i for i, _ in p]
                    steps += len(exp)
                    recs = [r for r in out[k][1] if r[0] in "SAN?"]
                    if out[k][2] != code or (code and out[k][3] != "mc fails"):
                        for i in p or range(len(self.cells)):
                            viol.setdefault(i, "'%s' returned code %s (%s), expected %s" % (script[k], out[k][2], out[k][3], code))
                    for n in range(max(len(exp), len(recs))):
                        if n >= len(exp) or n >= len(recs):
                            viol.setdefault(exp[n][0] if n < len(exp) else (p or [0])[0], "'%s': expected %s, got %s" % (
                                script[k], exp[n:n + 1], recs[n:n + 1]))
                            break
                        i, (kind, nm, val) = exp[n]
                        r = recs[n]
                        c = self.cells[i]
                        ok = r[0] == kind and r[1] == nm
                        if ok and kind == "S":
                            ok = tuple(int(t) for t in r[2]) == val
                        if ok and kind == "A":
                            a = c.schemes[int(nm.split("s")[1].split("a")[0])][int(nm.split("a")[1])]
                            got = parse_vals(r[2], c.qs[a.q].typ)
                            r4 = any(x.kind == "kind_r4" for s in c.schemes for x in s)
                            ok = len(got) == len(val) and all(close(x, y, 3e-5 if r4 else 1e-9) for x, y in zip(got, val))
                        if not ok:
                            viol.setdefault(i, "'%s' (flag %s): expected %s %s %s, got %s %s %s" % (
                                script[k], flag, kind, nm, val, r[0], r[1], r[2]))
                            break
        return viol, steps


def run(arg):
    cs, debug, windows, flags = arg
    res, steps = [], 0

    def go(cl):
        nonlocal steps
        b = Batch(cl, debug)
        st, txt = b.build()
        if st != "ok":
            b.close()
            if len(cl) == 1:
                res.append((cl[0], st, txt))
            else:
                h = len(cl) // 2
                go(cl[:h])
                go(cl[h:])
            return
        v, n = b.execute(windows, flags)
        steps += n
        b.close()
        if v and len(cl) > 1:
            for c in cl:
                go([c])
        else:
            res.extend((c, "wrong" if i in v else "ok", v.get(i, "")) for i, c in enumerate(cl))
    go(cs)
    return res, steps




DIMS = [(HDIM, VL), (HDIM, VI), (HDIM, VL, NT), (HDIM, NT, VL), (VL, HDIM), (NT, HDIM, VL), (VL, NT), (NT, VI), (VI, HDIM, NT)]
COND = "(flag_for_mc_condition)"
HV, HI, H, S = Q((HDIM, VL)), Q((HDIM, VI)), Q((HDIM,)), Q(())
TWO = "refused"        # the expected verdict of a scheme which needs two vertical loops


def space(quick):
    """(cell, expected verdict)"""
    C = []

    def add(*a, **k):
        c = Cell(*a, **k)
        two = any(len({d for x in s if x.layer for d in c.qs[x.q].dims if d in VERT}) > 1 for s in c.schemes)
        C.append((c, TWO if two else "ok"))
    ints = ("in", "inout", "out")
    # one argument
    for d, i, u in itertools.product(DIMS, ints, (None, "cm")):
        add([Q(d)], [[A(0, True, i, units=u)]])
    for d, i in itertools.product(DIMS, ints):
        add([Q(d, "integer", "1")], [[A(0, True, i)]])
    for ph in ("init", "timestep_init", "timestep_final", "final", "register"):
        for d, u in itertools.product(DIMS[:4] if quick else DIMS, (None, "cm")):
            if ph != "register":
                add([Q(d)], [[A(0, True, units=u)]], phase=ph)
    for w, d, u in itertools.product(("ddt", "sec"), DIMS[:5], (None, "cm")):
        add([Q(d, where=w)], [[A(0, True, units=u)]])
    for d, i, u, ph in itertools.product(DIMS[:5], ints, (None, "cm"), ("run",) if quick else ("run", "init")):
        add([Q(d, active=COND)], [[A(0, True, i, units=u, opt=True)]], phase=ph)
    for d, i in itertools.product(DIMS[:3], ints):
        add([Q(d)], [[A(0, True, i, kind="kind_r4")]])
        add([Q(d)], [[A(0, True, i, kind="kind_r4", units="km")]])
    # two arguments
    kinds = [(HV, dict(layer=True)), (HV, dict(layer=True, units="cm")), (HV, {}), (HV, dict(units="cm")), (H, {}), (H, dict(units="cm")),
             (HI, {}), (HI, dict(layer=True)), (S, {}), (Q((HDIM, VL), active=COND), dict(layer=True, opt=True)),
             (Q((HDIM,), active=COND), dict(opt=True, units="cm")), (Q((HDIM, VL, NT)), dict(layer=True))]
    for (q1, k1), (q2, k2) in itertools.product(kinds, repeat=2):
        if k1.get("layer") or k2.get("layer"):
            add([q1, q2], [[A(0, intent="inout", **k1), A(1, intent="in", **k2)]])
            if not quick:
                add([q1, q2], [[A(0, intent="in", **k1), A(1, intent="out", **k2)]])
    # sequences of schemes
    one = [dict(layer=True), dict(), dict(layer=True, units="cm"), dict(units="cm")]
    for n in (2, 3):
        for ks in itertools.product(one if n == 2 or not quick else one[:3], repeat=n):
            if any(k.get("layer") for k in ks):
                for lp in (None, 2):
                    if lp is None or n == 2 or not quick:
                        add([HV], [[A(0, **k)] for k in ks], loop=lp)
                if n == 2 or not quick:
                    add([HV], [[A(0, **k)] for k in ks], split=True)
    for ks in itertools.product([(0, True), (1, True), (0, False), (1, False)], repeat=3):
        if any(l for _, l in ks):
            add([HV, HI], [[A(q, l)] for q, l in ks])
    # quantities of the suite
    for d, u, sp, ph in itertools.product(DIMS[:4], (None, "cm"), (False, True), ("run", "init")):
        if sp and ph != "run":
            continue
        add([Q(d)], [[A(0, False, "out")], [A(0, True, units=u)], [A(0, False, "in")]], own=True, split=sp, phase=ph)
        add([Q(d)], [[A(0, False, "out")], [A(0, True, "in", units=u)], [A(0, True, "in")]], own=True, split=sp, phase=ph)
    add([HV, HI], [[A(0, False, "out")], [A(1, True)], [A(0, True)]], own=True)
    add([HV, HV], [[A(0, False, "out")], [A(1, True), A(0, True, "in")]], own=True)
    # failures
    for ks in itertools.product([True, False], repeat=2):
        for lp in (None, 2):
            for j in (0, 1):
                for n in range(1, (3 if ks[j] else 1) * (lp or 1) + 1):
                    add([HV], [[A(0, ks[0])], [A(0, ks[1])]], loop=lp, fail=(j, n))
    return C


def main():
    ck = mc.Check("C34", "exploration")
    sp = space(ck.quick)
    win = [(2, 3), (1, NCOL)] if ck.quick else [(a, b) for a in range(1, NCOL + 1) for b in range(a, NCOL + 1)]
    keys, jobs, todo = set(), [], {}
    for c, e in sp:
        if c.key() not in keys:
            keys.add(c.key())
            todo.setdefault((e != "ok", any(q.active for q in c.qs), c.fail is not None), []).append(c)
    exp = {c.key(): e for c, e in sp}
    for debug in (False, True):
        for (refuse, act, fail), cs in sorted(todo.items()):
            if debug and ck.quick:
                cs = cs[::7]
            for part in ([[c] for c in cs] if refuse or fail else mc.chunks(cs, 6)):
                jobs.append((part, debug, win, (True, False) if act else (True,)))
    steps = n = 0
    for job, r in zip(jobs, mc.pmap(run, jobs)):
        if isinstance(r, mc.Crash):
            ck.violation("machinery %r" % job[0][0], "the check of %r failed: %s" % (job[0][0], r), {"cells": [repr(c) for c in job[0]]})
            continue
        steps += r[1]
        for c, st, txt in r[0]:
            n += 1
            ck.outcome("%s as expected" % st if st == exp[c.key()] else "unexpected " + st)
            if st != exp[c.key()]:
                ck.violation("%r%s" % (c, " debug" * job[1]), "expected %s, got %s for %r%s: %s" % (exp[c.key()], st, c, " (debug)" if job[1] else "", str(txt)[-600:]),
                             {"cell": repr(c), "debug": job[1], "got": st})
    ck.sample(repr(sp[0][0]))
    ck.sample(repr(sp[-1][0]))
    ck.finish(evaluations=steps, distinct_nontrivial=len(keys), cells=n, exhaustive=True)


if __name__ == "__main__":
    main()
