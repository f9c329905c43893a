"""C35: code generated with --debug stops in front of a scheme whose arguments do not have the stated size.

Bounded exhaustive enumeration: quantities (dimensions, type, place, condition, declarations of the schemes) x every change of every
extent by one x phase x activity.  Every configuration is generated by the real capgen, compiled and executed; the calls made before
the phase ends, its code and its message are compared with a reference which multiplies the extents the metadata states."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, driver, err_vars, suite_xml

H, L, VL, VI, NT = ("horizontal_dimension", "horizontal_loop_extent", "vertical_layer_dimension", "vertical_interface_dimension",
                    "number_of_things_mc")
SIZE = {H: 4, VL: 3, VI: 4, NT: 2}
FLAG = "flag_for_mc_condition"
PH = ["init", "timestep_init", "timestep_final", "final"]


class Q:
    """A host array and the schemes which take it: (intent, units, kind, one layer only)."""

    def __init__(self, dims, uses, typ="real", place="mod", active=False, units="K"):
        self.dims, self.uses, self.typ, self.place, self.active, self.units = tuple(dims), uses, typ, place, active, units

    def key(self):
        return "%s(%s)%s%s by %s" % (self.typ, ",".join(d.split("_")[0] + d.split("_")[1][:2] for d in self.dims), " in structure" * (self.place == "ddt"),
                                     " conditional" * self.active, " ".join("%s/%s/%s%s" % (u[0], u[1] or "-", u[2] or "-", " layer" * u[3]) for u in self.uses))

    def layer(self):
        return any(u[3] for u in self.uses)

    def sizes(self):
        """Every change of every extent by at most one."""
        return list(itertools.product(*[(SIZE[d], SIZE[d] - 1, SIZE[d] + 1) for d in self.dims]))

    def wrong(self, ext):
        """Does the size differ (None: the shape differs, the size does not)?"""
        n = [(e, SIZE[d]) for e, d in zip(ext, self.dims)]
        a, b = 1, 1
        for e, s in n:
            a, b = a * e, b * s
        return a != b if a != b or all(e == s for e, s in n) else None


def build(job):
    qs, debug = job
    d = mc.newdir("c35")
    try:
        return build_in(d, qs, debug)
    finally:
        mc.rmdir(d)


def build_in(d, qs, debug):
    hv = [V("ncols", H, "integer", "", "count", protected="True"), V("pver", VL, "integer", "", "count", protected="True"),
          V("pverp", VI, "integer", "", "count", protected="True"), V("nth", NT, "integer", "", "count", protected="True"),
          V("flg", FLAG, "logical", "", "flag")]
    dv, schemes, ops, body, calls, init = [], [], [], [], [], []
    kind = {"real": "kind_phys", "integer": "", "logical": ""}
    for i, q in enumerate(qs):
        un = {"real": q.units, "integer": "count", "logical": "flag"}[q.typ]
        v = V("arr%d" % i, "mc_quantity_%d" % i, q.typ, kind[q.typ], un, q.dims, fattr="allocatable", **({"active": FLAG} if q.active else {}))
        (dv if q.place == "ddt" else hv).append(v)
        ref = ("hold%%arr%d" if q.place == "ddt" else "arr%d") % i
        zero = {"real": "1", "integer": "1", "logical": ".true."}[q.typ]
        ex = ",".join("e%d" % (k + 1) for k in range(len(q.dims)))
        ops += ["case(%d)" % i, "  if (allocated(%s)) deallocate(%s)" % (ref, ref), "  allocate(%s(%s))" % (ref, ex), "  %s = %s" % (ref, zero)]
        for j, (intent, units, kd, lay) in enumerate(q.uses):
            ph = {}
            for p in PH + ["run"]:
                dims = [(L if p == "run" and x == H else x) for x in q.dims if not (lay and x in (VL, VI))]
                a = V("x", "mc_quantity_%d" % i, q.typ, kd or kind[q.typ], units or un, dims, intent, q.active)
                set_ = ["if (present(x)) x = %s" % zero if q.active else "x = %s" % zero] if intent == "out" else []
                ph[p] = (err_vars() + [a], set_ + ["call tr('s%d_%d_%s', errmsg, errflg)" % (i, j, p)])
            schemes.append(Scheme("s%d_%d" % (i, j), ph, uses=["mc_tr", "ccpp_kinds, only: kind_r4"]))
            body.append("<scheme>s%d_%d</scheme>" % (i, j))
            calls.append((i, "s%d_%d" % (i, j), SIZE[[x for x in q.dims if x in (VL, VI)][0]] if lay else 1))
    mod = HostMod("hm", hv)
    if dv:
        mod.ddts.append(("hold_t", dv))
        hv.append(V("hold", "mc_structure", "hold_t", "", "none", ()))
    c = Case(mods=[mod], schemes=schemes, suites=[("su", suite_xml("su", '<group name="g1">%s</group>' % "".join(body)))], debug=debug,
             kinds=("kind_phys=REAL64", "kind_r4=REAL32"))
    c.write(d)
    st, txt = c.generate()
    if st != "ok":
        return {None: "generation: %s %s" % (st, txt[-700:])}, 0
    opt = "    case('size')\n      read(line,*) op, iq, e1, e2, e3\n      select case(iq)\n" + "".join("      %s\n" % o for o in ops) + "      end select\n" + \
        "    case('flag')\n      read(line,*) op, flg\n"
    ok, txt = c.compile(driver(c.host, uses="  use hm", decls="  integer :: iq, e1, e2, e3",
                               init="  ncols = %d; pver = %d; pverp = %d; nth = %d; flg = .true." % (SIZE[H], SIZE[VL], SIZE[VI], SIZE[NT]), ops=opt))
    if not ok:
        return {None: "does not compile: " + txt[:900]}, 0

    def setsize(i, ext):
        return "size %d %s" % (i, " ".join(str(x) for x in (list(ext) + [1, 1])[:3]))
    L0, exp = [], {}
    for i, q in enumerate(qs):
        L0.append(setsize(i, [SIZE[x] for x in q.dims]))
    L0.append("register su x 0 0")

    def call(ph, wrong, what):
        """wrong: number of the quantity of wrong size or None"""
        tr, fail = [], None
        for i, s, n in calls:
            if i == wrong:
                fail = s
                break
            tr += ["%s_%s" % (s, ph)] * n
        exp[len(L0)] = (ph, tr, fail, wrong, what)
        L0.append("%s su %s 1 %d" % (ph, "g1" if ph == "run" else "x", SIZE[H]))

    def phase(ph):
        for i, q in enumerate(qs):
            for ext in q.sizes():
                w = q.wrong(ext)
                if w is None or not debug and any(e < SIZE[x] for e, x in zip(ext, q.dims)):
                    continue
                for act in ((True, False) if q.active else (True,)):
                    if not (w and debug and act):
                        continue            # such a phase completes: see below
                    L0.append(setsize(i, ext))
                    call(ph, i, (q.key(), ext, act))
                    L0.append(setsize(i, [SIZE[x] for x in q.dims]))
    for act in (True, False):
        # phases which end early leave the suite where it is, so all wrong sizes can be tried before the right one
        for ph in PH[:2]:
            L0.append("flag .true.")
            if act:
                phase(ph)
            L0.append("flag " + (".true." if act else ".false."))
            if not act:
                for i, q in enumerate(qs):
                    if q.active:
                        L0.append(setsize(i, [max(1, SIZE[x] - 1) for x in q.dims]))
            call(ph, None, ("all sizes right" if act else "only inactive arrays have another size", None, act))
            if not act:
                for i, q in enumerate(qs):
                    L0.append(setsize(i, [SIZE[x] for x in q.dims]))
        call("run", None, ("all sizes right", None, act))
        for ph in PH[2:]:
            L0.append("flag .true.")
            if act:
                phase(ph)
            L0.append("flag " + (".true." if act else ".false."))
            if not debug and act:
                for i, q in enumerate(qs):      # nothing looks at the size of an array which is passed as it is
                    if not any(u[1] or u[2] or u[3] for u in q.uses):
                        L0.append(setsize(i, [SIZE[x] + 1 for x in q.dims]))
            call(ph, None, ("all sizes right", None, act))
            for i, q in enumerate(qs):
                L0.append(setsize(i, [SIZE[x] for x in q.dims]))
    rc, txt = c.execute("\n".join(L0) + "\nquit\n")
    blocks, bad = [], {}
    for ln in txt.splitlines():
        if ln.startswith("C "):
            blocks.append([])
        elif blocks:
            blocks[-1].append(ln)
    if rc != 0 or len(blocks) != len(L0) + 1:
        k = len(blocks) - 1
        return {None: "run ends with %d at '%s' (%s): %s" % (rc, L0[k] if 0 <= k < len(L0) else "?", exp.get(k), txt[-300:])}, 0
    for k, (ph, tr, fail, wrong, what) in exp.items():
        got = [ln[2:].strip() for ln in blocks[k] if ln.startswith("T ")]
        res = [ln[2:].split(" ", 1) for ln in blocks[k] if ln.startswith("R ")]
        code, msg = (int(res[0][0]), res[0][1] if len(res[0]) > 1 else "") if res else (None, "")
        key = "%s%s in %s%s" % ("" if debug else "no debug: ", what[0], ph, " as %s" % (what[1],) if what[1] else "")
        if got != tr:
            bad[key] = "calls %s, expected %s (code %s %s)" % (got, tr, code, msg)
        elif fail is None and code != 0:
            bad[key] = "code %s %s although every size is right" % (code, msg)
        elif fail is not None and code in (0, None, -77):
            bad[key] = "the phase reports no error"
        elif fail is not None:
            q, ext = qs[wrong], what[1]
            n = m = 1
            for e, x in zip(ext, q.dims):
                n, m = n * SIZE[x], m * e
            nums = [int(x) for x in re.findall(r"\d+", msg)]
            if n not in nums or m not in nums:
                bad[key] = "the message does not give the sizes %d and %d: %s" % (n, m, msg)
            elif fail not in msg:
                bad[key] = "the message does not name the scheme %s: %s" % (fail, msg)
    return bad, len(exp)


def space(quick):
    I = [(x, None, None, False) for x in ("in", "inout", "out")]
    D = [(H,), (VL,), (NT,), (H, VL), (H, VI), (VL, NT), (H, NT), (H, VL, NT)]
    out = []
    for dims in D:
        for u in I:
            for place in ("mod", "ddt"):
                for active in (False, True):
                    if quick and (len(dims) != 2 and u[0] != "inout" or active and place == "ddt"):
                        continue
                    out.append(Q(dims, [u], place=place, active=active))
    for typ in ("integer", "logical"):
        for dims in D[:4] if quick else D:
            for u in I[1:2] if quick else I:
                out.append(Q(dims, [u], typ))
    # converted arguments, one layer of a quantity, and a second scheme with another declaration
    for dims in [(H,), (H, VL)] if quick else D:
        for a in ("in", "inout", "out"):
            for un, kd in ((u, k) for u in (None, "C") for k in (None, "kind_r4") if u or k):
                for active in (False, True):
                    if quick and active and a == "in":
                        continue
                    out.append(Q(dims, [(a, un, kd, False)], active=active))
        for u1, u2 in itertools.product(I, repeat=2):
            out.append(Q(dims, [u1, (u2[0], "C", None, False)]))
            if not quick:
                out.append(Q(dims, [(u1[0], "C", None, False), u2]))
    for dims in [(H, VL), (H, VI), (H, VL, NT)]:
        for u in I:
            out.append(Q(dims, [u[:3] + (True,)]))
            if not quick:
                out.append(Q(dims, [u[:3] + (True,)], place="ddt"))
    return out


def main():
    ck = mc.Check("C35", "exploration")
    cg.preload()
    qs = space(ck.quick)
    whole = [q for q in qs if not q.layer()]
    lay = [q for q in qs if q.layer()]
    packs = mc.chunks(whole, 6) + mc.chunks(lay, 3)
    jobs = [(p, True) for p in packs] + [(p, False) for p in (packs[::4] if ck.quick else packs)]
    n = 0
    for (p, dbg), (bad, k) in zip(jobs, mc.pmap(build, jobs)):
        n += k
        if None in bad and len(p) > 1:
            for (q,), (b, k) in zip([[q] for q in p], mc.pmap(build, [([q], dbg) for q in p])):
                n += k
                for x, w in b.items():
                    ck.violation(x or "build of %s" % q.key(), w)
            continue
        for x, w in bad.items():
            ck.violation(x or "build of %s" % " | ".join(q.key() for q in p), w)
    ck.sample(qs[0].key())
    ck.finish(evaluations=n, distinct_nontrivial=len(qs), builds=len(jobs), exhaustive=True,
              rule="every extent of every array changed by -1, 0, +1 (whole product), in every phase in which whole arrays are passed")


if __name__ == "__main__":
    main()
