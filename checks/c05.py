"""C05: suite-internal data set by one scheme is what later schemes receive.

Bounded exhaustive enumeration of data flows: every pattern of up to three accesses (in / inout / out) of one
suite-internal quantity at eight places of a suite (phases x schemes x groups), for several types, dimensions, units and
local names.  Acceptance is compared with the dataflow rule, accepted flows are generated, compiled and executed by the
real tool (many quantities per build), two life cycles with column chunks; every value and extent a scheme sees is
compared with the last value written."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, driver, err_vars, suite_xml, dim_var

NC, NL, NT, CH = 5, 3, 2, [(1, 2), (3, 5)]
# places in the order in which a suite executes them: (phase, scheme)
SLOTS = [("init", "sa"), ("init", "sc"), ("timestep_init", "sa"), ("run", "sa"), ("run", "sb"), ("run", "sc"),
         ("timestep_final", "sc"), ("final", "sc")]
GROUP = {"sa": "g1", "sb": "g1", "sc": "g2"}
HOR, LEV, TRC = "H", "vertical_layer_dimension", "number_of_tracers_mc"
# kind of quantity: (type, kind, dims)
KINDS = {"r2": ("real", "kind_phys", (HOR, LEV)), "r1": ("real", "kind_phys", (HOR,)), "r0": ("real", "kind_phys", ()),
         "i0": ("integer", "", ()), "i1": ("integer", "", (HOR,)), "l0": ("logical", "", ()), "l1": ("logical", "", (HOR,)),
         "c0": ("character", "len=12", ()), "t1": ("real", "kind_phys", (TRC,)), "rt": ("real", "kind_phys", (LEV, HOR)),
         "r3": ("real", "kind_phys", (HOR, LEV, TRC)), "d0": ("dt_mc", "", ())}


DEFAULT = {"real": "7.0_kind_phys", "integer": "7", "logical": ".true.", "character": "'7'"}


class Q:
    """One quantity: kind, accesses {slot: (access, local name, units)}."""

    def __init__(self, kind, acc, std=None, hdim1=False):
        self.kind, self.acc, self.std, self.hdim1 = kind, dict(acc), std, hdim1

    def key(self):
        return "%s%s %s%s" % ("host " if self.std else "", self.kind, " ".join("%s.%s:%s%s%s" % (SLOTS[s] + (a[0],
                            "" if a[1] is None else "/" + a[1], "" if a[2] is None else "/" + a[2]))
                                                for s, a in sorted(self.acc.items())), " 1:" if self.hdim1 else "")

    def legal(self):
        """Some earlier scheme provides the quantity before any scheme needs it."""
        have = self.std is not None
        for s in sorted(self.acc):
            if not have and self.acc[s][0] not in ("out", "def"):
                return False
            have = True
        return True

    def var(self, n, slot):
        a, loc, un = self.acc[slot]
        typ, kind, dims = KINDS[self.kind]
        ph = SLOTS[slot][0]
        d = [("horizontal_loop_extent" if ph == "run" else "horizontal_dimension") if x == HOR else x for x in dims]
        if self.hdim1 and ph != "run":
            d = ["ccpp_constant_one:" + x if x == "horizontal_dimension" else x for x in d]
        units = {"dt_mc": "DDT", "real": un or "K", "integer": "count", "logical": "flag"}.get(typ, "none")
        if a == "def":
            return V(loc or "v%d" % n, self.std or "quantity_%d_mc" % n, typ, kind, units, d, "in", default_value=DEFAULT[typ])
        return V(loc or "v%d" % n, self.std or "quantity_%d_mc" % n, typ, kind, units, d, a)

    def body(self, n, slot):
        a, loc, un = self.acc[slot]
        v = loc or "v%d" % n
        typ, kind, dims = KINDS[self.kind]
        L = []
        sh = "shape(%s)" % v if dims else "0"
        if typ == "real":
            val = "nint(%s%s)" % (v, " + 273.15_kind_phys" if un == "C" else "")
        elif typ == "logical":
            val = "merge(1, 0, %s)" % v
        elif typ == "dt_mc":
            val, sh = "%s%%m, nint(%s%%w)" % (v, v), "2"
        else:
            val = v
        if a != "out":
            L += ["write(6,*) 'GET %d %d %d', %s, %s" % (n, slot, max(len(dims), 1), sh, val)]
        if a not in ("in", "def"):
            L += ["cnt = cnt + 1", "write(6,*) 'PUT %d %d ', cnt" % (n, slot)]
            ix = "(i, j, k)"[:{0: 0, 1: 2, 2: 5, 3: 8}[len(dims)]] + (")" if dims else "")
            e = ["cnt*1000", "i", "10*j", "100*k"][:len(dims) + 1]
            e = " + ".join(e)
            loops = ["do %s = 1, size(%s,%d)" % (x, v, m + 1) for m, x in enumerate("ijk"[:len(dims)])]
            L += loops[::-1]
            if typ == "real":
                L += ["%s%s = real(%s, kind_phys)%s" % (v, ix, e, " - 273.15_kind_phys" if un == "C" else "")]
            elif typ == "integer":
                L += ["%s%s = %s" % (v, ix, e)]
            elif typ == "logical":
                L += ["%s%s = mod(cnt + %s, 2) == 0" % (v, ix, "i" if dims else "0")]
            elif typ == "dt_mc":
                L += ["%s%%m = cnt" % v, "%s%%w = real(cnt + 7, kind_phys)" % v]
            else:
                L += ["write(%s,'(i0)') cnt" % v]
            L += ["end do"] * len(loops)
        return L


def expected(kind, cnt, idx):
    typ = KINDS[kind][0]
    if typ == "logical":
        return str(1 if (cnt + (idx[0] if idx else 0)) % 2 == 0 else 0)
    if typ == "character":
        return str(cnt)
    return str(cnt * 1000 + sum(x * m for x, m in zip(idx, (1, 10, 100))))


def case(qs, debug=False, bare=False):
    hm = HostMod("hm", [V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                        V("nlev", LEV, "integer", "", "count", fattr="parameter"),
                        V("ntrac", TRC, "integer", "", "count", fattr="parameter"),
                        V("hostx", "host_quantity_mc", "real", "kind_phys", "K", ("horizontal_dimension",), fdims="%d" % NC)])
    txt = hm.fortran
    hm.fortran = lambda: txt().replace("parameter :: ncols", "parameter :: ncols = %d" % NC).replace(
        "parameter :: nlev", "parameter :: nlev = %d" % NL).replace("parameter :: ntrac", "parameter :: ntrac = %d" % NT)
    schemes = []
    names = ["sa", "sb", "sc"]
    ddt = any(q.kind == "d0" for q in qs)
    if ddt:
        schemes.append(Scheme("ddtdef", {"init": (err_vars(), [])}, ddts=[("dt_mc", [
            V("m", "member_of_dt_mc", "integer", "", "count"), V("w", "weight_of_dt_mc", "real", "kind_phys", "K")])]))
    for s in names:
        ph = {}
        for sl, (p, n) in enumerate(SLOTS):
            if n != s:
                continue
            use = [(i, q) for i, q in enumerate(qs) if sl in q.acc]
            if not use and not (p == "run"):
                continue
            hdim = "horizontal_loop_extent" if p == "run" else "horizontal_dimension"
            vs = err_vars()
            if not bare:        # otherwise no scheme asks for any of the sizes itself
                vs += [dim_var("mc_nh", hdim), dim_var("mc_nv", LEV), dim_var("mc_nt", TRC)]
            body = []
            for i, q in use:
                vs.append(q.var(i, sl))
                body += q.body(i, sl)
            ph[p] = (vs, body, ["integer :: i, j, k"])
        schemes.append(Scheme(s, ph, uses=["mc_tr, only: cnt"] + (["ddtdef, only: dt_mc"] if ddt else [])))
    x = "<group name='g1'>%s<scheme>sa</scheme><scheme>sb</scheme></group><group name='g2'><scheme>sc</scheme></group>" % (
        "<scheme>ddtdef</scheme>" if ddt else "")
    return Case(mods=[hm], schemes=schemes, suites=[("su", suite_xml("su", x))], debug=debug)


TR = cg.TRACE.replace("integer :: fail_at", "integer :: cnt = 0\n  integer :: fail_at")


def script():
    L = []
    for _ in range(2):
        L += ["register su x 0 0", "init su x 0 0"]
        for _ in range(2):
            L += ["timestep_init su x 0 0"]
            for g in ("g1", "g2"):
                L += ["run su %s %d %d" % ((g,) + c) for c in CH]
            L += ["timestep_final su x 0 0"]
        L += ["final su x 0 0"]
    return L


def judge(qs, txt, cmds):
    """Fold the trace over a store of last written values; returns {quantity: problem} (None: whole build)."""
    bad = {}
    store = {}
    seen = {}
    chunk = (1, NC)
    ncmd = 0
    for line in txt.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == "C":
            ncmd += 1
            chunk = (int(w[4]), int(w[5])) if w[1] == "run" else (1, NC)
            cmd = line
        elif w[0] == "R":
            if w[1] != "0":
                bad.setdefault(None, "%s reports %s" % (cmd, line))
        elif w[0] in ("PUT", "GET"):
            n, slot = int(w[1]), int(w[2])
            q = qs[n]
            typ, _, dims = KINDS[q.kind]
            ext = []
            for d in dims:
                ext.append((chunk[1] - chunk[0] + 1) if d == HOR else NL if d == LEV else NT)
            off = [chunk[0] - 1 if d == HOR else 0 for d in dims]
            st = store.setdefault(n, {})
            seen[(n, slot)] = seen.get((n, slot), 0) + 1
            if typ == "dt_mc":
                if w[0] == "PUT":
                    st[()] = [w[3], str(int(w[3]) + 7)]
                elif w[5:] != st.get(()):
                    bad.setdefault(n, "%s: %s.%s gets %s, last value set is %s" % (cmd, SLOTS[slot][1], SLOTS[slot][0], w[5:], st.get(())))
                continue
            cells = list(itertools.product(*[range(1, e + 1) for e in reversed(ext)]))
            cells = [c[::-1] for c in cells]
            if w[0] == "PUT":
                for c in cells:
                    st[tuple(a + b for a, b in zip(c, off))] = expected(q.kind, int(w[3]), c)
                continue
            nd = int(w[3])
            shp, vals = w[4:4 + nd], w[4 + nd:]
            if dims and [int(z) for z in shp] != ext:
                bad.setdefault(n, "%s: %s.%s gets extents %s instead of %s" % (cmd, SLOTS[slot][1], SLOTS[slot][0], shp, ext))
                continue
            none = "?"
            first = q.acc[min(q.acc)]
            if first[0] == "def":
                none = {"logical": "1"}.get(typ, "7") if first[2] == q.acc[slot][2] else "280" if first[2] else "-266"
            want = [st.get(tuple(a + b for a, b in zip(c, off)), none) for c in cells]
            if len(want) != len(vals) or any(a != b and a != "?" for a, b in zip(want, vals)):
                bad.setdefault(n, "%s: %s.%s gets %s, last values set are %s" % (cmd, SLOTS[slot][1], SLOTS[slot][0],
                                                                                 " ".join(vals), " ".join(want)))
    if ncmd != len(cmds):
        bad.setdefault(None, "stopped after %d of %d calls: %s" % (ncmd, len(cmds), txt[-300:]))
    for n, q in enumerate(qs):
        for slot in q.acc:
            ph = SLOTS[slot][0]
            k = {"init": 2, "final": 2, "run": 4 * len(CH)}.get(ph, 4) * (2 if q.acc[slot][0] == "inout" else 1)
            if seen.get((n, slot), 0) != k and None not in bad:
                bad.setdefault(n, "%s.%s was executed %d times instead of %d" % (SLOTS[slot][1], ph, seen.get((n, slot), 0), k))
    return bad


def accept(q):
    d = mc.newdir("c05")
    try:
        c = case([q])
        c.write(d)
        st, txt = c.generate()
        return st, txt[-600:], os.path.exists(os.path.join(d, "out")) and sorted(
            f for f in os.listdir(os.path.join(d, "out")) if f.endswith(".F90"))
    finally:
        mc.rmdir(d)


def build(job):
    qs, debug, bare = job
    d = mc.newdir("c05")
    try:
        c = case(qs, debug, bare)
        c.write(d)
        with open(os.path.join(d, "mc_tr.F90"), "w") as f:
            f.write(TR)
        st, txt = c.generate()
        if st != "ok":
            return {None: "generation: %s %s" % (st, txt[-700:])}
        ok, txt = c.compile(driver(c.host))
        if not ok:
            return {None: "does not compile: " + txt[:900]}
        cmds = script()
        rc, txt = c.execute("\n".join(cmds) + "\nquit\n")
        bad = judge(qs, txt, cmds + ["quit"])
        if rc != 0:
            bad[None] = "run fails: rc %d %s" % (rc, txt[-500:])
        return bad
    finally:
        mc.rmdir(d)


def pack(qs, n):
    """Quantities that cannot disturb each other's names go into the same build."""
    return [qs[i:i + n] for i in range(0, len(qs), n)]


def space(quick):
    acc = []
    N = len(SLOTS)
    for k in (1, 2, 3):
        for sl in itertools.combinations(range(N), k):
            for a in itertools.product(("in", "inout", "out") if k < 3 or not quick else ("in", "out"), repeat=k):
                acc.append(dict(zip(sl, a)))
    if not quick:
        for sl in itertools.combinations(range(N), 4):
            for a in itertools.product(("in", "inout", "out"), repeat=4):
                if a[0] == "out" or sl[0] == 0:
                    acc.append(dict(zip(sl, a)))
    one = [Q("r2", {s: (a, None, None) for s, a in p.items()}) for p in acc]
    legal2 = [p for p in acc if len(p) == 2 and Q("r2", {s: (a, 0, 0) for s, a in p.items()}).legal()]
    for kd in KINDS:
        if kd != "r2":
            one += [Q(kd, {s: (a, None, None) for s, a in p.items()}) for p in legal2 if not quick or p[max(p)] != "out"]
    # quantities with a default value which nothing produces
    for k in (1, 2, 3):
        for sl in itertools.combinations(range(N), k):
            for rest in itertools.product(("in", "def"), repeat=k - 1):
                for kd in ("r1", "i0", "r2", "l0", "r0")[:5 if k == 1 or not quick else 2 if k == 2 else 1]:
                    one.append(Q(kd, dict(zip(sl, [("def", None, None)] + [(a, None, None) for a in rest]))))
    # units of each access, when they differ
    for p in legal2:
        if not quick or p[max(p)] != "out":
            for kd in ("r1", "r0"):
                for u in itertools.product((None, "C"), repeat=2):
                    if any(u):
                        one.append(Q(kd, {s: (p[s], None, un) for s, un in zip(sorted(p), u)}))
    for p in legal2:
        if p[max(p)] != "out":
            one.append(Q("r1", {s: (a, None, None) for s, a in p.items()}, hdim1=True))
    return one


def name_space(quick):
    """Builds of two or three quantities whose local names collide with one another or with names in the caps."""
    B = []
    flow = [{3: "out", 4: "in"}, {3: "out", 5: "in"}, {0: "out", 3: "in"}, {4: "out", 5: "inout"}, {0: "out", 1: "in"},
            {2: "out", 5: "in"}]

    def q(p, names, kind="r1"):
        return Q(kind, {s: (a, n, None) for (s, a), n in zip(sorted(p.items()), names)})
    for f, g in itertools.product(flow if not quick else flow[:3], repeat=2):
        # within one scheme phase the names must differ
        for na, nb in itertools.product((("x", "x"), ("x", "y")), itertools.product(("x", "y"), repeat=2)):
            ok = all(not (s1 == s2 and n1 == n2) for (s1, n1) in zip(sorted(f), na) for (s2, n2) in zip(sorted(g), nb))
            if ok:
                B.append([q(f, na), q(g, nb)])
                if not quick or (na[0] == na[1] and nb[0] == nb[1] and f is not g):
                    B.append([q(f, na, "r0"), q(g, [n.upper() for n in nb], "r0")])
                    B.append([q(f, na, "r1"), q(g, nb, "r2")])
                    B.append([q(f, na, "r0"), q(g, nb, "r1")])
    # a host quantity under every kind of name, next to a quantity of the suite under the host's names
    hflow = [{3: "in"}, {3: "inout", 5: "in"}, {4: "in", 5: "inout"}, {0: "inout"}, {3: "out", 6: "in"}]
    for h, f in itertools.product(hflow[:3] if quick else hflow, flow[:2] if quick else flow):
        for nh, nf in (("hostx", "x"), ("x", "hostx"), ("ncols", "hostx"), ("col_start", "ncols"), ("x", "x"), ("x", "X"), ("hm", "hostx"),
                       ("v0", "v1"), ("nlev", "x_local")):
            if nh.lower() != nf.lower() or not set(h) & set(f):
                B.append([Q("r1", {s: (a, nh, None) for s, a in h.items()}, std="host_quantity_mc"), q(f, [nf, nf])])
                if nh == "x":
                    B.append([Q("r1", {s: (a, nh, "C") for s, a in h.items()}, std="host_quantity_mc"), q(f, [nf, nf])])
    special = ["ncols", "hostx", "col_start", "col_end", "ccpp_suite_state", "su_g1", "su_g2", "sa", "hm",
               "ccpp_suite_part", "suite_name", "suite_part", "ccpp_kinds", "quantity_0_mc", "ccpp_su_cap", "su_initialize",
               "allocated", "nlev", "ntrac", "hst_ccpp_cap", "ubound", "const_obj", "v" * 63, "x1", "ccpp_su_suite_state"]
    for n in special:
        for f in flow if not quick else flow[1:3]:
            for kd in ("r1", "r0") if not quick else ("r0", "r1")[f is flow[1]:][:1]:
                B.append([q(f, [n, n], kd)])
    for f in flow if not quick else flow[::2]:
        for n in ("w" * 63, "w" * 62, "x"):
            B.append([q(f, [n, n]), q(flow[0], ["z" if 3 in f else n, "z"]), q({4: "out", 5: "in"}, ["p", n if 5 not in f else "p"])])
    # three schemes, three quantities, one local name
    B.append([Q("r1", {3: ("out", "x", None), 5: ("in", "a", None)}), Q("r1", {4: ("out", "x", None), 5: ("in", "b", None)}),
              Q("r1", {0: ("out", "x", None), 5: ("inout", "x", None)}), Q("r1", {1: ("out", "x", None), 5: ("in", "x1", None)})])
    return B


def main():
    ck = mc.Check("C05", "exploration")
    qk = ck.quick
    cg.preload()
    qs = space(qk)
    names = name_space(qk)
    illegal = [q for q in qs if not q.legal()]
    good = [q for q in qs if q.legal()]
    for q, (st, txt, files) in zip(illegal, mc.pmap(accept, illegal)):
        ck.outcome("accepted" if st == "ok" else "refused")
        if st == "ok":
            ck.violation("accepted " + q.key(), "no earlier scheme provides the quantity, yet code is generated")
        elif st != "CCPPError":
            ck.violation("error " + q.key(), "refused with an internal failure: %s %s" % (st, txt))
        elif "quantity_0_mc" not in txt:
            ck.violation("message " + q.key(), "the refusal does not name the quantity: %s" % txt)
        elif files:
            ck.violation("files " + q.key(), "refused, but %s written" % files)
    # separate kinds so that a build failure concerns few
    packs = pack(good, 40) + names
    nb = 0
    jobs = [(p, False, False) for p in packs] + [(p, True, False) for p in (packs if not qk else packs[:-len(names)] + names[::4])]
    flows = [{s: "out", t: "in"} for s in range(len(SLOTS)) for t in range(s + 1, len(SLOTS))]
    if qk:
        flows = [f for f in flows if max(f) == min(min(f) + 2, len(SLOTS) - 1)]
    bare = [[Q(kd, {s: (a, None, None) for s, a in f.items()})] for kd in (("r2", "t1", "r1") if qk else ("r2", "t1", "r1", "rt", "r3", "i1", "l1"))
            for f in flows]
    jobs += [(p, False, True) for p in bare] + [(p, True, True) for p in bare if not qk]
    for (p, dbg, br), bad in zip(jobs, mc.pmap(build, jobs)):
        nb += 1
        if None in bad and len(p) > 1 and p not in names:
            rest = mc.pmap(build, [([q], dbg, False) for q in p])
            shown = False
            for q, b in zip(p, rest):
                for w in b.values():
                    shown = True
                    ck.violation("%sflow " % ("debug " if dbg else "") + q.key(), w)
            if not shown:
                ck.violation("%sflow " % ("debug " if dbg else "") + " | ".join(q.key() for q in p), bad[None])
            continue
        for n, w in bad.items():
            ck.violation("%s%sflow " % ("bare " if br else "", "debug " if dbg else "") + (p[n].key() if n is not None and p not in names else " | ".join(q.key() for q in p)), w)
    ck.sample(good[0].key() if good else "none accepted")
    ck.finish(evaluations=len(qs) + nb, distinct_nontrivial=len(good) + len(names) + len(bare), builds_without_sizes=len(bare), flows_refused=len(illegal), flows_executed=len(good),
              naming_builds=len(names), exhaustive=True,
              rule="every pattern of at most %d accesses at 8 places; types, dimensions, units, local names as listed" % (3 if qk else 4))


main()
