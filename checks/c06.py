"""C06: configurations whose schemes and host disagree about a quantity are refused, consistent ones are accepted.

All pairs of a host declaration and a scheme declaration of one quantity over catalogues of types, kinds, units, ranks and
dimensions, intents, protection, placements in the host and phases; all pairs of producer and consumer declarations of a
quantity held by the suite; a second scheme with a consistent or inconsistent declaration before or after; a missing
quantity or a missing size of one. Each is generated with the real generator and the decision compared with a reference
predicate; refused configurations must name the quantity and leave no generated code."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, suite_xml, err_vars

H, L, VL, VI, NT = ("horizontal_dimension", "horizontal_loop_extent", "vertical_layer_dimension", "vertical_interface_dimension", "number_of_mc_things")
Q = "quantity_of_test"
PHRUN = "run"


class D:
    """One declaration of the quantity"""

    def __init__(self, typ="real", kind="kind_phys", units="m", dims=(), intent="inout", opt=False, prot=False, top=None):
        self.typ, self.kind, self.units, self.dims = typ, kind, units, tuple(dims)
        self.intent, self.opt, self.prot, self.top = intent, opt, prot, top

    def but(self, **kw):
        d = D(self.typ, self.kind, self.units, self.dims, self.intent, self.opt, self.prot, self.top)
        for k, v in kw.items():
            setattr(d, k, v)
        return d

    def key(self):
        s = "%s/%s/%s/(%s)" % (self.typ, self.kind, self.units, ",".join({H: "H", VL: "VL", VI: "VI", NT: "NT"}.get(x, x) for x in self.dims))
        return s + "/" + self.intent + ("/opt" if self.opt else "") + ("/prot" if self.prot else "") + ("/top%s" % self.top if self.top is not None else "")


GROUPS = [{"m", "cm", "km", "mm"}, {"K", "C"}, {"Pa", "hPa"}, {"s", "min", "h"}, {"kg kg-1", "g kg-1"}]
REALK = {"kind_phys", "kind_r4", "kind_r8"}


def units_ok(a, b, typ):
    if a == b or (a.lower() == b.lower() == "none"):
        return True
    for g in GROUPS:
        if a in g and b in g:
            return True if typ == "real" else None
    return False


def decide(h, s):
    """-> True consistent, False inconsistent, None not prescribed: host (or producer) h, scheme argument s"""
    if h.typ.lower() != s.typ.lower():
        return False
    res = True
    loop = [x for x in h.dims if x not in (VL, VI)] == list(s.dims) and len(h.dims) == len(s.dims) + 1 and H in h.dims
    if loop:
        res = None          # the framework may call the scheme for each level of the vertical dimension
    elif len(h.dims) != len(s.dims):
        return False
    elif h.dims != s.dims:
        if sorted(h.dims) != sorted(s.dims):
            return False
        res = None
    if h.prot and s.intent != "in":
        return False
    u = units_ok(h.units, s.units, h.typ)
    if u is False:
        return False
    if u is None:
        res = None
    if h.typ == "character":
        if h.kind != s.kind and "len=*" not in (h.kind, s.kind):
            return False
        if h.kind != s.kind and s.kind != "len=*":
            res = None
    elif h.kind != s.kind:
        if h.typ == "real" and h.kind in REALK and s.kind in REALK:
            pass
        elif h.typ in ("ty_a", "ty_b"):
            return False
        else:
            res = None      # other kinds: whether a conversion is defined is not stated
    if (h.top is not None or s.top is not None) and VL not in h.dims and VI not in h.dims:
        res = None
    return res


# ------------------------------------------------------------------ configurations
def var(d, local, phase=None, host=False):
    dims = [L if (x == H and phase == PHRUN) else x for x in d.dims]
    kw = {}
    if d.top is not None:
        kw["top_at_one"] = str(d.top)
    if host and d.prot:
        kw["protected"] = "True"
    if d.typ.startswith("ty_"):
        return V(local, Q, d.typ, "", d.units, dims, None if host else d.intent, d.opt, **kw)
    return V(local, Q, d.typ, d.kind, d.units, dims, None if host else d.intent, d.opt, fattr="allocatable" if host and dims else "", **kw)


# ---- configurations which are not one quantity between a host and schemes
TQ = "tendency_of_" + Q


def raw_conf(c):
    dv = [V("ncols", H, "integer", "", "count"), V("pver", VL, "integer", "", "count"), V("pverp", VI, "integer", "", "count"), V("nthings", NT, "integer", "", "count")]
    mods, hargs, schemes = [HostMod("hm", dv)], None, []
    if c["raw"] == "twice":
        args = [(V("schx", Q, units="m", dims=[L, VL], intent="inout"), PHRUN)]
        two = []
        for n, (w, d) in enumerate(c["defs"]):
            v = var(d, "hostq%d" % n, host=True)
            if w == "mod":
                dv.append(v)
            elif w == "mod2":
                mods.append(HostMod("hm2", [v]))
            elif w == "arg":
                hargs = cg.HOST_ARGS + [v.copy(fattr="")]
            elif w == "ddt":
                mods[0].ddts.append(("hd%d_t" % n, [v]))
                dv.append(V("hd%d" % n, "host_structure_%d" % n, "hd%d_t" % n, "", "none", ()))
            elif w == "same":
                mods[0].ddts[-1][1].append(v)
        if "types" in c:        # the type names of two further structures
            for n, (w, tn, f) in enumerate(c["types"]):
                m = mods[0]
                if w == "mod2":
                    mods.append(HostMod("hm2", []))
                    m = mods[-1]
                m.ddts.append((tn, [V(f, "field_%d_of_type" % n, "integer", "", "count", ())]))
        if not c["used"]:
            args = [(V("schx", VL, "integer", "", "count", (), "in"), PHRUN)]
    else:
        args = []
        for nm, d in (("st", c["st"]), ("td", c["td"])):
            if d is not None:
                v = V("schx" + nm, Q if nm == "st" else TQ, d.typ, d.kind, d.units, [L if x == H else x for x in d.dims], d.intent, constituent="True")
                args.append((v, PHRUN))
        if c["order"]:
            args.reverse()
    body = []
    for i, (v, ph) in enumerate(args):
        schemes.append(Scheme("s%d" % i, {ph: ([v] + err_vars(), [])}))
        body.append('<scheme>s%d</scheme>' % i)
    lay = c.get("layout", "one")
    if lay == "suites" and len(body) > 1:
        suites = [("su%d" % i, suite_xml("su%d" % i, '<group name="g">%s</group>' % b)) for i, b in enumerate(body)]
    elif lay == "groups":
        suites = [("su", suite_xml("su", "".join('<group name="g%d">%s</group>' % (i, b) for i, b in enumerate(body))))]
    else:
        suites = [("su", suite_xml("su", '<group name="g">%s</group>' % "".join(body)))]
    case = Case(mods=mods, schemes=schemes, suites=suites, host_args=hargs, kinds=("kind_phys=REAL64", "kind_r4=REAL32", "kind_r8=REAL64"))
    case.hosttypes = []
    return case


def raw_expected(c):
    if "types" in c:
        (_, t1, _), (_, t2, _) = c["types"]
        return False if t1 == t2 else None if t1.lower() == t2.lower() else True
    if c["raw"] == "twice":
        return len(c["defs"]) == 1
    s, t = c["st"], c["td"]
    if t is None:
        return True
    if s is None or s.dims != t.dims:
        return False
    if t.units == s.units + " s-1" and s.units not in ("1", "none") and "s-1" not in s.units:
        return True if s.kind == t.kind else None
    if s.units in ("1", "none") and t.units == "s-1":
        return True if s.kind == t.kind else None
    if "s-1" in s.units:
        return None         # the spelling of such a unit is not stated
    return False


def raw_key(c):
    if "types" in c:
        return "host types %s" % " ".join(".".join(t) for t in c["types"])
    if c["raw"] == "twice":
        return "host definitions %s%s" % (" ".join("%s:%s" % (w, d.key()) for w, d in c["defs"]), "" if c["used"] else " unused")
    return "tendency %s of %s order %d %s" % tuple([x.key() if x else "nothing" for x in (c["td"], c["st"])] + [c["order"], c["layout"]])


def raw_space(quick):
    good = D(dims=(H, VL))
    places = ["mod", "mod2", "arg", "ddt"]
    for u in (True, False):
        for p in places:
            yield dict(raw="twice", defs=[(p, good)], used=u)
        for p, q in itertools.combinations_with_replacement(places, 2):
            if p == q and p in ("mod2", "arg"):
                continue
            for other in [good] + [good.but(units="cm")] * (not quick):
                yield dict(raw="twice", defs=[(p, good), (q, other)], used=u)
        yield dict(raw="twice", defs=[("ddt", good), ("same", good)], used=u)
    for w in ("mod", "mod2"):
        for tn in ("ta_t", "tb_t", "TA_T"):
            for f in ("fa", "fb"):
                yield dict(raw="twice", defs=[("mod", good)], used=True, types=[("mod", "ta_t", "fa"), (w, tn, f)])
    kg = D(units="kg kg-1", dims=(H, VL))
    SU = ["kg kg-1", "mol mol-1", "1", "m-3"] + ["m s-1", "K"] * (not quick)
    for su in SU:
        for tu in ["s-1" if su == "1" else su + " s-1", su, "s-1", "kg kg-1 s-1", "g kg-1 s-1", "kg kg-1 h-1", "kg kg-1 s-2", "kg kg-1 s-1 m", "m-3 s-1"]:
            for o, lay in ((0, "one"), (1, "one"), (0, "groups"), (1, "suites")):
                if quick and su != "kg kg-1" and (o, lay) != (0, "one"):
                    continue
                yield dict(raw="tend", st=kg.but(units=su), td=kg.but(units=tu), order=o, layout=lay)
    for lay in ("one", "groups", "suites"):
        for i in ("in", "inout", "out"):
            yield dict(raw="tend", st=kg, td=kg.but(units="kg kg-1 s-1", intent=i), order=0, layout=lay)
            yield dict(raw="tend", st=None, td=kg.but(units="kg kg-1 s-1", intent=i), order=0, layout=lay)
            yield dict(raw="tend", st=kg.but(intent=i), td=None, order=0, layout=lay)
        for dd in ((H,), (H, VI), (VL,)):
            yield dict(raw="tend", st=kg, td=kg.but(units="kg kg-1 s-1", dims=dd), order=0, layout=lay)
        yield dict(raw="tend", st=kg, td=kg.but(units="kg kg-1 s-1", kind="kind_r4"), order=0, layout=lay)


def conf(c):
    """c: dict(host D or None, where, args [(D, phase)], groups bool, nodims set) -> Case"""
    if "raw" in c:
        return raw_conf(c)
    dv = [V("ncols", H, "integer", "", "count"), V("pver", VL, "integer", "", "count"), V("pverp", VI, "integer", "", "count"), V("nthings", NT, "integer", "", "count")]
    dv = [v for v in dv if v.std not in c.get("nosize", ())]
    uses = ["ccpp_kinds"]
    vs, ddts = list(dv), []
    h = c["host"]
    types = {x.typ for x in [h] + [a for a, _ in c["args"]] if x is not None and x.typ.startswith("ty_")}
    schemes = []
    if types:
        schemes.append(Scheme("tys", {}, ddts=[(t, [V("comp_" + t, "component_of_" + t, "real", "kind_phys", "1", ())]) for t in sorted(types)]))
    if h is not None:
        if c["where"] == "mod":
            vs.append(var(h, "hostq", host=True))
        elif c["where"] == "ddt":
            ddts.append(("hd_t", [var(h, "hostq", host=True)]))
            vs.append(V("hd", "host_structure", "hd_t", "", "none", ()))
        elif c["where"] == "part":      # an element of a larger array
            hv = var(h, "hostq", host=True)
            hv.local = "hostq(%s,2)" % ",".join([":"] * len(h.dims)) if h.dims else "hostq(2)"
            vs.append(hv)
    if c["where"] == "arg" and h is not None:
        hargs = cg.HOST_ARGS + [var(h, "hostq", host=True).copy(fattr="")]
    else:
        hargs = None
    mod = HostMod("hm", vs, ddts, uses=["tys, only: " + ",".join(sorted(types))] if types else [])
    body = []
    for i, (a, ph) in enumerate(c["args"]):
        v = var(a, "schx", ph)
        schemes.append(Scheme("s%d" % i, {ph: ([v] + err_vars(), [])}, uses=["tys, only: " + a.typ] if a.typ.startswith("ty_") else []))
        body.append("<scheme>s%d</scheme>" % i)
    if c.get("split") and len(body) > 1:
        g = "".join('<group name="g%d">%s</group>' % (i, b) for i, b in enumerate(body))
    else:
        g = '<group name="g">%s</group>' % "".join(body)
    case = Case(mods=[mod], schemes=schemes, suites=[("su", suite_xml("su", g))], host_args=hargs, kinds=("kind_phys=REAL64", "kind_r4=REAL32", "kind_r8=REAL64"))
    case.hosttypes = ["tys.meta"] if types else []
    return case


def expected(c):
    if "raw" in c:
        return raw_expected(c)
    h = c["host"]
    res = True
    for i, (a, ph) in enumerate(c["args"]):
        if h is not None:
            r = decide(h, a)
        elif i == 0:
            if a.intent != "out":
                r = None if a.opt else False
            else:
                r = None if a.opt else True
        else:
            p = c["args"][0][0]
            r = decide(p, a)
            if c["args"][0][1] != ph:
                # the suite keeps it over the phases
                pass
            if a.opt or p.opt:
                r = None if r else r
        if r is False:
            return False
        if r is None:
            res = None
        for x in a.dims:
            if x in c.get("nosize", ()):
                return False
    return res


def key(c):
    if "raw" in c:
        return raw_key(c)
    return "%s %s %s%s%s" % ("none" if c["host"] is None else c["where"], "-" if c["host"] is None else c["host"].key(), " ".join("%s:%s" % (p, a.key()) for a, p in c["args"]),
                             " split" if c.get("split") else "", " nosize" if c.get("nosize") else "")


def space(quick):
    TK = [("real", "kind_phys"), ("real", "kind_r4"), ("integer", ""), ("logical", ""), ("character", "len=10"), ("character", "len=1"), ("character", "len=100"), ("character", "len=20"), ("character", "len=*"),
          ("ty_a", "ty_a"), ("ty_b", "ty_b"), ("complex", "kind_phys")]
    INT = ("in", "inout", "out")
    DIMS = [(), (H,), (H, VL), (H, VI), (VL,), (NT,), (H, NT), (NT, H), (H, VL, NT), (H, VI, NT), (5,), (6,)]
    DIMS = [tuple(str(x) for x in d) for d in DIMS]
    UN = ["m", "cm", "K", "C", "Pa", "hPa", "s", "h", "kg kg-1", "g kg-1", "1", "none", "count", "flag", "m s-1", "m2 s-2"]
    if quick:
        DIMS = [d for d in DIMS if d not in (("6",), (NT, H), (H, VI, NT))]
        UN = ["m", "cm", "K", "C", "Pa", "hPa", "h", "kg kg-1", "1", "none", "m s-1"]
    hosts_tk = [tk for tk in TK if tk != ("character", "len=*")]
    # types and kinds
    for (ht, hk), (st, sk) in itertools.product(hosts_tk, TK):
        for d, i, w, ph in itertools.product(((), (H,), (H, VL)), INT, ("mod", "ddt"), ("run", "init")):
            if quick and (d, i, w, ph) not in (((), "in", "mod", "run"), ((H,), "inout", "ddt", "run"), ((H, VL), "out", "mod", "init")) or (ht.startswith("ty_") and w == "ddt"):
                continue
            u = "none" if ht.startswith("ty_") or st.startswith("ty_") else "m"
            yield dict(host=D(ht, hk, u, d), where=w, args=[(D(st, sk, u, d, i), ph)])
    # dimensions
    for a, b in itertools.product(DIMS, repeat=2):
        for i, w, ph in itertools.product(INT, ("mod", "ddt", "part"), ("run", "init")):
            if quick and (i, w, ph) not in (("in", "mod", "run"), ("out", "mod", "init"), ("inout", "part", "run"), ("inout", "ddt", "run")):
                continue
            yield dict(host=D(dims=a), where=w, args=[(D(dims=b, intent=i), ph)])
        for ph in ("run", "init"):
            for kw in (dict(units="cm"), dict(kind="kind_r4"), dict(opt=True), dict(top=True)):
                if quick and (ph == "init" or not ("opt" in kw or "units" in kw)):
                    continue
                yield dict(host=D(dims=a), where="mod", args=[(D(dims=b, **kw), ph)])
    # units
    for a, b in itertools.product(UN, repeat=2):
        for t, d, i in itertools.product((("real", "kind_phys"), ("integer", "")), ((), (H, VL)), INT):
            if quick and ((t[0] == "integer") == bool(d) or i != ("in" if d else "out")):
                continue
            yield dict(host=D(t[0], t[1], a, d), where="mod", args=[(D(t[0], t[1], b, d, i), "run")])
        yield dict(host=D(units=a), where="ddt", args=[(D(units=b), "init")])
        yield dict(host=D(units=a, dims=(H,)), where="mod", args=[(D(units=b, dims=(H,), opt=True), "run")])
        yield dict(host=None, where="", args=[(D(units=a, dims=(H,), intent="out"), "run"), (D(units=b, dims=(H,), intent="in"), "run")])
    # protection
    for pr, i, w, ph, d, o in itertools.product((False, True), INT, ("mod", "ddt", "arg", "part"), ("run", "init", "timestep_init", "timestep_final", "final"),
                                                ((), (H,), (H, VL)), (False, True)):
        if w == "arg" and (d or ph != "run"):
            continue
        for kw in ({}, {"units": "cm"}):
            if quick and (kw and (o or d) or ph.startswith("time") or d and o):
                continue
            yield dict(host=D(dims=d, prot=pr), where=w, args=[(D(dims=d, intent=i, opt=o, **kw), ph)])
    # two schemes: each must agree
    ref = D(dims=(H, VL))
    alts = [ref, ref.but(typ="integer", kind=""), ref.but(units="K"), ref.but(dims=(H,)), ref.but(dims=(H, VI)), ref.but(units="cm"), ref.but(kind="kind_r4"),
            ref.but(dims=()), ref.but(dims=(H, VL, NT)), ref.but(units="none")]
    if quick:
        alts = alts[:5] + alts[5:6]
    for a, b in itertools.product(alts, repeat=2):
        for i, j in itertools.product(INT, repeat=2):
            for sp in (False, True):
                for ph in (("run", "run"), ("init", "run"), ("run", "final")):
                    if quick and (ph != ("run", "run") and (i, j) != ("out", "in") or sp and i != "out" or (i, j) not in (("out", "in"), ("inout", "in"), ("in", "out"))):
                        continue
                    yield dict(host=ref, where="mod", args=[(a.but(intent=i), ph[0]), (b.but(intent=j), ph[1])], split=sp)
                    if i == "out" and ph != ("run", "final"):
                        # no host quantity: held by the suite
                        yield dict(host=None, where="", args=[(a.but(intent=i), ph[0]), (b.but(intent=j), ph[1])], split=sp)
    for (at, ak), (bt, bk) in itertools.product(hosts_tk, TK):
        u = "none" if at.startswith("ty_") or bt.startswith("ty_") else "m"
        for ph in ("run", "init"):
            for d in ((), (H,)):
                for j in INT[:2]:
                    if quick and (ph == "init") != bool(d) or quick and (j == "in") != bool(d):
                        continue
                    yield dict(host=None, where="", args=[(D(at, ak, u, d, "out"), ph), (D(bt, bk, u, d, j), ph)])
    for a, b in itertools.product(DIMS, repeat=2):
        for ph in (("run", "run"), ("init", "init"), ("init", "run")):
            if quick and ph[0] != "init":
                continue
            yield dict(host=None, where="", args=[(D(dims=a, intent="out"), ph[0]), (D(dims=b, intent="in"), ph[1])])
    # missing quantities and missing sizes
    for i, ph, d, o, (t, k) in itertools.product(INT, ("run", "init", "timestep_init", "timestep_final", "final"), ((), (H,), (H, VL)), (False, True),
                                                 (("real", "kind_phys"), ("integer", ""), ("character", "len=10"))):
        if quick and (d == (H,)) == (t != "real"):
            continue
        yield dict(host=None, where="", args=[(D(t, k, "m", d, i, o), ph)])
    for d in DIMS:
        for n in (VL, VI, NT):
            if n in d:
                for i, kw, ph in itertools.product(INT, ({}, {"units": "cm"}, {"kind": "kind_r4"}), ("run", "init")):
                    yield dict(host=D(dims=d), where="mod", args=[(D(dims=d, intent=i, **kw), ph)], nosize=(n,))


def run(cases):
    d = mc.newdir("c06")
    res = []
    for n, c in enumerate(cases):
        case = conf(c)
        w = os.path.join(d, "w%d" % n)
        case.write(w)
        case.hostfiles = case.hosttypes + case.hostfiles
        st, msg = case.generate()
        out = os.path.join(w, "out")
        left = sorted(f for _, _, fs in os.walk(out) for f in fs) if os.path.isdir(out) else []
        want = expected(c)
        bad = None
        short = msg.strip()[-600:]
        if st not in ("ok", "CCPPError", "exit"):
            bad = "generation ends with %s: %s" % (st, short)
        elif want is True and st != "ok":
            bad = "consistent configuration refused: " + short
        elif want is False and st == "ok":
            bad = "inconsistent configuration accepted"
        elif st != "ok":
            names = [Q, TQ, "schx", "hostq"] + list(c.get("nosize", ())) + [t[1] for t in c.get("types", ())]
            if not any(re.search(r"\b%s" % x, msg) for x in names):
                bad = "the error does not name the quantity: " + short
            elif any(f.endswith(".F90") or f.endswith(".xml") for f in left):
                bad = "refused, but generated code is left: %s" % left
        res.append((want, st, key(c), bad, {f: open(os.path.join(w, f)).read() for f in sorted(os.listdir(w)) if f.endswith((".meta", ".xml"))} if bad else None))
        mc.rmdir(w)
    mc.rmdir(d)
    return res


def main():
    ck = mc.Check("C06", "model_checking")
    seen, C = set(), []
    for c in itertools.chain(raw_space(ck.quick), space(ck.quick)):
        k = key(c)
        if k not in seen:
            seen.add(k)
            C.append(c)
    n = nw = 0
    cg.preload()
    for res in mc.pmap(run, mc.chunks(C, 60)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery", "the generator could not be run: %s" % res, None)
            continue
        for want, st, k, bad, rep in res:
            n += 1
            nw += want is not None
            ck.outcome("%s %s" % ({True: "consistent", False: "inconsistent", None: "free"}[want], "accepted" if st == "ok" else "refused"))
            if bad:
                ck.violation(k, bad, rep)
            elif want is False:
                ck.sample(k)
    ck.finish(states=n, transitions=n, traces_validated_against_impl=n, prescribed=nw, exhaustive=True)


if __name__ == "__main__":
    main()
