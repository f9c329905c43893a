"""C27: prebuild refuses inconsistent metadata (and accepts consistent metadata).

All pairs of a host and a scheme declaration over a catalogue of types, kinds, units, ranks and intents; the same mismatches in
every stage, under scheme names which contain stage words, behind other schemes which declare the quantity correctly or
differently, in suite-level tags; missing error arguments; ambiguous and missing host definitions.  Each case is one real
prebuild run whose verdict is compared with a reference."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V, Scheme, HostMod, err_vars

PROVIDED = [("mm", "m"), ("K", "C"), ("Pa", "hPa"), ("kg kg-1", "g kg-1"), ("s", "h"), ("m s-1", "km h-1")]
CONV = set(PROVIDED) | {(b, a) for a, b in PROVIDED}
H, VL, NS = "horizontal_dimension", "vertical_layer_dimension", "number_of_slots"
TYPES = [("real", "kind_phys"), ("real", "kind_other"), ("real", ""), ("integer", ""), ("logical", ""), ("character", "len=8"), ("character", "len=16"), ("character", "len=*"), ("t1", ""), ("t2", ""), ("integer", "kind_other"), ("integer", "kind_phys"), ("logical", "kind_other")]
RANKS = [(), ("h",), ("h", VL), (VL,), (NS, VL), ("h", VL, NS)]
UNITS = ["K", "C", "m", "mm", "Pa", "1", "kg kg-1", "g kg-1", "none", "count", "m s-1"]


class D:
    """a declaration of the quantity"""

    def __init__(self, typ=("real", "kind_phys"), rank=("h",), units="K", intent="in", opt=False, active=None):
        self.typ, self.rank, self.units, self.intent, self.opt, self.active = typ, rank, units, intent, opt, active

    def __repr__(self):
        return "%s(%s) rank %d %s %s%s" % (self.typ[0], self.typ[1], len(self.rank), self.units, self.intent, " optional" if self.opt else "")

    def var(self, name, std, stage=None):
        hd = H if stage != "run" else "horizontal_loop_extent"
        kw = {"active": self.active} if self.active and stage is None else {}
        return V(name, std, self.typ[0], self.typ[1], self.units if self.typ[0] not in ("t1", "t2") else "DDT", [hd if x == "h" else x for x in self.rank], self.intent if stage else None, self.opt and bool(stage), **kw)


def consistent(h, s):
    if h is None:
        return False
    if h.typ[0] != s.typ[0] or len(h.rank) != len(s.rank):
        return False
    if h.typ[0] == "character":
        if h.typ[1] != s.typ[1] and s.typ[1] != "len=*":
            return False
    elif (h.typ[1] or "kind_phys") != (s.typ[1] or "kind_phys"):      # kind_phys is the default kind of the metadata
        return False
    return h.units == s.units or h.typ[0] in ("t1", "t2") or (h.units, s.units) in CONV


class Case:
    """host: [D] definitions of the quantity; uses: [(scheme name, stage, D or None, error arguments)]; shape: how the suite lists them"""

    def __init__(self, label, host, uses, expect=None, unused=(), tag=None, errs="both", cdata=True, extra_suite="", layout="chunk", td=True, edit=None):
        self.label, self.host, self.uses, self.unused, self.tag, self.errs, self.cdata = label, host, uses, unused, tag, errs, cdata
        self.extra_suite, self.layout, self.td, self.edit = extra_suite, layout, td, edit
        if expect is None:
            expect = len(host) == 1 and all(consistent(host[0], d) for n, st, d in uses if d is not None)
        self.expect = expect

    def run(self):
        d = mc.newdir("c27")
        try:
            vs = ([pb.CDATA] if self.cdata else []) + [V("ncols", H, "integer", "", "count"), V("nlev", VL, "integer", "", "count"), V("nslot", NS, "integer", "", "count"), V("flag", "flag_for_it", "logical", "", "flag"),
                  V("nchunk", "ccpp_chunk_extent", "integer", "", "count"), V("cb", "horizontal_loop_begin_all_chunks", "integer", "", "index", ["ccpp_chunk_extent"]), V("cb(ccpp_chunk_number)", "horizontal_loop_begin", "integer", "", "index"),
                  V("ce", "horizontal_loop_end_all_chunks", "integer", "", "index", ["ccpp_chunk_extent"]), V("ce(ccpp_chunk_number)", "horizontal_loop_end", "integer", "", "index")]
            vs += [h.var("q%d" % k, "mc_quantity") for k, h in enumerate(self.host[:1])]
            ddts, td = [], {"hm": ""}
            for t in ("t1", "t2"):
                ddts.append((t, [V("m_" + t, "member_of_" + t, "real", "kind_phys", "K")]))
                vs.append(V(t, t, t, "", "DDT"))
                vs.append(V("i_" + t, "instance_of_" + t, t, "", "DDT"))
                if self.td:
                    td[t] = "i_" + t
            mods = [HostMod("hm", vs, ddts=ddts)]
            tds = {"hm": td}
            for k, h in enumerate(self.host[1:]):
                mods.append(HostMod("hn%d" % k, [h.var("qq", "mc_quantity")]))
            by = {}
            for n, st, q in list(self.uses) + list(self.unused):
                by.setdefault(n, {}).setdefault(st, [])
                if q is not None:
                    by[n][st].append(q)
            schemes = []
            for n, sts in by.items():
                ph = {}
                for st, qs in sts.items():
                    ev = err_vars()
                    if self.errs != "both":
                        ev = {"none": [], "msg": ev[:1], "flg": ev[1:], "real": [ev[0], ev[1].copy(typ="real", kind="kind_phys")], "short": [ev[0].copy(kind="len=256"), ev[1]], "star": [ev[0].copy(kind="len=*"), ev[1]],
                              "array": [ev[0], ev[1].copy(dims=["horizontal_loop_extent" if st == "run" else H])], "units": [ev[0], ev[1].copy(units="m")]}[self.errs]
                    ph[st] = ([q.var("x%d" % k, "mc_quantity", st) for k, q in enumerate(qs)] + ev, [])
                schemes.append(Scheme(n, ph))
            names = []
            for n, st, q in self.uses:
                if n not in names:
                    names.append(n)
            if self.tag:
                x = '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="su" version="1">\n'
                tagged, rest = names[0], names[1:] or ["plain"]
                if "plain" in rest:
                    schemes.append(Scheme("plain", {"run": (err_vars(), [])}))
                g = '<group name="g"><subcycle loop="1">%s</subcycle></group>\n' % "".join("<scheme>%s</scheme>" % r for r in rest)
                x += ("<init>%s</init>\n" % tagged + g if self.tag == "init" else g + "<finalize>%s</finalize>\n" % tagged) + "</suite>\n"
            else:
                x = pb.sdf("su", [("g", [(1, names + ([self.extra_suite] if self.extra_suite else []))])])
            c = pb.PCase(mods=mods, schemes=schemes, suites=[("su", x)], typedefs=tds)
            c.write(d)
            if self.edit:
                self.edit(d)
            st, txt = c.generate()
            return st, txt[-700:] if st != "ok" else ""
        finally:
            mc.rmdir(d)


def rep(fn, a, b):
    def f(d):
        p = os.path.join(d, fn)
        t = open(p).read()
        assert a in t, (fn, a)
        with open(p, "w") as o:
            o.write(t.replace(a, b))
    return f


def rm(fn):
    return lambda d: os.remove(os.path.join(d, fn))


def space(deep):
    st0 = "run"
    for h, s in itertools.product(TYPES, repeat=2):
        if h[1] == "len=*":
            continue
        for rank in ((), ("h",)) if deep or h[0] != "t1" else ((),):
            u = {"real": "K", "integer": "count", "logical": "flag", "character": "none"}.get(h[0], "DDT")
            yield Case("types host %s(%s) scheme %s(%s) rank %d" % (h + s + (len(rank),)), [D(h, rank, u)], [("sa", st0, D(s, rank, u, "inout"))])
    for h, s in itertools.product(RANKS, repeat=2):
        for t in TYPES[:1] + TYPES[3:6] if deep else TYPES[:1] + TYPES[5:6]:
            u = {"real": "K", "integer": "count", "logical": "flag", "character": "none"}[t[0]]
            if t[0] != "real" and len(h) == len(s) and h != s:
                continue
            if len(h) == len(s) and h != s:
                continue        # the same rank with other dimensions: not prescribed
            yield Case("ranks host (%s) scheme (%s) %s" % (",".join(h), ",".join(s), t[0]), [D(t, h, u)], [("sa", st0, D(t, s, u, "inout"))])
    # a type or length which is accepted only if the rank is that of the host's variable
    for h, s in itertools.product(TYPES, repeat=2):
        if h[1] == "len=*" or not (deep or h[0] == s[0] == "character" or h == s):
            continue
        u = {"real": "K", "integer": "count", "logical": "flag", "character": "none"}.get(h[0], "DDT")
        for ra, rb in itertools.permutations(RANKS[:3] if deep else RANKS[:2], 2):
            yield Case("ranks host (%s) %s(%s) scheme (%s) %s(%s)" % ((",".join(ra),) + h + (",".join(rb),) + s), [D(h, ra, u)], [("sa", st0, D(s, rb, u, "in"))])
    for h, s in itertools.product(UNITS, repeat=2):
        for intent in ("in", "out", "inout"):
            if not deep and intent != "inout" and h > s and (h, s) not in CONV:
                continue
            yield Case("units host %s scheme %s %s" % (h, s, intent), [D(units=h)], [("sa", st0, D(units=s, intent=intent))])
    good = D(intent="inout")
    bads = {"missing": None, "type": D(("integer", ""), intent="inout"), "kind": D(("real", "kind_other"), intent="inout"), "rank": D(rank=("h", VL), intent="inout"),
            "units": D(units="m", intent="inout"), "good": good, "convert": D(units="C", intent="inout")}
    names = ["sa", "init", "run_it", "my_init", "a_init_b", "final", "finalize_x", "timestep", "tsinit", "x_timestep_init", "sa_run", "b_tsfinal"]
    for st, n, (lab, b) in itertools.product(pb.STAGES, names, bads.items()):
        host = [D()] if b is not None else []
        yield Case("stage %s scheme %s: %s" % (st, n, lab), host, [(n, st, b or good)])
    # one scheme, several stages: only one of them is inconsistent
    for a, b in itertools.permutations(pb.STAGES, 2):
        for lab, x in bads.items():
            if x is not None:
                yield Case("stages %s good, %s: %s" % (a, b, lab), [D()], [("sa", a, good), ("sa", b, x)])
    # several schemes, in every order
    for k in (2, 3) if deep else (2,):
        for combo in itertools.product([x for x in bads if bads[x] is not None], repeat=k):
            for st in ("init", "run", "finalize") if deep else ("run", "finalize"):
                yield Case("schemes %s in %s" % (" ".join(combo), st), [D()], [("s%s" % "abc"[i], st, bads[x]) for i, x in enumerate(combo)])
    ch = [("character", "len=8"), ("character", "len=16"), ("character", "len=*")]
    for k in (1, 2, 3):
        for h in ch[:2]:
            for combo in itertools.product(ch, repeat=k):
                yield Case("lengths host %s schemes %s" % (h[1], " ".join(x[1] for x in combo)), [D(h, (), "none")], [("s%s" % "abc"[i], "run", D(x, (), "none", "inout")) for i, x in enumerate(combo)])
    # a scheme which the suite does not use
    for lab, x in bads.items():
        if x is not None:
            for other in ("good", "type", "units"):
                yield Case("unused scheme %s, used %s" % (lab, other), [D()], [("sa", "run", bads[other])], unused=[("sz", "run", x)], expect=None if other != "good" or lab in ("good", "convert") else "free")
    # suite-level tags
    for tag, st in (("init", "init"), ("finalize", "finalize")):
        for lab, x in bads.items():
            yield Case("tag %s: %s" % (tag, lab), [D()] if x is not None else [], [("sa", st, x or good)], tag=tag)
            if x is not None:
                yield Case("tag %s good, group %s: %s" % (tag, st, lab), [D()], [("sa", st, good), ("sb", st, x)], tag=tag)
    # error arguments
    for errs in ("both", "none", "msg", "flg", "real", "short", "star", "array", "units"):
        for st in pb.STAGES:
            for q in (None, good):
                ok = errs in ("both", "star")
                if errs == "none" and q is None:
                    ok = "free"         # entry points without any argument are not called
                yield Case("error arguments %s in %s%s" % (errs, st, "" if q is None else " with a quantity"), [D()], [("sa", st, q)], errs=errs, expect=ok)
                if st != "run":
                    yield Case("error arguments %s in run and %s%s" % (errs, st, "" if q is None else " with a quantity"), [D()], [("sa", "run", q), ("sa", st, q)], errs=errs, expect=ok)
    # the host's side
    for a, b in itertools.product(["good", "type", "units"], repeat=2):
        yield Case("two definitions %s %s" % (a, b), [bads[a], bads[b]], [("sa", "run", good)], expect=False)
    yield Case("two definitions, not requested", [good, good], [("sa", "run", None)], expect=False)
    for q in (None, good):
        yield Case("host without ccpp_t %s" % q, [D()], [("sa", "run", q)], cdata=False, expect=False)
        yield Case("types without a reference %s" % q, [D()], [("sa", "run", q)], td=False, expect=False)
    for opt, act, st in itertools.product((False, True), (None, "(flag_for_it)", "(flag_for_it .and. number_of_slots > 3)", "(no_such_flag)", "(no_such_flag .or. flag_for_it)"), pb.STAGES):
        yield Case("active %s, optional %s, %s" % (act, opt, st), [D(active=act)], [("sa", st, D(opt=opt, intent="inout"))], expect="no_such" not in (act or "") if opt or act is None or "no_such" in act else "free")
    for n in ("nosuch", "sA", "hm", "sa_run", "s", "run"):
        yield Case("suite names %s" % n, [D()], [("sa", "run", good)], extra_suite=n, expect=False)
    for what, a, b in (("unknown index", "[ cb(ccpp_chunk_number) ]", "[ cb(unknown_chunk_number) ]"), ("unknown kind index", "[ cb(ccpp_chunk_number) ]", "[ cb(ccpp_chunk_number,ncols) ]"),
                       ("duplicate", "[ nlev ]", "[ ncols ]")):
        yield Case("host table: " + what, [D()], [("sa", "run", good)], edit=rep("hm.meta", a, b), expect=False)
    for std in ("ccpp_error_code", "ccpp_error_message"):
        yield Case("host table: incompatible " + std, [D()], [("sa", "run", good)], edit=rep("hm.meta", "standard_name = mc_quantity", "standard_name = " + std), expect=False)
        yield Case("scheme table: incompatible " + std, [D()], [("sa", "run", good)], edit=rep("sa.meta", "standard_name = mc_quantity", "standard_name = " + std), expect=False)
    # files
    yield Case("file: scheme metadata missing", [D()], [("sa", "run", good)], edit=rm("sa.meta"), expect=False)
    yield Case("file: scheme source missing", [D()], [("sa", "run", good)], edit=rm("sa.F90"), expect=False)
    yield Case("file: host metadata missing", [D()], [("sa", "run", good)], edit=rm("hm.meta"), expect=False)
    yield Case("file: host source missing", [D()], [("sa", "run", good)], edit=rm("hm.F90"), expect=False)
    yield Case("file: suite missing", [D()], [("sa", "run", good)], edit=rm("su.xml"), expect=False)
    yield Case("file: configuration missing", [D()], [("sa", "run", good)], edit=rm("mcconfig.py"), expect=False)
    for what, a, b in (("standard name of no one", "standard_name = mc_quantity", "standard_name = mc_quantitz"), ("no standard name", "  standard_name = mc_quantity\n", ""), ("no units", "  units = K\n", ""),
                       ("no type", "  type = real\n", ""), ("no intent", "  intent = inout\n", ""), ("bad intent", "intent = inout", "intent = sometimes"), ("no dimensions", "  dimensions = (horizontal_loop_extent)\n", ""),
                       ("unbalanced dimensions", "(horizontal_loop_extent)", "(horizontal_loop_extent"), ("unknown attribute", "  intent = inout\n", "  intent = inout\n  colour = red\n"), ("unknown table", "name = sa_run", "name = sb_run")):
        yield Case("scheme table: " + what, [D()], [("sa", "run", good)], edit=rep("sa.meta", a, b), expect=False)
    for what, a, b in (("no standard name", "  standard_name = mc_quantity\n", ""), ("no units", "  units = K\n", ""), ("no type", "  type = logical\n", ""), ("unknown dimension", "(horizontal_dimension)", "(nowhere_defined_dimension)"),
                       ("unknown attribute", "  type = logical\n", "  type = logical\n  colour = red\n"), ("another table", "name = hm", "name = hx")):
        yield Case("host table: " + what, [D()], [("sa", "run", good)], edit=rep("hm.meta", a, b), expect=False)


CASES = []


def go(ks):
    return [CASES[k].run() for k in ks]


def main():
    ck = mc.Check("C27", "model_checking")
    pb.preload()
    CASES.extend(space(not ck.quick))      # inherited by the forked workers
    cases = CASES
    jobs = list(mc.chunks(list(range(len(cases))), 8))
    n = 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        job = [cases[k] for k in job]
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % job[0].label, "prebuild could not be run: %s" % res)
            continue
        for c, (st, txt) in zip(job, res):
            n += 1
            ck.outcome("%s: %s" % ({True: "consistent", False: "inconsistent"}.get(c.expect, "free"), st))
            if st not in ("ok", "error", "exit", "crash:FileNotFoundError"):
                ck.violation(c.label, "prebuild crashes (%s): %s" % (st, txt[-400:]))
            elif c.expect is True and st != "ok":
                ck.violation(c.label, "a consistent configuration is refused: %s" % txt[-400:])
            elif c.expect is False and st == "ok":
                ck.violation(c.label, "an inconsistent configuration is accepted")
    ck.sample(cases[len(cases) // 2].label)
    ck.finish(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
