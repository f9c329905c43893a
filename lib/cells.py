"""Cells: one host quantity, one or more schemes that use it; model of what every scheme must see and
of what the host must hold afterwards.  Cells are batched: many cells share one host and one suite."""
import itertools
import os

import cg
import mc
from cg import V, Scheme, HostMod, Case, suite_xml, driver, err_vars

NCOL, NLEV, NTHING = 4, 3, 2
SIZES = {"horizontal_dimension": NCOL, "vertical_layer_dimension": NLEV,
         "vertical_interface_dimension": NLEV + 1, "number_of_mc_things": NTHING}
HDIM = "horizontal_dimension"
HLE = "horizontal_loop_extent"
VL = "vertical_layer_dimension"
VI = "vertical_interface_dimension"
NT = "number_of_mc_things"

# to SI-like base: (scale, offset) value_base = v*scale + offset
UNITS = {"m": (1, 0), "cm": (0.01, 0), "km": (1000.0, 0), "mm": (0.001, 0), "K": (1, 0),
         "C": (1, 273.15), "Pa": (1, 0), "hPa": (100.0, 0), "1": (1, 0), "s": (1, 0),
         "min": (60.0, 0), "h": (3600.0, 0), "none": (1, 0), "flag": (1, 0), "count": (1, 0),
         "m s-1": (1, 0), "km h-1": (1 / 3.6, 0), "kg kg-1": (1, 0), "g kg-1": (0.001, 0)}


def conv(v, frm, to):
    a, b = UNITS[frm]
    c, d = UNITS[to]
    if frm == to:
        return v
    return (v * a + b - d) / c


class Arr:
    """Column-major array."""

    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), list(flat)

    def idx(self, ix):
        o, s = 0, 1
        for i, n in zip(ix, self.shape):
            o += i * s
            s *= n
        return o

    def indices(self):
        for ix in itertools.product(*[range(n) for n in reversed(self.shape)]):
            yield tuple(reversed(ix))

    def take(self, sel):
        """sel: per dimension list of 0-based indices, or an int (dimension dropped)."""
        shape = [len(s) for s in sel if not isinstance(s, int)]
        out = []
        for ix in itertools.product(*[(s if not isinstance(s, int) else [s]) for s in reversed(sel)]):
            out.append(self.flat[self.idx(tuple(reversed(ix)))])
        return Arr(shape, out)

    def put(self, sel, sub):
        k = 0
        for ix in itertools.product(*[(s if not isinstance(s, int) else [s]) for s in reversed(sel)]):
            self.flat[self.idx(tuple(reversed(ix)))] = sub.flat[k]
            k += 1


INDEX = {"1": 1, "2": 2, "index_of_mc_thing": 2, "index_of_mc_other": 1, "index_of_mc_last": 2}      # the last one is never the only index


def slots(hq):
    """The subscripts of the array of which the quantity is a section: its dimensions in order and the fixed indices."""
    d, a, b, z = list(hq.dims), "index_of_mc_thing", "index_of_mc_other", "index_of_mc_last"
    return {"secn": d + [a], "secf": [a] + d, "sec2": d + [b, z], "secm": [b] + d + [z], "seci": d[:1] + [a] + d[1:] + ["2"],
            "secl": ["2"] + d + [b]}.get(hq.where) or d + [hq.where[4:]]


class HQ:
    """Host quantity.  where: 'mod' | 'ddt' (member of instance phys) | 'nest' (member of member) |
    'sec:<k>' (last dimension fixed to k of a bigger array) | 'secn' (index by standard name) |
    'arg' not supported here."""

    def __init__(self, typ="real", kind="kind_phys", units="m", dims=(HDIM,), top=None, active=None,
                 where="mod", props=()):
        self.typ, self.kind, self.units, self.dims = typ, kind, units, tuple(dims)
        if typ in ("integer", "logical") and kind == "kind_phys":
            self.kind = ""
        if typ == "character" and kind == "kind_phys":
            self.kind = "len=8"
        self.top, self.active, self.where, self.props = top, active, where, tuple(props)

    def key(self):
        return (self.typ, self.kind, self.units, self.dims, self.top, self.active, self.where,
                self.props)


class SA:
    """Scheme argument declaration (dims derived from the host's, per phase)."""

    def __init__(self, units=None, kind=None, top=None, intent="inout", opt=False, local="x",
                 phase="run", dims=None, typ=None, hdim1=False, passflag=True, bare=False):
        self.units, self.kind, self.top, self.intent, self.opt = units, kind, top, intent, opt
        self.local, self.phase, self.dims, self.typ = local, phase, dims, typ
        self.hdim1, self.passflag = hdim1, passflag
        self.bare = bare              # the scheme does not ask for the sizes of the dimensions

    def key(self):
        return (self.units, self.kind, self.top, self.intent, self.opt, self.local, self.phase,
                self.dims, self.typ, self.hdim1, self.passflag) + (("bare",) if self.bare else ())


class Cell:
    def __init__(self, hq, args, samegroup=True, loop=None):
        self.hq, self.args, self.samegroup, self.loop = hq, list(args), samegroup, loop

    def key(self):
        return (self.hq.key() if self.hq else None, tuple(a.key() for a in self.args), self.samegroup)

    def __repr__(self):
        return repr(self.key())


def scheme_dims(hq, a):
    if a.dims is not None:
        return list(a.dims)
    out = []
    for d in hq.dims:
        if d == HDIM and a.phase == "run":
            out.append(("ccpp_constant_one:" if a.hdim1 else "") + HLE)
        else:
            out.append(d)
    return out


FMT = {"real": "es25.16e3", "integer": "i0", "logical": "l1", "character": "a"}


def body(name, var, typ, kind, rank, intent, opt):
    x = var
    kn = "_%s" % kind if typ == "real" and kind and kind not in ("8", "4") else (
        "_%s" % kind if kind in ("8", "4") else "")
    L = []
    sh = "shape(%s)" % x if rank else ""
    val = x

    def outp(tag):
        n = "size(%s)" % x if rank else "1"
        f = "'(2a,*(1x,i0))'" if rank else "'(2a)'"
        o = ["write(6,%s) 'S ', '%s'%s" % (f, name, ", " + sh if rank else "")]
        o.append("write(6,'(2a,*(1x,%s))') '%s ', '%s', %s" % (
            FMT[typ], tag, name, val if typ != "character" else val))
        return o
    upd = []
    if intent == "inout":
        if typ == "real":
            upd = ["%s = %s*2.0%s + 1.0%s" % (x, x, kn, kn)]
        elif typ == "integer":
            upd = ["%s = %s*2 + 1" % (x, x)]
        elif typ == "logical":
            upd = ["%s = .not. %s" % (x, x)]
        else:
            upd = ["%s = 'z' // %s" % (x, x)]
    elif intent == "out":
        if typ == "real":
            upd = ["%s = reshape([(real(mc_i%s),mc_i=1,size(%s))], shape(%s))" % (
                x, ", " + kind if kind else "", x, x)] if rank else ["%s = 7.0%s" % (x, kn)]
        elif typ == "integer":
            upd = ["%s = reshape([(mc_i,mc_i=1,size(%s))], shape(%s))" % (x, x, x)] if rank else [
                "%s = 7" % x]
        elif typ == "logical":
            upd = ["%s = .true." % x]
        else:
            upd = ["%s = 'OUT'" % x]
    if intent == "out":
        act = ["write(6,'(2a%s)') 'S ', '%s'%s" % (",*(1x,i0)" if rank else "", name,
                                                  ", " + sh if rank else "")] + upd
    else:
        act = outp("A") + upd
    if opt:
        L.append("if (present(%s)) then" % x)
        L += ["  " + s for s in act]
        L += ["else", "  write(6,'(2a)') 'N ', '%s'" % name, "end if"]
    else:
        L += act
    return L


class Batch:
    def __init__(self, cells, debug=False, host="hst", fflags=None):
        self.fflags = fflags
        self.cells, self.debug, self.host = cells, debug, host

    def make(self):
        dims = [V("ncols", HDIM, "integer", "", "count", protected="True"),
                V("pver", VL, "integer", "", "count", protected="True"),
                V("pverp", VI, "integer", "", "count", protected="True"),
                V("nthing", NT, "integer", "", "count", protected="True")]
        flags = [V("host_flag", "flag_for_mc_condition", "logical", "", "flag"),
                 V("host_mode", "mode_for_mc_condition", "integer", "", "1")]
        modv = dims + flags
        ddtv, nestv = [], []
        schemes, groups, init, dump = [], [], [], []
        self.harr = {}
        secs = []
        for i, c in enumerate(self.cells):
            hq = c.hq
            std = "mc_quantity_%d" % i
            if hq is not None:
                fd = ",".join({HDIM: "ncols", VL: "pver", VI: "pverp", NT: "nthing"}[d] for d in hq.dims)
                attr = "allocatable" if hq.dims else ""
                props = {k: x for k, x in hq.props if not k.startswith("_")}
                unalloc = any(k == "_unalloc" for k, _ in hq.props)
                if hq.active:
                    props["active"] = hq.active
                if hq.top is not None:
                    props["top_at_one"] = str(hq.top)
                ln = "h%d" % i
                v = V(ln, std, hq.typ, hq.kind, hq.units, hq.dims, fattr=attr, **props)
                if not v.kind and hq.kind:
                    v.kind = hq.kind
                ref, bigdims = ln, list(hq.dims)
                if hq.where == "mod":
                    modv.append(v)
                elif hq.where == "ddt":
                    ddtv.append(v)
                    ref = "phys%" + ln
                elif hq.where == "nest":
                    nestv.append(v)
                    ref = "phys%inner%" + ln
                elif hq.where.startswith("sec"):
                    sl = slots(hq)
                    v.local = "%s(%s)" % (ln, ",".join(":" if x in hq.dims else x for x in sl))
                    modv.append(v)
                    bigdims = [x if x in hq.dims else NT for x in sl]
                    secs.append("%s, allocatable :: %s(%s)" % (v.ftype(), ln, ",".join(":" * len(bigdims))))
                fd = ",".join({HDIM: "ncols", VL: "pver", VI: "pverp", NT: "nthing"}[d] for d in bigdims)
                if bigdims:
                    init.append("allocate(%s(%s))" % (ref, fd) if not (hq.active and unalloc) else
                                "if (host_flag) allocate(%s(%s))" % (ref, fd))
                g = "if (allocated(%s)) " % ref if bigdims else ""
                kk = ", %s" % hq.kind if hq.kind else ""
                val = {"real": "real(%d + mc_i%s)" % (1000 * (i + 1), kk),
                       "integer": "%d + mc_i" % (1000 * (i + 1)),
                       "logical": "mod(mc_i,2)==0", "character": "char(96+mc_i)"}[hq.typ]
                if hq.typ == "character":
                    val = "'v'//char(96+mc_i)//repeat(' ',6)"
                if bigdims:
                    init.append("%s%s = reshape([(%s,mc_i=1,size(%s))], shape(%s))" % (g, ref, val, ref, ref))
                else:
                    init.append("mc_i = 1")
                    init.append("%s = %s" % (ref, val))
                dump.append("%swrite(6,'(a,*(1x,%s))') 'H %d', %s" % (g, FMT[hq.typ], i, ref))
                n = 1
                for d in bigdims:
                    n *= SIZES[d]
                if hq.typ == "real":
                    fl = [float(1000 * (i + 1) + k) for k in range(1, n + 1)]
                elif hq.typ == "integer":
                    fl = [1000 * (i + 1) + k for k in range(1, n + 1)]
                elif hq.typ == "logical":
                    fl = [k % 2 == 0 for k in range(1, n + 1)]
                else:
                    fl = ["v" + chr(96 + k) for k in range(1, n + 1)]
                self.harr[i] = Arr([SIZES[d] for d in bigdims], fl)
            gi = 0
            cur = []
            for j, a in enumerate(c.args):
                nm = "c%ds%d" % (i, j)
                typ = a.typ or (hq.typ if hq else "real")
                kind = a.kind if a.kind is not None else (hq.kind if hq else "kind_phys")
                units = a.units or (hq.units if hq else "m")
                sd = scheme_dims(hq, a) if hq else list(a.dims or ())
                props = {}
                if a.top is not None:
                    props["top_at_one"] = str(a.top)
                v = V(a.local, std, typ, kind, units, sd, intent=a.intent, opt=a.opt, **props)
                v.kind = kind
                vs = []
                if a.bare:
                    pass
                elif a.phase == "run":
                    vs.append(V("ncol", HLE, "integer", "", "count", intent="in"))
                else:
                    vs.append(V("ncol", HDIM, "integer", "", "count", intent="in"))
                for d, ln in ((VL, "nz"), (VI, "nzi"), (NT, "nth")):
                    if any(d in x for x in sd) and not a.bare:
                        vs.append(V(ln, d, "integer", "", "count", intent="in"))
                vs.append(v)
                if hq is not None and hq.active and a.opt and a.passflag:
                    vs.append(V("flg", "flag_for_mc_condition", "logical", "", "flag", intent="in"))
                uses = ["mc_tr", "ccpp_kinds, only: kind_r4"]
                schemes.append(Scheme(nm, {a.phase: (vs + err_vars(), body(
                    nm, a.local, typ, kind if typ == "real" else "", len(sd), a.intent, a.opt),
                    ["integer :: mc_i"])}, uses=uses))
                cur.append("<scheme>%s</scheme>" % nm)
                if not c.samegroup:
                    groups.append(("g%dx%d" % (i, j), cur))
                    cur = []
            if cur:
                if c.loop:
                    cur = ['<subcycle loop="%d">' % c.loop] + cur + ["</subcycle>"]
                groups.append(("g%d" % i, cur))
        modv.append(V("idx_thing", "index_of_mc_thing", "integer", "", "index", protected="True"))
        modv.append(V("idx_other", "index_of_mc_other", "integer", "", "index", protected="True"))
        modv.append(V("idx_last", "index_of_mc_last", "integer", "", "index", protected="True"))
        ddts = []
        if nestv:
            ddts.append(("inner_t", nestv))
            ddtv.append(V("inner", "mc_inner_state", "inner_t", "", "DDT"))
        if ddtv:
            ddts.append(("phys_t", ddtv))
            modv.append(V("phys", "mc_physics_state", "phys_t", "", "DDT"))
        mod = HostMod("hmod", modv, ddts=ddts, extra=secs)
        self.case = Case(host=self.host, mods=[mod], schemes=schemes,
                         suites=[("su", suite_xml("su", "\n".join(
                             '<group name="%s">%s</group>' % (g, "".join(x)) for g, x in groups)))],
                         kinds=("kind_phys=REAL64", "kind_r4=REAL32"), debug=self.debug)
        self.drv = driver(self.host, uses="  use hmod", decls="  integer :: mc_i",
                          init="  ncols=%d; pver=%d; pverp=%d; nthing=%d; idx_thing=2; idx_other=1; idx_last=2\n"
                               "  host_flag=.true.; host_mode=3" % (NCOL, NLEV, NLEV + 1, NTHING),
                          ops="    case('reset')\n      read(line,*) op, host_flag, host_mode\n      call setup()\n"
                              "    case('dump')\n      call dumpall()\n")
        free = []
        for i, c in enumerate(self.cells):
            pass
        # free/allocate/dump subroutines
        dealloc = []
        for s in init:
            if "allocate(" in s:
                ref = s.split("allocate(", 1)[1].split("(")[0]
                dealloc.append("if (allocated(%s)) deallocate(%s)" % (ref, ref))
        sub = "\ncontains\n  subroutine setup()\n" + "\n".join("    " + s for s in dealloc + init) + \
            "\n  end subroutine setup\n  subroutine dumpall()\n" + "\n".join("    " + s for s in dump) + \
            "\n  end subroutine dumpall\nend program drv\n"
        self.drv = self.drv.replace("end program drv\n", sub)
        self.init_flat = {i: list(a.flat) for i, a in self.harr.items()}

    def build(self):
        self.make()
        d = mc.newdir("cell")
        self.case.write(d)
        st, txt = self.case.generate()
        if st != "ok":
            return "refused" if st == "CCPPError" else "generator " + st, txt
        ok, txt = self.case.compile(self.drv, **({"flags": self.fflags} if self.fflags else {}))
        return ("ok", "") if ok else ("compile", txt)

    def close(self):
        mc.rmdir(self.case.dir)

    def drop(self):
        self.close()


def build_all(cells, debug=False, fflags=None):
    """Bisecting build: returns (list of built batches, [(cell, status, text)])."""
    good, bad = [], []

    def rec(part):
        b = Batch(part, debug, fflags=fflags)
        st, txt = b.build()
        if st == "ok":
            good.append(b)
            return
        b.close()
        if len(part) == 1:
            bad.append((part[0], st, txt))
            return
        h = (len(part) + 1) // 2
        rec(part[:h])
        rec(part[h:])
    rec(list(cells))
    return good, bad


def upd(v, typ, intent, k):
    if intent == "inout":
        if typ == "real":
            return v * 2 + 1
        if typ == "integer":
            return v * 2 + 1
        if typ == "logical":
            return not v
        return ("z" + v)[:8].rstrip()
    return k


def outval(typ, rank, n):
    if typ == "real":
        return [float(k) for k in range(1, n + 1)] if rank else [7.0]
    if typ == "integer":
        return list(range(1, n + 1)) if rank else [7]
    if typ == "logical":
        return [True] * n
    return ["OUT"] * n


def model_call(b, i, j, cs, ce, flag):
    """Expected trace of scheme j of cell i; updates the host model.  Returns list of records."""
    c = b.cells[i]
    hq, a = c.hq, c.args[j]
    nm = "c%ds%d" % (i, j)
    if hq is None or (hq.active and not active_value(hq.active, flag)):
        if a.opt:
            return [("N", nm, None)]
        return [("?", nm, None)]
    arr = b.harr[i]
    sel = []
    for d in hq.dims:
        n = SIZES[d]
        if d == HDIM and a.phase == "run":
            sel.append(list(range(cs - 1, ce)))
        elif d in (VL, VI) and (hq.top or False) != (a.top or False):
            sel.append(list(range(n - 1, -1, -1)))
        else:
            sel.append(list(range(n)))
    full = list(sel)
    if hq.where.startswith("sec"):
        full, it = [], iter(sel)
        for x in slots(hq):
            full.append(next(it) if x in hq.dims else INDEX[x] - 1)
    sub = arr.take(full)
    units = a.units or hq.units
    typ = a.typ or hq.typ
    rec = [("S", nm, tuple(sub.shape))]
    vals = [conv(v, hq.units, units) if typ == "real" else v for v in sub.flat]
    if a.intent != "out":
        rec.append(("A", nm, vals))
    if a.intent == "in":
        return rec
    if a.intent == "out":
        new = outval(typ, len(hq.dims), len(vals))
    else:
        new = [upd(v, typ, "inout", 0) for v in vals]
    sub2 = Arr(sub.shape, [conv(v, units, hq.units) if typ == "real" else v for v in new])
    arr.put(full, sub2)
    return rec


PYOPS = {".and.": " and ", ".or.": " or ", ".not.": " not ", ".eqv.": "==", ".neqv.": "!=", "/=": "!=",
         ".eq.": "==", ".ne.": "!=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">=",
         ".true.": " True ", ".false.": " False "}


def active_value(expr, flag):
    """The value of a condition (written without operator precedence subtleties)."""
    fl, mode = flag if isinstance(flag, tuple) else (flag, 3)
    e = expr.lower()
    for k, v in PYOPS.items():
        e = e.replace(k, v)
    return eval(e, {"flag_for_mc_condition": fl, "mode_for_mc_condition": mode})  # own alphabet only


def parse_vals(toks, typ):
    if typ == "real":
        return [float(t) for t in toks]
    if typ == "integer":
        return [int(t) for t in toks]
    if typ == "logical":
        return [t == "T" for t in toks]
    return toks


def close(x, y, rtol):
    if isinstance(x, float) or isinstance(y, float):
        return abs(x - y) <= rtol * max(1.0, abs(x), abs(y))
    return x == y


def execute(b, windows=((2, 3), (1, NCOL)), flags=(True,)):
    """Run every cell of a built batch; returns {cell index: what}."""
    viol = {}
    steps = 0
    phases = ["register", "init", "timestep_init", "run", "timestep_final", "final"]
    for flag in flags:
        for (cs, ce) in windows:
            fl, mode = flag if isinstance(flag, tuple) else (flag, 3)
            script = ["reset %s %d" % ("T" if fl else "F", mode)]
            plan = [None]
            for i in b.harr:
                b.harr[i].flat = list(b.init_flat[i])
            for ph in phases:
                gs = [None]
                if ph == "run":
                    gs = []
                    for i, c in enumerate(b.cells):
                        if c.samegroup:
                            gs.append(("g%d" % i, i, list(range(len(c.args))) * (c.loop or 1)))
                        else:
                            gs += [("g%dx%d" % (i, j), i, [j]) for j in range(len(c.args))]
                for g in gs:
                    script.append("%s su %s %d %d" % (ph, g[0] if g else "x", cs, ce))
                    calls = [(g[1], j) for j in g[2]] if g else \
                        [(i, j) for i, c in enumerate(b.cells) for j in range(len(c.args))]
                    plan.append([(i, j) for i, j in calls if b.cells[i].args[j].phase == ph])
                if any(a.phase == ph for c in b.cells for a in c.args):
                    script.append("dump")
                    plan.append("dump")
            rc, txt = b.case.execute("\n".join(script) + "\n", timeout=120)
            out = parse(txt)
            for k, p in enumerate(plan):
                if k >= len(out):
                    # the program died while executing the previous command
                    prev = plan[len(out) - 1]
                    last = None
                    if out:
                        for r in out[-1][1]:
                            if r[0] in "SAN":
                                last = r
                    ids = set(i for i, _ in prev) if isinstance(prev, list) else set()
                    done = last[1] if last else None
                    for i in (ids or {-1}):
                        viol.setdefault(i, "program ended (rc %s) in '%s' (last record %s): %s" % (
                            rc, script[len(out) - 1], done, txt[-300:]))
                    break
                if p is None:
                    continue
                if p == "dump":
                    seen = {r[1]: r[2] for r in out[k][1] if r[0] == "H"}
                    for i, arr in b.harr.items():
                        hq = b.cells[i].hq
                        if hq.active and hq.dims and not fl:
                            continue
                        got = parse_vals(seen.get(str(i), []), hq.typ)
                        r4 = hq.kind == "kind_r4" or any(a.kind == "kind_r4" for a in b.cells[i].args)
                        if len(got) != len(arr.flat) or not all(
                                close(x, y, 3e-5 if r4 else 1e-9) for x, y in zip(got, arr.flat)):
                            viol.setdefault(i, "host data after '%s' (columns %d:%d, flag %s): expected %s, got %s" % (
                                script[k - 1], cs, ce, flag, arr.flat, got))
                            if len(got) == len(arr.flat):
                                arr.flat = got
                    continue
                exp = []
                for (i, j) in p:
                    exp += [(i, r) for r in model_call(b, i, j, cs, ce, flag)]
                steps += len(p)
                recs = [r for r in out[k][1] if r[0] in "SAN?"]
                if out[k][2] != 0:
                    for i in set(i for i, _ in p) or {-1}:
                        viol.setdefault(i, "'%s' returned code %s: %s" % (script[k], out[k][2], out[k][3]))
                for n in range(max(len(exp), len(recs))):
                    if n >= len(exp) or n >= len(recs):
                        ii = exp[n][0] if n < len(exp) else -1
                        viol.setdefault(ii, "'%s': expected %s got %s" % (
                            script[k], exp[n:n + 1], recs[n:n + 1]))
                        break
                    i, (kind, nm, val) = exp[n]
                    r = recs[n]
                    cell = b.cells[i]
                    ok = r[0] == kind and r[1] == nm
                    if ok and kind == "S":
                        ok = tuple(int(t) for t in r[2]) == val
                    if ok and kind == "A":
                        typ = cell.hq.typ
                        got = parse_vals(r[2], typ)
                        r4 = cell.hq.kind == "kind_r4" or any(a.kind == "kind_r4" for a in cell.args)
                        ok = len(got) == len(val) and all(close(x, y, 3e-5 if r4 else 1e-9)
                                                          for x, y in zip(got, val))
                    if not ok:
                        viol.setdefault(i, "'%s' (flag %s): scheme %s: expected %s %s, got %s %s" % (
                            script[k], flag, nm, kind, val, r[0], r[2]))
                        break
    return viol, steps


def parse(txt):
    res = []
    for ln in txt.splitlines():
        if ln.startswith("C "):
            res.append([ln[2:], [], None, None])
            continue
        if not res:
            continue
        if ln[:2] in ("S ", "A ", "N ", "H ", "? "):
            t = ln.split()
            res[-1][1].append((t[0], t[1], t[2:]))
        elif ln.startswith("R "):
            p = ln[2:].split(" ", 1)
            res[-1][2] = int(p[0])
            res[-1][3] = p[1].strip() if len(p) > 1 else ""
    return res


def run_cells(arg):
    """Worker: build and execute a list of cells; returns [(cell, status, what)], steps."""
    cs, debug, flags = arg[:3]
    fflags = arg[3] if len(arg) > 3 else None
    good, bad = build_all(cs, debug, fflags)
    res = [(c, st, txt) for c, st, txt in bad]
    steps = 0
    for b in good:
        v, st = execute(b, flags=flags)
        steps += st
        if len(b.cells) > 1 and v:
            # isolate: a failing cell may disturb its neighbours
            for i, c in enumerate(b.cells):
                b2 = Batch([c], debug, fflags=fflags)
                s2, t2 = b2.build()
                if s2 != "ok":
                    res.append((c, s2, t2))
                else:
                    v2, n2 = execute(b2, flags=flags)
                    if v2:
                        res.append((c, "wrong", list(v2.values())[0]))
                    elif i in v:
                        res.append((c, "wrong", "(only next to other cells) " + v[i]))
                    else:
                        res.append((c, "ok", ""))
                b2.close()
        else:
            for i, c in enumerate(b.cells):
                if i in v or -1 in v:
                    res.append((c, "wrong", v.get(i) or v.get(-1)))
                else:
                    res.append((c, "ok", ""))
        b.close()
    return res, steps
