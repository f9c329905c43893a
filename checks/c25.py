"""C25: prebuild caps give each scheme argument the host quantity it names.

Every quantity of a product (where and how the host keeps it x conditionally active or not x how each of two successive schemes
declares it) is put in real metadata and Fortran; the static caps are generated, compiled and executed through the stages and
every value a scheme receives, and everything the host holds afterwards, is compared with a reference model of the data."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V, Scheme, HostMod, err_vars, dim_var

SIZE = {"h": 5, "v": 2, "s": 3, "z": 3}
DIM = {"v": "vertical_layer_dimension", "s": "number_of_slots", "z": "0:vertical_layer_dimension"}
FD = {"h": "5", "v": "2", "s": "3", "z": "0:2"}
PARTS = [[1, 2, 3], [4, 5]]
# form -> (where, dimensions of the host array, {position: fixed index}, type)
FORMS_C = {"col": ("mod", "h", {}, "real"), "col2": ("mod", "hv", {}, "real"), "vh": ("mod", "vh", {}, "real"), "sec": ("mod", "hs", {1: 2}, "real"),
           "presec": ("mod", "sh", {0: 2}, "real"), "idx": ("mod", "hvs", {2: "i"}, "real"), "mem": ("ddt", "h", {}, "real"), "mem2": ("ddt", "hv", {}, "real"),
           "memsec": ("ddt", "hs", {1: 3}, "real"), "nest": ("nest", "h", {}, "real"), "sca": ("mod", "", {}, "real"), "memsca": ("ddt", "", {}, "real"),
           "elem": ("mod", "s", {0: 2}, "real"), "lev": ("mod", "v", {}, "real"), "low": ("mod", "z", {}, "real"), "hlow": ("mod", "hz", {}, "real"),
           "memelem": ("ddt", "s", {0: "i"}, "real"), "icol": ("mod", "h", {}, "integer"), "chr": ("mod", "", {}, "character"), "flag": ("mod", "", {}, "logical"), "lcol": ("mod", "h", {}, "logical")}
FORMS_B = {"bcol": ("blk", "h", {}, "real"), "bcol2": ("blk", "hv", {}, "real"), "bvh": ("blk", "vh", {}, "real"), "bsec": ("blk", "hs", {1: 2}, "real"), "bidx": ("blk", "hvs", {2: "i"}, "real"),
           "icolb": ("blk", "h", {}, "integer"), "thr": ("thr", "h", {}, "real"), "thr2": ("thr", "hv", {}, "real"), "sca": ("mod", "", {}, "real"), "lev": ("mod", "v", {}, "real"),
           "elem": ("mod", "s", {0: 2}, "real"), "memsca": ("ddt", "", {}, "real"), "dom": ("dom", "h", {}, "real")}
FORMS = {"C": FORMS_C, "B": FORMS_B}
ACTIVE = {"-": None, "on": "(flag_on)", "off": "(flag_off)", "expr": "(flag_on .and. number_of_slots > 2)", "noexpr": "(number_of_slots == 2 .or. .not. flag_on)",
          "never": ".false.", "always": ".true."}
ISON = {"-": True, "on": True, "off": False, "expr": True, "noexpr": False, "never": False, "always": True}


class Q:
    def __init__(self, n, layout, form, active, decls):
        self.n, self.layout, self.form, self.active, self.decls = n, layout, form, active, decls
        self.where, self.dims, self.fixed, self.typ = FORMS[layout][form]
        self.key = "%s %s active %s: %s" % (layout, form, active, ", ".join("%s %s%s" % (u, i, " optional" if o else "") for u, i, o in decls))
        self.on = ISON[active]
        self.free = [k for k in range(len(self.dims)) if k not in self.fixed]
        self.idx = [2 if v == "i" else v for v in self.fixed.values()]

    def stages(self, all_stages):
        if self.where == "thr":
            return [s for s in all_stages if s == "run"]
        if self.where == "dom":
            return [s for s in all_stages if s != "run"]
        return all_stages

    def std(self):
        return "mc_quantity_%d" % self.n

    def hname(self):
        b = "h%d" % self.n
        if self.fixed:
            b += "(%s)" % ",".join(("index_of_slot" if self.fixed[k] == "i" else str(self.fixed[k])) if k in self.fixed else ":" for k in range(len(self.dims)))
        return b

    def host_vars(self):
        hd = "horizontal_loop_extent" if self.where in ("blk", "thr") else "horizontal_dimension"
        dn = {**DIM, "h": hd}
        act = {"active": ACTIVE[self.active]} if ACTIVE[self.active] else {}
        un = {"real": "K", "integer": "count", "character": "none", "logical": "flag"}[self.typ]
        kind = {"real": "kind_phys", "character": "len=8"}.get(self.typ, "")
        alloc = bool(self.dims) and (self.active != "-" or self.where in ("blk", "thr"))
        fa = "allocatable" if alloc else ""
        if self.where in ("mod", "dom"):
            fa = "allocatable, target" if alloc else "target"
        fd = "" if not self.dims else ",".join(":" * len(self.dims)) if alloc else ",".join(FD[x] for x in self.dims)
        self.alloc = alloc
        out = [V("h%d" % self.n, self.std() + ("_parent" if self.fixed else ""), self.typ, kind, un, [dn[x] for x in self.dims], fdims=fd, fattr=fa, **act)]
        if self.fixed:
            out.append(V(self.hname(), self.std(), self.typ, kind, un, [dn[self.dims[k]] for k in self.free], **act))
        return out

    def scheme_var(self, k, stage):
        u, intent, opt = self.decls[k]
        hd = "horizontal_loop_extent" if stage == "run" else "horizontal_dimension"
        dn = {**DIM, "h": hd}
        un = {"real": u, "integer": "count", "character": "none", "logical": "flag"}[self.typ]
        kind = {"real": "kind_phys", "character": "len=*" if False else "len=8"}.get(self.typ, "")
        v = V("xyz"[k] + "%d" % self.n, self.std(), self.typ, kind, un, [dn[self.dims[j]] for j in self.free], intent, opt)
        return v

    # ---- reference data
    def start(self):
        tot = 1
        for x in self.dims:
            tot *= SIZE[x]
        if self.typ == "logical":
            self.data = [(self.n + j) % 3 == 0 for j in range(tot)]
        elif self.typ == "character":
            self.data = ["c%d" % self.n]
        elif self.typ == "integer":
            self.data = [7 * self.n + j for j in range(tot)]
        else:
            self.data = [200. + 3 * (self.n % 50) + j for j in range(tot)]

    def cells(self, hs):
        """flat positions, in array element order, of the quantity's elements whose horizontal index is in hs"""
        r = []
        for k in range(len(self.dims)):
            if k in self.fixed:
                r.append([2 if self.fixed[k] == "i" else self.fixed[k]])
            else:
                r.append(list(hs) if self.dims[k] == "h" else list(range(1, SIZE[self.dims[k]] + 1)))
        return [self.flat(t[::-1]) for t in itertools.product(*r[::-1])]

    def flat(self, t):
        p, m = 0, 1
        for x, i in zip(self.dims, t):
            p += (i - 1) * m
            m *= SIZE[x]
        return p

    def body(self, k, stage):
        u, intent, opt = self.decls[k]
        x = "xyz"[k] + "%d" % self.n
        tag = "'S %d %s %d'" % (k, stage, self.n)
        L = []
        if opt:
            L.append("if (present(%s)) then" % x)
        L.append("write(6,'(*(g0,1x))') %s, 'p', size([%s])%s" % (tag, x, "" if intent == "out" else ", " + x))
        if intent != "in":
            if self.typ == "logical":
                L.append("%s = %s" % (x, ".not. " + x if intent == "inout" else ".true."))
            elif self.typ == "character":
                L.append("%s = %s" % (x, "trim(%s)//'+'" % x if intent == "inout" else "'out%d'" % k))
            elif self.typ == "integer":
                L.append("%s = %s" % (x, "mod(3*%s + 1, 100003)" % x if intent == "inout" else "%d" % (40 + k)))
            elif intent == "inout":
                L.append("%s = 1.5_8*%s + 1" % (x, x))
            elif self.free:
                L.append("%s = reshape([(real(%d + 2*i, kind=8), i = 1, size(%s))], shape(%s))" % (x, 10 + k, x, x))
            else:
                L.append("%s = %d" % (x, 12 + k))
        if opt:
            L += ["else", "write(6,'(*(g0,1x))') %s, 'a'" % tag, "end if"]
        return L

    def call(self, k, hs):
        """the reference: what scheme k sees ('a' or list), and the effect"""
        if not self.on:
            return None, 0
        u, intent, opt = self.decls[k]
        cs = self.cells(hs)
        real = self.typ == "real"
        off = 273.15 if real and u == "C" else 0.
        vals = [self.data[c] - off if real else self.data[c] for c in cs]
        seen = [] if intent == "out" else list(vals)
        if intent != "in":
            for j, c in enumerate(cs):
                if self.typ == "logical":
                    self.data[c] = not vals[j] if intent == "inout" else True
                elif self.typ == "character":
                    self.data[c] = (vals[j] + "+")[:8] if intent == "inout" else "out%d" % k
                elif self.typ == "integer":
                    self.data[c] = (3 * vals[j] + 1) % 100003 if intent == "inout" else 40 + k
                else:
                    new = 1.5 * vals[j] + 1 if intent == "inout" else float(10 + k + 2 * (j + 1))
                    self.data[c] = new + off
        return seen, len(cs)


def ref(q):
    return {"ddt": "dinst%", "nest": "dinst%e%"}.get(q.where, "") + "h%d" % q.n


def host(layout, qs):
    mods = {"mod": [], "ddt": [], "nest": [], "blk": [], "thr": [], "dom": []}
    for q in qs:
        mods[q.where] += q.host_vars()
    vs = [pb.CDATA, V("ncols", "horizontal_dimension", "integer", "", "count"), V("nlev", DIM["v"], "integer", "", "count"), V("nslot", DIM["s"], "integer", "", "count"),
          V("islot", "index_of_slot", "integer", "", "index"), V("fon", "flag_on", "logical", "", "flag"), V("foff", "flag_off", "logical", "", "flag")]
    ddts, td, alias = [], {"hm": ""}, []
    if layout == "C":
        vs += [V("nchunk", "ccpp_chunk_extent", "integer", "", "count"), V("cb", "horizontal_loop_begin_all_chunks", "integer", "", "index", ["ccpp_chunk_extent"], fdims="2"),
               V("cb(ccpp_chunk_number)", "horizontal_loop_begin", "integer", "", "index"), V("ce", "horizontal_loop_end_all_chunks", "integer", "", "index", ["ccpp_chunk_extent"], fdims="2"),
               V("ce(ccpp_chunk_number)", "horizontal_loop_end", "integer", "", "index")]
    else:
        vs += [V("nblk", "ccpp_block_count", "integer", "", "count"), V("bs", "ccpp_block_sizes", "integer", "", "count", ["ccpp_block_count"], fdims="2"),
               V("bs(ccpp_block_number)", "horizontal_loop_extent", "integer", "", "count")]
        for w, tn, inst, ix, ext in (("blk", "phys_t", "phys", "ccpp_block_number", "ccpp_block_count"), ("thr", "inter_t", "inter", "ccpp_thread_number", "ccpp_thread_count")):
            if not mods[w]:
                continue
            ddts.append((tn, mods[w]))
            vs += [V(tn, tn, tn, "", "DDT"), V("%s(%s)" % (inst, ix), "instance_" + tn, tn, "", "DDT"), V(inst, "instance_%s_all" % tn, tn, "", "DDT", [ext], fdims="2", fattr="target")]
            td[tn] = "%s(cdata%%%s)" % (inst, "blk_no" if w == "blk" else "thrd_no")
    if mods["nest"]:
        ddts.append(("et_t", mods["nest"]))
        mods["ddt"].append(V("e", "instance_et", "et_t", "", "DDT"))
        vs.append(V("et_t", "et_t", "et_t", "", "DDT"))
        td["et_t"] = "dinst%e"
    if mods["ddt"]:
        ddts.append(("dt_t", mods["ddt"]))
        vs += [V("dt_t", "dt_t", "dt_t", "", "DDT"), V("dinst", "instance_dt", "dt_t", "", "DDT", fattr="target")]
        td["dt_t"] = "dinst"
    types = {d[0] for d in ddts}
    hm = HostMod("hm", vs + mods["mod"] + mods["dom"], ddts=ddts, uses=["ccpp_types, only: ccpp_t"])
    hm.types = types
    return hm, td


def fortran_host(hm):
    """declarations only: table entries of types and of sections are no declarations"""
    keep = hm.vs
    hm.vs = [v for v in keep if "(" not in v.local and v.local not in hm.types]
    # the argument table comment of the module must stay
    t = hm.fortran()
    hm.vs = keep
    return t


def start_code(q):
    L = []
    on = q.on
    lit = {"logical": lambda v: ".true." if v else ".false.", "character": lambda v: "'%-8s'" % v, "integer": str, "real": lambda v: "%r_8" % v}[q.typ]
    q.start()
    if q.where in ("blk", "thr"):
        for b, hs in enumerate(PARTS):
            nm = "%s(%d)%%h%d" % ("phys" if q.where == "blk" else "inter", b + 1, q.n)
            sz = ",".join(str(len(hs)) if x == "h" else FD[x] for x in q.dims)
            if on:
                L += ["allocate(%s(%s))" % (nm, sz), "%s = reshape([%s], shape(%s))" % (nm, ", ".join(lit(q.data[c]) for c in blk_cells(q, hs)), nm)]
        return L
    nm = ref(q)
    if not q.dims:
        return ["%s = %s" % (nm, lit(q.data[0]))]
    if q.alloc and on:
        L.append("allocate(%s(%s))" % (nm, ",".join(FD[x] for x in q.dims)))
    if on or not q.alloc:
        L.append("%s = reshape([%s], shape(%s))" % (nm, ", ".join(lit(v) for v in q.data), nm))
    return L


def blk_cells(q, hs):
    r = [list(hs) if x == "h" else list(range(1, SIZE[x] + 1)) for x in q.dims]
    return [q.flat(t[::-1]) for t in itertools.product(*r[::-1])]


def show_code(q):
    if q.where in ("blk", "thr"):
        i = "phys" if q.where == "blk" else "inter"
        return ["write(6,'(*(g0,1x))') 'H %d', %s" % (q.n, ", ".join("%s(%d)%%h%d" % (i, b + 1, q.n) for b in range(2)))] if q.on else []
    if q.on or not q.alloc:
        return ["write(6,'(*(g0,1x))') 'H %d', %s" % (q.n, ref(q))]
    return ["if (allocated(%s)) write(6,'(*(g0,1x))') 'H %d allocated'" % (ref(q), q.n)]


def make(layout, qs, stages, loops, bare=False):
    hm, td = host(layout, qs)
    schemes = []
    for k in range(len(qs[0].decls)):
        ph = {}
        for st in stages:
            use = [q for q in qs if st in q.stages(stages)]
            if not use:
                continue
            vs, bd = err_vars() + [q.scheme_var(k, st) for q in use], sum((q.body(k, st) for q in use), [])
            if k and not bare:
                # sizes passed as arguments of their own, in other places of the argument list
                vs = vs[2:] + [dim_var("nl", DIM["v"])] + vs[:2]
                bd.append("write(6,'(*(g0,1x))') 'D %d %s v', nl" % (k, st))
                if layout == "B":
                    vs = [dim_var("nh", "horizontal_loop_extent" if st == "run" else "horizontal_dimension")] + vs
                    bd.append("write(6,'(*(g0,1x))') 'D %d %s h', nh" % (k, st))
            ph[st] = (vs, bd, ["integer :: i"])
        schemes.append(Scheme("s%d" % k, ph))
    c = pb.PCase(mods=[hm], schemes=schemes, suites=[("su", pb.sdf("su", [("g", [(loops, [s.name for s in schemes])])]))], typedefs={"hm": td})
    return c, hm


def driver(layout, qs, stages):
    L = ["program drv", "use hm", "use ccpp_static_api", "implicit none", "integer :: ierr, nn"]
    L += ["ncols = 5; nlev = 2; nslot = 3; islot = 2; fon = .true.; foff = .false.", "cdata%blk_no = 1; cdata%chunk_no = 1; cdata%thrd_no = 1; cdata%thrd_cnt = 2; cdata%ccpp_instance = 1"]
    L += ["nchunk = 2; cb = [1, 4]; ce = [3, 5]"] if layout == "C" else ["nblk = 2; bs = [3, 2]"]
    for q in qs:
        L += start_code(q)
    for st in pb.STAGES:
        if st != "run":
            L += ["cdata%blk_no = 1; cdata%chunk_no = 1; cdata%thrd_no = 1", "call ccpp_physics_%s(cdata, suite_name='su', ierr=ierr)" % st, "write(6,*) 'E %s', ierr, trim(cdata%%errmsg)" % st]
        elif "run" in stages:
            for p in (1, 2):
                L += ["cdata%%blk_no = %d; cdata%%chunk_no = %d; cdata%%thrd_no = %d" % (p, p, p), "write(6,'(a)') 'B %d'" % p, "call ccpp_physics_run(cdata, suite_name='su', ierr=ierr)",
                      "write(6,*) 'E run', ierr, trim(cdata%errmsg)"]
    for q in qs:
        L += show_code(q)
    return "\n".join(L + ["end program drv"]) + "\n"


def parse(w, typ):
    try:
        return w == "T" if typ == "logical" else w if typ == "character" else float(w)
    except ValueError:
        return w


def same(a, b, typ):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(y, bool) or isinstance(y, str) or isinstance(x, str):
            if x != y:
                return False
        elif not abs(x - y) <= 1e-9 * max(1., abs(y)):
            return False
    return True


def judge(qs, stages, loops, txt):
    got, hgot, bad, part = {}, {}, {}, 1
    for line in txt.splitlines():
        w = line.split()
        if not w:
            continue
        if w[0] == "B":
            part = int(w[1])
        elif w[0] == "E" and w[2] != "0":
            bad[None] = "a stage reports an error: " + line
        elif w[0] == "D":
            want = "2" if w[3] == "v" else str(len(PARTS[part - 1]) if w[2] == "run" else 5)
            if w[4] != want:
                bad[None] = "scheme %s receives %s as the %s size in %s, expected %s" % (w[1], w[4], w[3], w[2], want)
        elif w[0] == "S":
            got.setdefault((int(w[1]), w[2], part if w[2] == "run" else 0, int(w[3])), []).append(w[4:])
        elif w[0] == "H":
            hgot[int(w[1])] = w[2:]
    for q in qs:
        for st in pb.STAGES:
            if st not in q.stages(stages):
                continue
            for p in ((1, 2) if st == "run" else (0,)):
                hs = PARTS[p - 1] if p else [1, 2, 3, 4, 5]
                if q.where == "thr":
                    hs = PARTS[p - 1]
                for it in range(loops if st == "run" else 1):
                    for k in range(len(q.decls)):
                        seen, sz = q.call(k, hs)
                        g = got.get((k, st, p, q.n), [])
                        g = g[it] if it < len(g) else None
                        where = "scheme %d in %s%s" % (k + 1, st, " part %d" % p if p else "")
                        if g is None:
                            bad.setdefault(q, "%s is not called: %s" % (where, txt[-300:]))
                        elif seen is None:
                            if g != ["a"]:
                                bad.setdefault(q, "%s receives the inactive quantity: %s" % (where, " ".join(g)[:100]))
                        elif g[0] != "p":
                            bad.setdefault(q, "%s does not receive the quantity" % where)
                        elif int(g[1]) != sz or not same([parse(x, q.typ) for x in g[2:]], seen, q.typ):
                            bad.setdefault(q, "%s receives %s, expected %d %s" % (where, " ".join(g[1:])[:160], sz, seen))
        h = hgot.get(q.n)
        if not q.on and q.alloc:
            if h is not None:
                bad.setdefault(q, "the inactive quantity became allocated")
            continue
        if q.where in ("blk", "thr"):
            want = [q.data[c] for hs in PARTS for c in blk_cells(q, hs)]
        else:
            want = q.data
        if h is None or not same([parse(x, q.typ) for x in h], want, q.typ):
            bad.setdefault(q, "the host holds %s, expected %s" % (" ".join(h or ["nothing"])[:300], want))
    return bad


def run(job):
    layout, qs, stages, loops, debug, bare = job
    d = mc.newdir("c25")
    try:
        c, hm = make(layout, qs, stages, loops, bare)
        orig = hm.fortran
        text = fortran_host(hm)
        hm.fortran = lambda: text
        c.write(d)
        st, txt = c.generate(extra=["--debug"] if debug else [])
        if st != "ok":
            res = {None: "refused: %s %s" % (st, txt[-700:])}
        else:
            drv = driver(layout, qs, stages)
            ok, txt = c.compile(drv, flags=("-O0", "-fcheck=bounds,pointer,mem,do"))
            if not ok:
                res = {None: "does not compile: " + txt[-900:]}
            else:
                rc, txt = c.execute("")
                res = judge(qs, stages, loops, txt)
                if rc != 0 and not res:
                    res = {None: "the program fails: %s" % txt[-400:]}
                elif rc != 0:
                    res.setdefault(None, "the program fails: %s" % txt[-400:])
        if None in res and len(qs) > 1:
            h = len(qs) // 2
            out = {}
            for part in (qs[:h], qs[h:]):
                out.update(run((layout, part, stages, loops, debug, bare)))
            return out or {"all": res[None]}
        return {(q.key if isinstance(q, Q) else qs[0].key): w for q, w in res.items()}
    finally:
        mc.rmdir(d)


def free(layout, form, active, decls):
    return False


def space(deep):
    sd = list(itertools.product(("K", "C"), ("in", "out", "inout")))
    n = 0
    for layout in "CB":
        for form in FORMS[layout]:
            typ = FORMS[layout][form][3]
            for active in ACTIVE if deep else ("-", "on", "off") if form not in ("col", "bcol", "sca") else ACTIVE:
                for a, b in itertools.product(sd, repeat=2):
                    if typ != "real" and "C" in (a[0], b[0]):
                        continue
                    opts = [(True, True)] if active != "-" else [(False, False), (True, False)] if deep or form in ("col", "bcol", "sca") else [(False, False)]
                    for oa, ob in opts:
                        n += 1
                        yield Q(n, layout, form, active, [a + (oa,), b + (ob,)])


def small(deep, n):
    """Builds of one quantity, or of two in one place, in which no scheme asks for a size or another quantity."""
    out = []
    for layout in "CB":
        for form in FORMS[layout]:
            num = FORMS[layout][form][3] == "real"
            for active in ("-", "on", "expr") if deep else ("-", "on"):
                for decls in ([("K", "in")], [("C", "inout")], [("K", "in"), ("K", "inout")], [("K", "out"), ("C", "in")]) if deep else ([("C" if active == "-" else "K", "inout")],):
                    n += 1
                    out.append([Q(n, layout, form, active, [(u if num else "K", i, active != "-") for u, i in decls])])
    ints = ("in", "out", "inout")
    for layout, form in (("C", "mem"), ("C", "memsca"), ("C", "nest"), ("B", "bcol"), ("C", "memelem"), ("B", "thr")):
        if not deep and form in ("memelem", "thr", "nest"):
            continue
        for n1, i1, i2 in itertools.product((1, 2) if deep else (1,), ints, ints):
            n += 2
            out.append([Q(n - 1, layout, form, "-", [("K", i1, False)] * n1), Q(n, layout, form, "-", [("K", i2, False)] * n1)])
    return out


def main():
    ck = mc.Check("C25", "model_checking")
    deep = not ck.quick
    pb.preload()
    qs = list(space(deep))
    if os.environ.get("C25_ONLY"):
        qs = [q for q in qs if re.search(os.environ["C25_ONLY"], q.key)]
    jobs = []
    cfgs = [(("timestep_init", "run"), 1, False)] if not deep else [(tuple(pb.STAGES), 1, False), (tuple(pb.STAGES), 2, True)]
    for stages, loops, debug in cfgs:
        for layout in "CB":
            sel = [q for q in qs if q.layout == layout]
            step = 48
            nj = max(1, (len(sel) + step - 1) // step)
            for k in range(nj):
                part = sel[k::nj]
                if part:
                    jobs.append((layout, part, list(stages), loops, debug, False))
    for part in small(deep, len(qs)):
        jobs += [(part[0].layout, part, ["timestep_init", "run"], 1, debug, True) for debug in ((False, True) if deep else (False,))]
    n = t = 0
    for job, res in zip(jobs, mc.pmap(run, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % job[1][0].key, "the case could not be run: %s" % res)
            continue
        n += len(job[1])
        t += sum((1 + (s == "run")) * 2 * job[3] for q in job[1] for s in q.stages(job[2]))
        for q in job[1]:
            w = res.get(q.key)
            ck.outcome("%s %s" % (job[0], "agrees" if w is None else w.split(":")[0] if w.startswith(("refused", "does not")) else "differs"))
            if w:
                ck.violation(q.key + (" debug" if job[4] else "") + (" loops" if job[3] > 1 else "") + (" in its own suite" if job[5] else ""), w)
        if "all" in res:
            ck.violation("together: " + job[1][0].key, res["all"])
    ck.sample(qs[len(qs) // 2].key)
    ck.finish(states=n, transitions=t, traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
