"""C08: the inspection routines and the database tool report exactly what was configured.

Suites are composed from a catalogue of one-argument schemes, so that every assignment of access roles to plain, protected,
optional, array, structure and structure-element quantities, every order of two accesses over groups and phases and every
small suite structure is a suite.  They are generated in batches (many suites under one host), compiled, and a driver prints
what the generated routines say for every suite and every selection; the database tool is asked the same questions.  Both are
compared with sets computed from the suite and the catalogue."""
import itertools
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, suite_xml, err_vars

H, L, VL = "horizontal_dimension", "horizontal_loop_extent", "vertical_layer_dimension"
INT = ("in", "inout", "out")
# quantities of the catalogue: id -> (std, type, kind, dims, protected, host?)
TY = {"ta": ["sa_one", "sa_two"], "tb": ["sb_one"], "tc": ["sc_one", "sa_one_more", "sc_two"]}
Q = {
    "p": ("qp_plain", "real", "kind_phys", ()), "q": ("qq_second", "real", "kind_phys", ()), "r": ("qr_array", "real", "kind_phys", (H, VL)),
    "P": ("qx_protected", "real", "kind_phys", ()), "o": ("qo_optional", "real", "kind_phys", (H,)),
    "a": ("st_a", "ta", "ta", ()), "b": ("st_b", "tb", "tb", ()), "c": ("st_c", "tc", "tc", ()),
    "A": ("sa_one", "real", "kind_phys", ()), "C": ("sc_two", "real", "kind_phys", ()), "s": ("qs_suite_owned", "real", "kind_phys", ()),
    "G": ("big_array", "real", "kind_phys", ("number_of_things",)), "g": ("el_one", "real", "kind_phys", ()), "h": ("xl_two", "real", "kind_phys", ()),
    "K": ("kin_array", "real", "kind_phys", ("number_of_things",)), "k": ("a_kin_one", "real", "kind_phys", ()),
    "M": ("mix_array", "real", "kind_phys", ("number_of_things",)),
    "d": (VL, "integer", "", ()), "z": ("azero_first", "integer", "", ()), "S": ("zz_Mixed_Case", "real", "kind_phys", ()),
    "Z": ("qz_constituent", "real", "kind_phys", (H, VL)),
}
PROT = {"P", "d"}
ARR = {"big_array": ["el_one", "xl_two"], "kin_array": ["a_kin_one"], "mix_array": ["mix_c", "mix_a", "mix_b"]}     # array sections with names of their own
ELEMS = {"st_a": TY["ta"], "st_b": TY["tb"], "st_c": TY["tc"]}
FREE = {"index_of_" + e for es in (["el_one", "xl_two"], ["a_kin_one"]) for e in es} | {"horizontal_loop_begin", "horizontal_loop_end", "horizontal_loop_extent", H, VL, "number_of_things"}
ERR = {"ccpp_error_code", "ccpp_error_message"}
PH = {"r": "run", "i": "init", "f": "final", "I": "timestep_init", "F": "timestep_final"}


def sname(v, i, ph):
    low = {"P": "pp", "A": "aa", "C": "cc", "S": "ss", "G": "gg", "K": "kk", "M": "mm"}.get(v, v)
    return "s%s_%s_%s" % (low, i, PH[ph].replace("timestep_", "t"))


def scheme(v, i, ph):
    std, typ, kind, dims = Q[v]
    dims = [L if d == H and ph == "r" else d for d in dims]
    arg = V("arg", std, typ, kind if typ == "real" else "", "none" if typ[0] == "t" else "count" if typ == "integer" else "m", dims, i, v == "o", **({"constituent": "True"} if v == "Z" else {}))
    uses = ["tys, only: " + typ] if typ in TY else []
    return Scheme(sname(v, i, ph), {PH[ph]: (err_vars() + [arg], [])}, uses=uses)


class Suite:
    """groups: list of (name, body) with body a list of scheme tuples (v, intent, phase) or ("loop", n, body)"""

    def __init__(self, name, groups, key):
        self.name, self.groups, self.key = name, groups, key

    def xml(self):
        def body(b):
            out = ""
            for x in b:
                if x[0] == "loop":
                    out += '<subcycle loop="%d">%s</subcycle>' % (x[1], body(x[2]))
                else:
                    out += "<scheme>%s</scheme>" % sname(*x)
            return out
        return suite_xml(self.name, "".join('<group name="%s">%s</group>' % (n, body(b)) for n, b in self.groups))

    def flat(self):
        def fl(b):
            for x in b:
                if x[0] == "loop":
                    yield from fl(x[2])
                else:
                    yield x
        return [(n, list(fl(b))) for n, b in self.groups]

    def parts(self):
        """every part with its accesses, in order: {part: {var: [intents]}}"""
        parts = []
        for ph in "iIFf":
            acc = [x for _, b in self.flat() for x in dict.fromkeys(b) if x[2] == ph]
            acc = list(dict.fromkeys(acc))
            parts.append((PH[ph], acc))
        for n, b in self.flat():
            parts.append((n, [x for x in b if x[2] == "r"]))
        return parts

    def schemes(self):
        return {sname(*x) for _, b in self.flat() for x in b}

    def reads_writes(self):
        r, w, maybe = set(), set(), set()
        for _, acc in self.parts():
            first = {}
            for v, i, _ in acc:
                if v == "s":
                    continue
                std = Q[v][0]
                if v == "o":
                    maybe.add(("azero_first", "z"))     # its condition
                if std not in first:
                    first[std] = i
                    if i != "out":
                        r.add((std, v))
                elif first[std] == "out" and i != "out":
                    maybe.add((std, v))      # written before it is read in this part
                if i != "in":
                    w.add((std, v))
        return r, w, maybe - r


def cover(got, need, may, elems, what):
    """arrays are replaced with their named sections if <elems>; for a structure, its name or all of its elements will do"""
    if elems:
        need, may = ({y for x in q for y in ARR.get(x, [x])} for q in (need, may))
        got_l = {x.lower() for x in got}
        for s, es in ELEMS.items():
            if s in need and set(es) <= got_l:
                need = need - {s} | set(es)
            if s in may:
                may = may | set(es)
    return cmp(got, need, may, what)


def expect(suite, inp, outp):
    """-> (required set, allowed set)"""
    r, w, maybe = suite.reads_writes()
    rs = {s for s, v in r if v not in PROT}
    ws = {s for s, _ in w} | (ERR if suite.schemes() else set())
    ms = {s for s, _ in maybe}
    need = (rs if inp else set()) | (ws if outp else set())
    may = need | (ms if inp else set())
    return need, may | FREE


DRV = """
program drv
  use hst_ccpp_cap
  implicit none
  character(len=64), allocatable :: suites(:), parts(:), schemes(:), vars(:)
  character(len=128), allocatable :: names(:)
  character(len=512) :: errmsg
  integer :: errflg, i, k
  logical :: a, b, c
  call ccpp_physics_suite_list(suites)
  call show('suites', '', suites)
  allocate(names(size(suites) + 4))
  names(1:size(suites)) = suites
  names(size(suites) + 1:) = [character(len=128) :: 'nosuch', trim(suites(1))//'x', suites(1)(1:2), ' ']
  do i = 1, size(names)
    errflg = -9; errmsg = 'unset'
    call ccpp_physics_suite_part_list(trim(names(i)), parts, errmsg, errflg)
    write(6, '(4a,i0,2a)') 'E parts ', '[', trim(names(i)), '] ', errflg, ' ', trim(errmsg)
    if (allocated(parts)) call show('parts', names(i), parts)
    errflg = -9; errmsg = 'unset'
    call ccpp_physics_suite_schemes(names(i), schemes, errmsg, errflg)
    write(6, '(4a,i0,2a)') 'E schemes ', '[', trim(names(i)), '] ', errflg, ' ', trim(errmsg)
    if (allocated(schemes)) call show('schemes', names(i), schemes)
    errflg = -9; errmsg = 'unset'
    call ccpp_physics_suite_variables(names(i), vars, errmsg, errflg)
    write(6, '(4a,i0,2a)') 'E vars ', '[', trim(names(i)), '] ', errflg, ' ', trim(errmsg)
    if (allocated(vars)) call show('vars---', names(i), vars)
    do k = 0, 7
      a = btest(k, 0); b = btest(k, 1); c = btest(k, 2)
      call ccpp_physics_suite_variables(trim(names(i)), vars, errmsg, errflg, input_vars=a, output_vars=b, struct_elements=c)
      if (allocated(vars)) call show('vars'//merge('T','F',a)//merge('T','F',b)//merge('T','F',c), names(i), vars)
    end do
    call ccpp_physics_suite_variables(trim(names(i)), vars, errmsg, errflg, input_vars=.false.)
    if (allocated(vars)) call show('varsF--', names(i), vars)
    call ccpp_physics_suite_variables(trim(names(i)), vars, errmsg, errflg, output_vars=.false.)
    if (allocated(vars)) call show('vars-F-', names(i), vars)
    call ccpp_physics_suite_variables(trim(names(i)), vars, errmsg, errflg, struct_elements=.false.)
    if (allocated(vars)) call show('vars--F', names(i), vars)
  end do
  write(6,'(a)') 'END'
contains
  subroutine show(what, name, list)
    character(len=*), intent(in) :: what, name, list(:)
    integer :: j
    write(6, '(5a)', advance='no') 'L ', what, ' [', trim(name), ']'
    do j = 1, size(list)
      write(6, '(3a)', advance='no') ' "', trim(list(j)), '"'
    end do
    write(6, '(a)') ''
  end subroutine show
end program drv
"""


def make(suites):
    used = set()
    for s in suites:
        for _, b in s.flat():
            used.update(b)
    hv = [V("ncols", H, "integer", "", "count", protected="True"), V("pver", VL, "integer", "", "count", protected="True")]
    for v, (std, typ, kind, dims) in Q.items():
        if v in "AsCdghkZ":
            continue
        kw = {"protected": "True"} if v in PROT else {}
        if v == "o":
            kw["active"] = "(azero_first > 0)"
        hv.append(V("h_" + std, std, typ, kind if typ == "real" else "", "none" if typ[0] == "t" else "count" if typ == "integer" else "m", dims,
                    fattr="allocatable" if dims else "", **kw))
    hv += [V("nthings", "number_of_things", "integer", "", "count", protected="True")]
    for a, es in ARR.items():
        for e in es:
            hv.append(V("i_" + e, "index_of_" + e, "integer", "", "index", protected="True"))
            hv.append(V("h_%s(index_of_%s)" % (a, e), e, "real", "kind_phys", "m", ()))
    tys = Scheme("tys", {}, ddts=[(t, [V(e, e, "real", "kind_phys", "m", ()) for e in es]) for t, es in TY.items()])
    mod = HostMod("hm", hv, uses=["tys, only: " + ", ".join(TY)])
    # host modules come after the types they use
    case = Case(mods=[], schemes=[tys] + [scheme(*x) for x in sorted(used)], suites=[(s.name, s.xml()) for s in suites])
    case.hostmod = mod
    return case


def primed(suites):
    """Put a suite which reads and writes everything first: a call list of the generated interface shares the arguments of the
    first suite using them, and adjusts their intent for the later ones (known finding, probed by leak())."""
    pairs = sorted({(v, p) for s in suites for _, b in s.flat() for v, _, p in b if v not in PROT and v != "s"})
    return [Suite("su_first", [("g", [(v, "inout", p) for v, p in pairs] or [("d", "in", "r")])], "first")] + suites


def leak(job):
    """what one suite only reads is not listed as its output, whatever other suites do"""
    a, b, ph = job
    d = mc.newdir("c08l")
    try:
        suites = [Suite("su0", [("g", [("p", a, ph)])], ""), Suite("su1", [("g", [("p", b, ph)])], "")]
        st, msg = prepare(suites, d).generate()
        if st != "ok":
            return job, ["refused: " + msg[-300:]]
        db = ask(os.path.join(d, "out", "datatable.xml"), ["su0", "su1"])
        bad = []
        for s, i in (("su0", a), ("su1", b)):
            for act, want in (("input_variables", i != "out"), ("output_variables", i != "in")):
                if want != ("qp_plain" in db[act, s].split(",")):
                    bad.append("%s: %s is %s" % (s, act, db[act, s]))
        return job, bad
    finally:
        mc.rmdir(d)


# accesses to a constituent which the host doesn't define: initialised by the suite or not, used or not
CONST = {"init": [("Z", "out", "i")], "in": [("Z", "in", "r")], "inout": [("Z", "inout", "r")], "init+in": [("Z", "out", "i"), ("Z", "in", "r")],
         "init+inout": [("Z", "out", "i"), ("Z", "inout", "r")], "none": [("p", "inout", "r")]}


def constituent(job):
    """a suite needs as input the constituents which it uses and doesn't initialise, whatever other suites do
    (test/advection_test has one which its suite initialises listed as well: not prescribed)"""
    d = mc.newdir("c08k")
    try:
        suites = [Suite("su%d" % k, [("g", CONST[x])], x) for k, x in enumerate(job)]
        case = prepare(suites, d)
        st, msg = case.generate()
        if st != "ok":
            return job, ["refused: " + msg[-300:]]
        ok, txt = case.compile(DRV, flags=("-O0", "-fcheck=bounds,pointer,mem,do"))
        if not ok:
            return job, ["the generated code does not compile: " + txt[:400]]
        rc, txt = case.execute("", timeout=120)
        L, _ = parse(txt)
        bad = []
        for s in suites:
            for t in ("TFT", "TFF", "TTT", "---"):
                got = L.get(("vars" + t, s.name))
                if got is None or s.key in ("in", "inout", "none") and (s.key != "none") != ("qz_constituent" in got):
                    bad.append("%s (%s): variables (input, output, elements = %s): %s" % (s.name, s.key, t, got))
        return job, bad
    finally:
        mc.rmdir(d)


def prepare(suites, d):
    case = make(suites)
    case.write(d)
    m = case.hostmod
    with open(os.path.join(d, "hm.F90"), "w") as f:
        f.write(m.fortran())
    with open(os.path.join(d, "hm.meta"), "w") as f:
        f.write(m.meta())
    case.hostfiles = ["hst.meta", "tys.meta", "hm.meta"]
    # compile order: types, host module, the other schemes
    case.schemes = [case.schemes[0], m] + case.schemes[1:]
    return case


def ask(path, suites):
    """what the database tool says, in a child"""
    def go():
        import ccpp_datafile as df
        out = {}

        def q(act, val=True, **kw):
            try:
                return df.datatable_report(path, df.DatatableReport(act, val), ",", **kw)
            except Exception as exc:    # pylint: disable=broad-except
                return "%s: %s" % (type(exc).__name__, exc)
        for act in ("suite_list", "module_list", "process_list", "dependencies", "host_files", "suite_files", "utility_files", "ccpp_files", "host_variables"):
            out[act] = q(act)
        out["host_variables-x"] = q("host_variables", exclude_protected=True)
        for s in suites:
            for act in ("required_variables", "input_variables", "output_variables"):
                out[act, s] = q(act, s)
                out[act + "-x", s] = q(act, s, exclude_protected=True)
        return out
    return mc.forked(go)


def cli(path, *opts):
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(mc.REPO, "scripts", "ccpp_datafile.py")] + list(opts) + [path],
                       capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout.rstrip("\n"), r.stderr


def parse(txt):
    L, E = {}, {}
    for line in txt.splitlines():
        m = re.match(r"L (\S+) \[(.*?)\](.*)$", line)
        if m:
            L[m.group(1), m.group(2)] = re.findall(r'"([^"]*)"', m.group(3))
        m = re.match(r"E (\S+) \[(.*?)\] (-?\d+) (.*)$", line)
        if m:
            E[m.group(1), m.group(2)] = (int(m.group(3)), m.group(4))
    return L, E


def cmp(got, need, may, what):
    if len(got) != len(set(got)):
        return "%s lists %s more than once: %s" % (what, sorted({x for x in got if got.count(x) > 1}), got)
    low = {x.lower() for x in got}
    if {x.lower() for x in need} - low:
        return "%s does not list %s: %s" % (what, sorted(x for x in need if x.lower() not in low), got)
    if low - {x.lower() for x in may}:
        return "%s lists %s: %s" % (what, sorted(low - {x.lower() for x in may}), got)
    return None


def judge(suites, txt, db):
    """-> [(suite key, problem)]"""
    L, E = parse(txt)
    bad = []
    names = [s.name for s in suites]
    if "END" not in txt.splitlines()[-1:]:
        return [("program", "the inspection program ends abnormally: " + txt[-300:])]

    def check(key, p):
        if p:
            bad.append((key, p))
    check("suites", cmp(L["suites", ""], names, names, "suite list"))
    check("suites", cmp(db["suite_list"].split(","), names, names, "database: suite list"))
    for n in ("nosuch", names[0] + "x", names[0][:2], ""):
        for w in ("parts", "schemes", "vars"):
            e = E.get((w, n))
            if e is None or e[0] == 0 or e[0] == -9 or not e[1].strip() or e[1] == "unset":
                check("unknown", "%s of unknown suite '%s': error code and message %s" % (w, n, e))
            elif n and n not in e[1]:
                check("unknown", "%s of unknown suite '%s': message does not name it: %s" % (w, n, e[1]))
    mods = set()
    for s in suites:
        for w in ("parts", "schemes", "vars"):
            e = E.get((w, s.name))
            if e is None or e[0] != 0 or e[1].strip():
                check(s.key, "%s: error code and message %s" % (w, e))
        parts = [n for n, _ in s.groups]
        check(s.key, cmp(L.get(("parts", s.name), []), parts, parts, "part list"))
        sch = s.schemes()
        mods |= sch
        check(s.key, cmp(L.get(("schemes", s.name), []), sch, sch, "scheme list"))
        for sel in itertools.product("TF", repeat=3):
            need, may = expect(s, sel[0] == "T", sel[1] == "T")
            if sel[0] == "F" and sel[1] == "F":
                need = may = set()
            tags = ["".join(sel)]
            if sel == ("T", "T", "T"):
                tags.append("---")
            for i, t in enumerate(("F--", "-F-", "--F")):
                if sel == tuple("F" if j == i else "T" for j in range(3)):
                    tags.append(t)
            for t in tags:
                got = L.get(("vars" + t, s.name))
                check(s.key, "variables (input, output, elements = %s) missing" % t if got is None else cover(got, need, may, sel[2] == "T", "variables (input, output, elements = %s)" % t))
        r, w, maybe = s.reads_writes()
        rs, ws, ms = ({x for x, _ in y} for y in (r, w, maybe))
        ws |= ERR if sch else set()
        prot = {Q[v][0] for v in PROT}
        for act, need in (("required_variables", rs | ws), ("input_variables", rs), ("output_variables", ws)):
            for x in ("", "-x"):
                nd = need - prot if x else need
                got = [y for y in db[act + x, s.name].split(",") if y]
                bound = FREE - prot if x else FREE
                mm = nd | bound | (ms if act != "output_variables" else set())
                if act == "output_variables":
                    mm = nd
                if x:
                    mm = mm - {H, VL}
                check(s.key, cmp(got, nd, mm, "database: %s%s" % (act, " without protected" if x else "")))
    check("modules", cmp([m for m in db["module_list"].split(",") if m], mods, mods, "database: module list"))
    return bad


def run(job):
    label, suites = job
    d = mc.newdir("c08")
    try:
        case = prepare(suites, d)
        st, msg = case.generate()
        if st != "ok":
            return label, 0, [("generate", "refused: " + msg[-500:])], None
        db = ask(os.path.join(d, "out", "datatable.xml"), [s.name for s in suites])
        ok, txt = case.compile(DRV, flags=("-O0", "-fcheck=bounds,pointer,mem,do"))
        if not ok:
            return label, 0, [("compile", "the generated code does not compile: " + txt[:600])], None
        rc, txt = case.execute("", timeout=120)
        bad = judge(suites, txt, db)
        if label.endswith("#0"):
            bad += tool(d, suites, db)
        return label, len(suites), bad, None
    finally:
        mc.rmdir(d)


def tool(d, suites, db):
    """the command line tool gives the same answers; files exist"""
    path = os.path.join(d, "out", "datatable.xml")
    bad = []
    for act in ("suite_list", "module_list", "process_list", "dependencies", "host_files", "suite_files", "utility_files", "ccpp_files", "host_variables"):
        for sep in (",", ";", "::"):
            rc, out, err = cli(path, "--" + act.replace("_", "-"), "--separator", sep)
            if rc or out.split(sep) != db[act].split(","):
                bad.append(("tool " + act, "tool --%s prints %s (status %s, %s), the report is %s" % (act, out[:200], rc, err[-100:], db[act][:200])))
    for s in suites[:6]:
        for act in ("required_variables", "input_variables", "output_variables"):
            for x in ("", "-x"):
                rc, out, err = cli(path, *(["--" + act.replace("_", "-"), s.name] + (["--exclude-protected"] if x else [])))
                if rc or out != db[act + x, s.name]:
                    bad.append(("tool " + act, "tool --%s prints %s (status %s, %s), the report is %s" % (act, out[:200], rc, err[-100:], db[act + x, s.name][:200])))
    gen = sorted(os.path.join(d, "out", f) for f in os.listdir(os.path.join(d, "out")) if f.endswith(".F90"))
    listed = db["ccpp_files"].split(",")
    if sorted(x for x in listed if x.startswith(d)) != gen or any(not os.path.exists(x) for x in listed):
        bad.append(("tool files", "files %s listed, %s generated" % (listed, gen)))
    if sorted(listed) != sorted(",".join(db[a] for a in ("host_files", "suite_files", "utility_files")).split(",")):
        bad.append(("tool files", "ccpp_files is not the union of its parts"))
    base = None
    for w in range(0, 140, 7):
        rc, out, err = cli(path, "--show", "--line-wrap", str(w or -1))
        t = "".join(out.split())
        if rc or (base is not None and t != base):
            bad.append(("tool show", "--line-wrap %d changes the text (status %s)" % (w, rc)))
        base = base or t
    for s in suites:
        if "name=" + s.name not in (base or ""):
            bad.append(("tool show", "--show does not show suite " + s.name))
    return bad


# ------------------------------------------------------------------ suites
def order_ok(groups):
    """a quantity held by the suite is written before it is read (phase order: init, timestep, run, ..)"""
    acc = []
    for ph in "iIrFf":
        acc += [(v, i) for b in groups for v, i, p in b if p == ph]
    for v, i in acc:
        if v == "s":
            return i == "out"
    return True


def space(deep):
    n = itertools.count()

    def mk(groups, key):
        return Suite("su%d" % next(n), [("g%d" % k, list(b)) for k, b in enumerate(groups)], key)
    # roles
    ROLES = [(), ("in",), ("inout",), ("out",), ("in|out",), ("out|in",)]

    def roles(vs, rl, tag):
        for combo in itertools.product(rl, repeat=len(vs)):
            g = [[], []]
            for v, r in zip(vs, combo):
                if not r:
                    continue
                ps = r[0].split("|")
                g[0].append((v, ps[0], "r"))
                if len(ps) > 1:
                    g[1].append((v, ps[1], "r"))
            if not g[0]:
                continue
            if not g[1]:
                g.pop()
            yield tag, mk(g, tag + " " + " ".join("%s:%s" % (v, r[0] if r else "-") for v, r in zip(vs, combo)))
    if deep:
        yield from roles("paAb", ROLES, "roles")
        yield from roles("pqcC", ROLES, "roles")
        yield from roles("abc", ROLES, "roles")
        yield from roles("GKMp", ROLES, "roles")
        yield from roles("GgKq", ROLES, "roles")
        yield from roles("oPaz", [r for r in ROLES if r in ((), ("in",))] + [("in",)], "roles")
    else:
        yield from roles("paA", ROLES, "roles")
        yield from roles("ab", ROLES, "roles")
        yield from roles("GKp", ROLES, "roles")
        yield from roles("Gg", ROLES, "roles")
        yield from roles("MKhq", ROLES[:4], "roles")
        yield from roles("pqC", ROLES[:4], "roles")
        yield from roles("pab", ROLES[:4], "roles")
    # two accesses in any phases and groups
    vs = "paAPosrSzdq" if deep else "paPosr"
    atoms = [(v, i, ph) for v in vs for i in INT for ph in ("rifIF" if deep else "ri") if not (v in PROT and i != "in")]
    for x, y in itertools.product(atoms, repeat=2):
        if not deep and x[0] != y[0] and (x[0], y[0]) not in (("p", "r"), ("a", "A"), ("s", "p"), ("P", "o")):
            continue
        if deep and x[0] != y[0] and (x[1] == "inout" or y[1] == "inout" or {x[2], y[2]} - set("ri")):
            continue
        if x[1] == "out" and x[0] == "o" or y[1] == "out" and y[0] == "o":
            pass
        for split in (0, 1):
            groups = [[x], [y]] if split else [[x, y]]
            if order_ok(groups):
                yield "two", mk(groups, "two %s" % " | ".join(" ".join("%s:%s:%s" % z for z in g) for g in groups))
    # structures
    a, b, c, e = ("p", "in", "r"), ("q", "out", "r"), ("p", "out", "i"), ("a", "inout", "f")
    bodies = [[a], [a, b], [c], [("loop", 2, [a])], [("loop", 2, [a, ("loop", 3, [b])])], [a, ("loop", 1, [a, b]), a], [e, a], [c, e]]
    for k in (1, 2, 3) if deep else (1, 2):
        for bs in itertools.product(bodies, repeat=k):
            for nm in (None, "name"):
                if nm and k == 1:
                    continue
                s = Suite("su%d" % next(n), [("g%d" % j if nm is None else ["zeta", "alpha", "Mid_Group_with_a_long_name"][j], x) for j, x in enumerate(bs)],
                          "struct %s %s" % (nm, [bodies.index(x) for x in bs]))
                yield "struct", s


def main():
    ck = mc.Check("C08", "model_checking")
    cg.preload()
    by = {}
    for tag, s in space(not ck.quick):
        by.setdefault(tag, []).append(s)
    jobs = []
    size = 30
    for tag, ss in by.items():
        for k, ch in enumerate(mc.chunks(ss, size)):
            jobs.append(("%s#%d" % (tag, k), primed(ch)))
    # batches of one, two and three suites
    for k in (1, 2, 3):
        jobs.append(("few#0", [x for x in by["two"] if " p:inout" in x.key][:k]))
    n = 0
    tr = 0
    for res in mc.pmap(run, jobs):
        if isinstance(res, mc.Crash):
            ck.violation("machinery", "the generator could not be run: %s" % res, None)
            continue
        label, k, bad, _ = res
        n += k
        tr += k * 15
        ck.outcome(label.split("#")[0], k)
        for key, b in bad:
            ck.violation("%s: %s" % (key, re.sub(r"\d+", "N", b)[:40]), "%s: %s" % (key, b), {"suite": key, "batch": label})
        if k:
            ck.sample(label)
    for res in mc.pmap(leak, [(a, b, ph) for a in INT for b in INT for ph in ("rifIF" if not ck.quick else "ri")]):
        if isinstance(res, mc.Crash):
            ck.violation("machinery", "the generator could not be run: %s" % res, None)
            continue
        (a, b, ph), bad = res
        n += 1
        ck.outcome("two suites")
        if bad:
            ck.violation("two suites p:%s:%s p:%s:%s" % (a, ph, b, ph), "; ".join(bad), {"first": [a, ph], "second": [b, ph]})
    for res in mc.pmap(constituent, [x for k in ((1, 2) if ck.quick else (1, 2, 3)) for x in itertools.product([c for c in CONST if not ck.quick or "+" not in c or "inout" in c], repeat=k)]):
        if isinstance(res, mc.Crash):
            ck.violation("machinery", "the generator could not be run: %s" % res, None)
            continue
        job, bad = res
        n += 1
        ck.outcome("constituents")
        if bad:
            ck.violation("constituents %s" % " | ".join(job), "; ".join(bad), {"suites": list(job)})
    ck.finish(states=n, transitions=tr, traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
