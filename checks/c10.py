"""C10: constituents declared by schemes reach the registry and the schemes.

Exhaustive exploration over small sets of constituent declarations: every subset of a library of schemes
(static constituents with and without default, advected or not, tendencies, the whole constituent array,
run-time constituents of two schemes, consumers of run-time constituents), in one suite and spread over
two suites.  Each configuration is generated, compiled and run through registration histories (several
host lists, run-time lists of every length, a second cycle after the clean-up); after every step the
registry seen through the host interfaces and the storage handed to the schemes are compared with a model."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, err_vars, suite_xml

NC, NL = 3, 2
HUGE = "HUGE"
KG = "kg kg-1"
# std name -> (long name, units, advected, default, minimum, molar mass)
PROPS = {
    "qa": ("constituent a", KG, True, 1.5, 0.0, 18.5),
    "qb": ("", KG, False, 2.25, 0.0, None),
    "qc": ("species c", "mol mol-1", False, None, 0.0, None),
    "dy1": ("dynamic one", KG, True, 7.0, 0.0, None),
    "dy2": ("dynamic two", KG, False, 3.5, 0.25, 30.0),
    "dy3": ("dynamic three", "mol mol-1", True, None, 0.5, None),
    "h1": ("host one", KG, True, 4.5, 0.125, 44.0),
    "h2": ("host two", "g kg-1", False, None, 0.0, None),
    "qa_bad": ("constituent a", "g kg-1", True, 1.5, 0.0, 18.5),
}
STATIC = {"sa": "qa", "sb": "qb", "sc": "qc", "sr": "qa", "sd": "dy1"}
DYN = {"da": [[], ["dy1"], ["dy1", "dy2"]], "db": [[], ["dy3"], ["dy1"], ["dy3", "dy1"]]}
HOSTS = [[], ["h1"], ["h1", "h2"], ["qa"], ["h2", "h2"], ["dy1"], ["h1", "qa_bad"]]
HE = [V("ncol", "horizontal_loop_extent", "integer", "", "count", intent="in")]
Q2 = ["horizontal_loop_extent", "vertical_layer_dimension"]
QD = ["horizontal_dimension", "vertical_layer_dimension"]


def cvar(name, intent, dims=Q2, local=None):
    ln, un, adv, dfl, mn, mm = PROPS[name]
    kw = {}
    if ln:
        kw["long_name"] = ln
    if adv:
        kw["advected"] = ".true."
    else:
        kw["constituent"] = "True"
    if dfl is not None:
        kw["default_value"] = "%s_kind_phys" % dfl
    if mm is not None:
        kw["molar_mass"] = "%s" % mm
    return V(local or "v_" + name, name, units=un, dims=dims, intent=intent, **kw)


def show(tag, var):
    return ["write(6,'(3a,2(1x,i0),*(1x,g0))') 'S ', '%s', ' ', size(%s,1), size(%s,2), %s" % (
        tag, var, var, var)]


def dyn_scheme(nm, local):
    lists = DYN[nm]
    body = ["select case (%s_case)" % nm]
    for k, names in enumerate(lists):
        body += ["case (%d)" % k, "  allocate(%s(%d))" % (local, len(names))]
        for i, n in enumerate(names):
            body += ["  " + inst("%s(%d)" % (local, i + 1), n, "errflg", "errmsg")]
    body += ["end select", "call tr('%s_register', errmsg, errflg)" % nm]
    v = V(local, "dynamic_constituents_for_" + nm, "ccpp_constituent_properties_t", "", None,
          [":"], "out", fattr="allocatable", allocatable="true")
    return {"register": ([v] + err_vars(), body)}


def inst(obj, n, ec, em):
    ln, un, adv, dfl, mn, mm = PROPS[n]
    a = "std_name='%s', long_name='%s', units='%s', vertical_dim='vertical_layer_dimension'" % (
        n.split("_")[0], ln, un)
    a += ", advected=%s" % (".true." if adv else ".false.")
    if dfl is not None:
        a += ", default_value=%s_kind_phys" % dfl
    if mn:
        a += ", min_value=%s_kind_phys" % mn
    if mm is not None:
        a += ", molar_mass=%s_kind_phys" % mm
    return "call %s%%instantiate(%s, errcode=%s, errmsg=%s)" % (obj, a, ec, em)


def scheme(nm, same_local=False):
    uses = ["mc_tr"]
    if nm in ("da", "db"):
        ph = dyn_scheme(nm, "dyn_const" if same_local else "dyn_" + nm)
        return Scheme(nm, ph, uses=uses + ["mc_dyn", "ccpp_constituent_prop_mod, only: "
                                           "ccpp_constituent_properties_t"])
    if nm == "sa":
        ph = {"init": ([cvar("qa", "out", QD)] + err_vars(), show("init.qa", "v_qa")),
              "run": (HE + [cvar("qa", "inout")] + err_vars(),
                      show("sa.qa", "v_qa") + ["v_qa = v_qa + 0.5_kind_phys"])}
    elif nm == "sb":
        ph = {"run": (HE + [cvar("qb", "inout", local="b_thing")] + err_vars(),
                      show("sb.qb", "b_thing") + ["b_thing = b_thing * 2.0_kind_phys"])}
    elif nm == "sc":
        ph = {"run": (HE + [cvar("qc", "in")] + err_vars(), show("sc.qc", "v_qc"))}
    elif nm == "sr":
        ph = {"run": (HE + [cvar("qa", "in", local="q_other")] + err_vars(), show("sr.qa", "q_other"))}
    elif nm == "sd":
        ph = {"run": (HE + [cvar("dy1", "inout")] + err_vars(),
                      show("sd.dy1", "v_dy1") + ["v_dy1 = v_dy1 - 1.0_kind_phys"])}
    elif nm == "st":
        t = V("tend", "tendency_of_qa", units=KG + " s-1", dims=Q2, intent="inout",
              constituent="True")
        ph = {"run": (HE + [t] + err_vars(), show("st.t", "tend") +
                      ["tend = tend + 0.0625_kind_phys"])}
    elif nm == "ap":
        d3 = Q2 + ["number_of_ccpp_constituents"]
        ph = {"run": (HE + [V("tend", "ccpp_constituent_tendencies", units="none", dims=d3,
                              intent="inout"),
                            V("con", "ccpp_constituents", units="none", dims=d3, intent="inout"),
                            V("nq", "number_of_ccpp_constituents", "integer", "", "count",
                              intent="in")] + err_vars(),
                      ["write(6,'(a,7(1x,i0))') 'S ap', shape(tend), shape(con), nq"] +
                      show("ap.t", "tend") + show("ap.c", "con") +
                      ["con = con + tend", "tend = 0.0_kind_phys"])}
    elif nm == "si":
        ph = {"run": (HE + [V("na", "number_of_ccpp_advected_constituents", "integer", "", "count",
                              intent="in"),
                            V("mn", "ccpp_constituent_minimum_values", units=KG,
                              dims=["number_of_ccpp_constituents"], intent="in"),
                            V("cp", "ccpp_constituent_properties", "ccpp_constituent_prop_ptr_t", "",
                              "None", ["number_of_ccpp_constituents"], "in"),
                            V("con", "ccpp_constituents", units="none", intent="inout",
                              dims=Q2 + ["number_of_ccpp_constituents"])] + err_vars(),
                      ["ia = -1", "do i = 1, size(cp)",
                       "  call cp(i)%standard_name(nm, errflg, errmsg)",
                       "  if (trim(nm) == 'qa') call cp(i)%const_index(ia, errflg, errmsg)", "end do",
                       "write(6,'(a,4(1x,i0))') 'S si', ia, na, size(mn), size(cp)",
                       "write(6,'(a,*(1x,g0))') 'S mn', mn",
                       "con(:,:,ia) = con(:,:,ia) + 0.25_kind_phys"],
                      ["integer :: i, ia", "character(len=256) :: nm"])}
        uses.append("ccpp_constituent_prop_mod, only: ccpp_constituent_prop_ptr_t")
    return Scheme(nm, ph, uses=uses)


HOSTV = [V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
         V("pver", "vertical_layer_dimension", "integer", "", "count", fattr="parameter")]


class Host(HostMod):
    def fortran(self):
        return """module hdat
  use ccpp_kinds
  implicit none
  public
!> \\section arg_table_hdat  Argument Table
!! \\htmlinclude arg_table_hdat.html
!!
  integer, parameter :: ncols = %d
  integer, parameter :: pver = %d
end module hdat
""" % (NC, NL)


def driver_text(host):
    hl = ""
    for k, names in enumerate(HOSTS):
        hl += "      case (%d)\n        allocate(hc(%d))\n" % (k, len(names))
        for i, n in enumerate(names):
            hl += "        " + inst("hc(%d)" % (i + 1), n, "ec", "errmsg") + "\n"
    ops = """    case('dyn')
      read(line,*) op, da_case, db_case
    case('host')
      read(line,*) op, cs
      nullify(hc)
      select case (cs)
%(hl)s      end select
      errflg = -77; errmsg = 'unset'
      call %(h)s_ccpp_register_constituents(hc, errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,2a)') 'R ', errflg, ' ', trim(errmsg)
    case('alloc')
      errflg = -77; errmsg = 'unset'
      call %(h)s_ccpp_initialize_constituents(ncols, pver, errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,2a)') 'R ', errflg, ' ', trim(errmsg)
    case('clean')
      call %(h)s_ccpp_deallocate_dynamic_constituents()
    case('fill')
      arr => %(h)s_constituents_array()
      do l = 1, size(arr,3)
        do k = 1, size(arr,2)
          do i = 1, size(arr,1)
            arr(i,k,l) = 100*l + 10*k + i
          end do
        end do
      end do
    case('vals')
      arr => %(h)s_constituents_array()
      write(6,'(a,3(1x,i0),*(1x,g0))') 'V', shape(arr), arr
      adv => %(h)s_advected_constituents_array()
      write(6,'(a,3(1x,i0),*(1x,g0))') 'A', shape(adv), adv
    case('gather')
      arr => %(h)s_constituents_array()
      allocate(tmp(size(arr,1),size(arr,2),size(arr,3)))
      errflg = -77; errmsg = 'unset'
      call %(h)s_ccpp_gather_constituents(tmp, errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,a,l1)') 'G ', errflg, ' ', all(tmp == arr)
      tmp = tmp + 1
      call %(h)s_ccpp_update_constituents(tmp, errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,a,l1)') 'G ', errflg, ' ', all(tmp == arr)
      deallocate(tmp)
    case('dump')
      call %(h)s_ccpp_number_constituents(n, errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,1x,i0)') 'N all ', errflg, n
      call %(h)s_ccpp_number_constituents(k, advected=.true., errmsg=errmsg, errflg=errflg)
      write(6,'(a,i0,1x,i0)') 'N adv ', errflg, k
      props => %(h)s_model_const_properties()
      write(6,'(a,i0)') 'N props ', size(props)
      do i = 1, size(props)
        call props(i)%%standard_name(s1, ec, errmsg)
        call props(i)%%long_name(s2, ec, errmsg)
        call props(i)%%units(s3, ec, errmsg)
        call props(i)%%vertical_dimension(s4, ec, errmsg)
        call props(i)%%is_advected(l1, ec, errmsg)
        call props(i)%%has_default(l2, ec, errmsg)
        dv = -1
        if (l2) call props(i)%%default_value(dv, ec, errmsg)
        call props(i)%%minimum(mv, ec, errmsg)
        call props(i)%%molar_mass(mm, ec, errmsg)
        call props(i)%%const_index(k, ec, errmsg)
        write(6,'(a,i0,1x,i0,4(a,a),2(1x,l1),3(1x,g0))') 'P ', i, k, '|', trim(s1), '|', trim(s2), &
          '|', trim(s3), '|', trim(s4)//'|', l1, l2, dv, mv, mm
      end do
    case('find')
      read(line,*) op, sn
      call %(h)s_const_get_index(trim(sn), k, errmsg=errmsg, errflg=errflg)
      write(6,'(3a,i0,1x,i0)') 'I ', trim(sn), ' ', errflg, k
      call %(h)s_ccpp_is_scheme_constituent(trim(sn), l1, errmsg=errmsg, errflg=errflg)
      write(6,'(3a,i0,1x,l1)') 'Q ', trim(sn), ' ', errflg, l1
""" % {"h": host, "hl": hl}
    decls = """  type(ccpp_constituent_properties_t), pointer :: hc(:)
  type(ccpp_constituent_prop_ptr_t), pointer :: props(:)
  real(kind_phys), pointer :: arr(:,:,:), adv(:,:,:)
  real(kind_phys), allocatable :: tmp(:,:,:)
  real(kind_phys) :: dv, mv, mm
  character(len=256) :: s1, s2, s3, s4
  logical :: l1, l2
  integer :: i, k, l, n, ec
"""
    return cg.driver(host, uses="  use mc_dyn\n  use hdat\n  use ccpp_constituent_prop_mod",
                     decls=decls, ops=ops)


MCDYN = "module mc_dyn\n  implicit none\n  public\n  integer :: da_case = 0, db_case = 0\nend module mc_dyn\n"


def build(d, suites, same_local, shared):
    """Generate and compile; returns (status, text)."""
    names = sorted({n for _, gs in suites for g in gs for n in g})
    xml = []
    for sn, gs in suites:
        body = "\n".join('  <group name="g%d">\n%s\n  </group>' % (
            i, "\n".join("    <scheme>%s</scheme>" % n for n in g)) for i, g in enumerate(gs))
        xml.append((sn, suite_xml(sn, body)))
    case = Case("hst", [Host("hdat", HOSTV)], [scheme(n, same_local) for n in names], xml)
    case.write(d)
    src = os.path.join(mc.REPO, "src")
    case.hostfiles.insert(0, os.path.join(src, "ccpp_constituent_prop_mod.meta"))
    st, txt = case.generate()
    if st != "ok":
        return st, txt
    with open(os.path.join(d, "drv.F90"), "w") as f:
        f.write(driver_text("hst"))
    out = os.path.join(d, "out")
    gen = sorted(f for f in os.listdir(out) if f.endswith(".F90") and f != "ccpp_kinds.F90")
    caps = [f for f in gen if not f.endswith("hst_ccpp_cap.F90")]
    files = ["hdat.F90"] + [n + ".F90" for n in names] + ["out/" + f for f in caps] + \
        ["out/hst_ccpp_cap.F90", "drv.F90"]
    objs = [os.path.join(shared, f) for f in sorted(os.listdir(shared)) if f.endswith(".o")]
    rc, txt = mc.run(["gfortran", "-ffree-line-length-none", "-w", "-O0", "-g0", "-cpp", "-I", shared,
                      "-fcheck=bounds,pointer,mem,do", "-o", "drv"] + files + objs, cwd=d, timeout=300)
    return ("ok", "") if rc == 0 else ("compile", txt)


def prebuild():
    d = mc.newdir("c10s")
    with open(os.path.join(d, "ccpp_kinds.F90"), "w") as f:
        f.write("module ccpp_kinds\n use ISO_FORTRAN_ENV, only: kind_phys => REAL64\n implicit none\n"
                " public\nend module ccpp_kinds\n")
    with open(os.path.join(d, "mc_tr.F90"), "w") as f:
        f.write(cg.TRACE)
    with open(os.path.join(d, "mc_dyn.F90"), "w") as f:
        f.write(MCDYN)
    src = os.path.join(mc.REPO, "src")
    rc, txt = mc.run(["gfortran", "-ffree-line-length-none", "-w", "-O0", "-g0", "-cpp", "-c",
                      "-fcheck=bounds,pointer,mem,do", "ccpp_kinds.F90", "mc_tr.F90", "mc_dyn.F90"] +
                     [os.path.join(src, f) for f in ("ccpp_hashable.F90", "ccpp_hash_table.F90",
                                                     "ccpp_constituent_prop_mod.F90")],
                     cwd=d, timeout=300)
    return d, rc, txt


# ---------------------------------------------------------------- model
class Model:
    """What the host and the schemes must see."""

    def __init__(self, suites):
        self.suites = dict(suites)
        self.names = [n for n, _ in suites]
        self.static = []
        for _, gs in suites:
            for g in gs:
                for n in g:
                    if n in STATIC and STATIC[n] not in self.static:
                        self.static.append(STATIC[n])
        self.dyn = {}
        self.reg = None          # registered constituents (set) or None
        self.val = None          # name -> [k][i]
        self.tend = None

    def has(self, n, suite=None):
        return any(n in g for s, gs in self.suites.items() if suite in (None, s) for g in gs)


def fmt(x):
    return float(x)


def close(a, b):
    if b == HUGE:
        return a > 1e300
    return a == b


def expect_set(model, suites, da, db, h):
    """Names registered, or None when an error is required."""
    lists = [HOSTS[h]]
    if model.has("da"):
        lists.append(DYN["da"][da])
    if model.has("db"):
        lists.append(DYN["db"][db])
    lists.append(model.static)
    reg = {}
    for li in lists:
        for n in li:
            std = n.split("_")[0]
            if std in reg:
                p, q = PROPS[reg[std]], PROPS[n]
                if p[1] != q[1] or p[2] != q[2]:
                    return None
            else:
                reg[std] = n
    return reg


def dflt(n):
    return HUGE if PROPS[n][3] is None else PROPS[n][3]


class Bad(Exception):
    pass


def want(c, msg):
    if not c:
        raise Bad(msg)


class Reader:
    def __init__(self, txt):
        self.lines = [x for x in txt.split("\n") if x]
        self.i = 0

    def next(self, tag):
        if self.i >= len(self.lines):
            raise Bad("output ends where '%s' is expected (the program stopped)" % tag)
        x = self.lines[self.i]
        self.i += 1
        if not x.startswith(tag):
            raise Bad("expected a '%s' record, got '%s'" % (tag, x[:200]))
        return x[len(tag):].strip()

    def peek(self, tag):
        return self.i < len(self.lines) and self.lines[self.i].startswith(tag)


def nums(s):
    return [float(x) for x in s.split()]


def check_vals(name, got, want_vals):
    want(len(got) == len(want_vals), "%s: %d values instead of %d" % (name, len(got), len(want_vals)))
    for i, (a, b) in enumerate(zip(got, want_vals)):
        want(close(a, b), "%s: element %d is %s, expected %s" % (name, i + 1, a, b))


def cycle(rd, model, suites, da, db, h, rng):
    """Read and check the output of one registration cycle.  Returns False when it ends in the expected
    error."""
    reg = expect_set(model, suites, da, db, h)
    rd.next("C dyn")
    for sn, gs in suites:
        rd.next("C register %s" % sn)
        called = []
        while rd.peek("T "):
            called.append(rd.next("T "))
        exp = []
        for g in gs:
            for n in g:
                if n in DYN:
                    exp.append(n + "_register")
        want(called == exp, "register of %s called %s instead of %s" % (sn, called, exp))
        r = rd.next("R ")
        want(r.split()[0] == "0", "register of suite %s reports '%s'" % (sn, r))
    rd.next("C host")
    r = rd.next("R ")
    if reg is None:
        want(r.split()[0] != "0", "incompatible declarations of one constituent are accepted")
        return False
    want(r.split()[0] == "0", "register_constituents reports '%s'" % r)
    # the registry as the host sees it
    rd.next("C dump")
    nadv = sum(1 for n in reg.values() if PROPS[n][2])
    r = rd.next("N all ")
    want(r == "0 %d" % len(reg), "number of constituents: '%s', expected %d" % (r, len(reg)))
    r = rd.next("N adv ")
    want(r == "0 %d" % nadv, "number of advected constituents: '%s', expected %d" % (r, nadv))
    r = rd.next("N props ")
    want(r == "%d" % len(reg), "properties for %s constituents, expected %d" % (r, len(reg)))
    index = {}
    for i in range(1, len(reg) + 1):
        f = rd.next("P ").split("|")
        p = f[0].split()
        std, ln, un, vd = f[1], f[2], f[3], f[4]
        want(std in reg and std not in index, "unexpected or repeated constituent '%s'" % std)
        want(p == [str(i), str(i)], "'%s' at position %s says its index is %s" % (std, p[0], p[1]))
        index[std] = i
        P = PROPS[reg[std]]
        q = f[5].split()
        want(ln == P[0] or not P[0], "long name of '%s' is '%s'" % (std, ln))
        want(un == P[1], "units of '%s' are '%s', expected '%s'" % (std, un, P[1]))
        want(vd == "vertical_layer_dimension", "vertical dimension of '%s' is '%s'" % (std, vd))
        want((q[0] == "T") == P[2], "'%s': advected is %s" % (std, q[0]))
        want((q[1] == "T") == (P[3] is not None), "'%s': has_default is %s" % (std, q[1]))
        if P[3] is not None:
            want(float(q[2]) == P[3], "'%s': default %s, expected %s" % (std, q[2], P[3]))
        want(float(q[3]) == P[4], "'%s': minimum %s, expected %s" % (std, q[3], P[4]))
        if P[5] is not None:
            want(float(q[4]) == P[5], "'%s': molar mass %s, expected %s" % (std, q[4], P[5]))
    want(all((index[n] <= nadv) == PROPS[reg[n]][2] for n in reg),
         "advected constituents are not the first %d: %s" % (nadv, index))
    for n in FIND:
        rd.next("C find")
        r = rd.next("I ").split()
        if n in reg:
            want(r[1:] == ["0", str(index[n])], "index of '%s': %s, expected %d" % (n, r, index[n]))
        else:
            want(r[1] != "0" or int(r[2]) <= 0, "index of unregistered '%s': %s" % (n, r))
        r = rd.next("Q ").split()
        st = n in model.static
        want(r[1:] == ["0", "T" if st else "F"], "is_scheme_constituent of '%s': %s" % (n, r))
    rd.next("C alloc")
    r = rd.next("R ")
    want(r.split()[0] == "0", "initialize_constituents reports '%s'" % r)
    N = len(reg)
    byidx = sorted(index, key=lambda n: index[n])
    val = {n: [[dflt(reg[n])] * NC for _ in range(NL)] for n in reg}
    tend = {n: [[0.0] * NC for _ in range(NL)] for n in reg}

    def flat(a, names):
        return [a[n][k][i] for n in names for k in range(NL) for i in range(NC)]

    def vals(where):
        rd.next("C vals")
        x = nums(rd.next("V"))
        want(x[:3] == [NC, NL, N], "%s: shape of the constituent array is %s" % (where, x[:3]))
        check_vals(where + ": constituent array " + ",".join(byidx), x[3:], flat(val, byidx))
        x = nums(rd.next("A"))
        want(x[:3] == [NC, NL, nadv], "%s: shape of the advected array is %s" % (where, x[:3]))
        check_vals(where + ": advected array", x[3:], flat(val, byidx[:nadv]))

    vals("after initialisation")
    for sn, gs in suites:
        rd.next("C init %s" % sn)
        seen = set()
        for g in gs:
            for n in g:
                if n == "sa" and "sa" not in seen:
                    seen.add("sa")
                    x = nums(rd.next("S init.qa"))
                    want(x[:2] == [NC, NL], "shape of qa in init: %s" % x[:2])
                    check_vals("qa in init", x[2:], flat(val, ["qa"]))
        r = rd.next("R ")
        want(r.split()[0] == "0", "initialize of %s reports '%s'" % (sn, r))
    rd.next("C fill")
    for n in reg:
        val[n] = [[100.0 * index[n] + 10 * (k + 1) + i + 1 for i in range(NC)] for k in range(NL)]
    for sn, _ in suites:
        rd.next("C timestep_init %s" % sn)
        r = rd.next("R ")
        want(r.split()[0] == "0", "timestep_initial of %s reports '%s'" % (sn, r))
    lo, hi = rng
    cols = range(lo - 1, hi)
    nc = hi - lo + 1

    def part(a, names):
        return [a[n][k][i] for n in names for k in range(NL) for i in cols]

    def upd(a, n, fn):
        for k in range(NL):
            for i in cols:
                a[n][k][i] = fn(a[n][k][i])

    for sn, gs in suites:
        for gi, g in enumerate(gs):
            rd.next("C run %s g%d" % (sn, gi))
            for n in g:
                if n in DYN:
                    continue
                w = "%s in %s/g%d" % (n, sn, gi)
                if n == "ap":
                    x = nums(rd.next("S ap "))
                    want(x == [nc, NL, N, nc, NL, N, N], "%s: shapes and count %s" % (w, x))
                    x = nums(rd.next("S ap.t"))
                    check_vals(w + ": tendency array", x[2:], part(tend, byidx))
                    x = nums(rd.next("S ap.c"))
                    check_vals(w + ": constituent array", x[2:], part(val, byidx))
                    for c in reg:
                        for k in range(NL):
                            for i in cols:
                                val[c][k][i] += tend[c][k][i]
                                tend[c][k][i] = 0.0
                    continue
                if n == "si":
                    want(nums(rd.next("S si ")) == [index["qa"], nadv, N, N],
                         "%s: index or counts handed to the scheme are wrong" % w)
                    check_vals(w + ": minimum values", nums(rd.next("S mn")),
                               [PROPS[reg[c]][4] for c in byidx])
                    upd(val, "qa", lambda v: v + 0.25)
                    continue
                c, arr = ("qa", tend) if n == "st" else (STATIC[n], val)
                x = nums(rd.next("S %s.%s" % (n, "t" if n == "st" else c)))
                want(x[:2] == [nc, NL], "%s: shape %s" % (w, x[:2]))
                check_vals(w + ": " + ("tendency_of_" if n == "st" else "") + c, x[2:], part(arr, [c]))
                fn = {"sa": lambda v: v + 0.5, "sb": lambda v: v * 2, "sd": lambda v: v - 1,
                      "st": lambda v: v + 0.0625}.get(n)
                if fn:
                    upd(arr, c, fn)
            r = rd.next("R ")
            want(r.split()[0] == "0", "run of %s g%d reports '%s'" % (sn, gi, r))
    vals("after run")
    rd.next("C gather")
    for what in ("gather", "update"):
        want(rd.next("G ") == "0 T", "%s does not copy the constituent array" % what)
    for sn, _ in suites:
        for ph in ("timestep_final", "final"):
            rd.next("C %s %s" % (ph, sn))
            r = rd.next("R ")
            want(r.split()[0] == "0", "%s of %s reports '%s'" % (ph, sn, r))
    return True


FIND = ["qa", "qb", "qc", "dy1", "dy3", "h1", "nosuch"]


def script(suites, da, db, h, rng, ok):
    s = ["dyn %d %d" % (da, db)] + ["register %s - 1 1" % n for n, _ in suites] + ["host %d" % h]
    if not ok:
        return s
    s += ["dump"] + ["find %s" % n for n in FIND] + ["alloc", "vals"]
    s += ["init %s - 1 1" % n for n, _ in suites] + ["fill"]
    s += ["timestep_init %s - 1 1" % n for n, _ in suites]
    for sn, gs in suites:
        s += ["run %s g%d %d %d" % (sn, i, rng[0], rng[1]) for i in range(len(gs))]
    s += ["vals", "gather"]
    for n, _ in suites:
        s += ["timestep_final %s - 1 1" % n, "final %s - 1 1" % n]
    return s


def histories(suites, quick):
    """All (da, db, host, range) cycles, and all ordered pairs of a cycle and its successor."""
    m = Model(suites)
    das = range(len(DYN["da"])) if m.has("da") else [0]
    dbs = range(len(DYN["db"])) if m.has("db") else [0]
    one = [(a, b, h) for a in das for b in dbs for h in range(len(HOSTS))]
    out = []
    for j, c in enumerate(one):
        rng = [(1, NC), (2, NC), (2, 2)][j % 3]
        out.append([(c, rng)])
    # second cycle after the clean-up: another host list, another run-time list
    for a, b, h in one:
        for h2 in range(len(HOSTS)):
            if quick and (h, h2) not in ((1, 0), (0, 2), (3, 3), (6, 1), (1, 6), (2, 1)):
                continue
            a2, b2 = das[-1 - a if len(das) > 1 else 0], dbs[-1 - b if len(dbs) > 1 else 0]
            out.append([((a, b, h), (1, NC)), ((a2, b2, h2), (1, 2))])
    return out


def run_case(arg):
    suites, same_local, shared, quick = arg
    d = mc.newdir("c10")
    res, n, steps = [], 0, 0
    tag = "%s%s" % (" + ".join("%s(%s)" % (s, "; ".join(",".join(g) for g in gs)) for s, gs in suites),
                    " same-local" if same_local else "")
    try:
        st, txt = build(d, suites, same_local, shared)
        if st != "ok":
            return tag, 0, 0, ["build: %s: %s" % (st, txt.strip()[-1500:])]
        for hist in histories(suites, quick):
            m = Model(suites)
            sc = []
            for (da, db, h), rng in hist:
                ok = expect_set(m, suites, da, db, h) is not None
                sc += script(suites, da, db, h, rng, ok) + ["clean"]
            rc, out = mc.run([os.path.join(d, "drv")], cwd=d, inp="\n".join(sc) + "\n", timeout=60)
            n += 1
            rd = Reader(out)
            try:
                for (da, db, h), rng in hist:
                    cycle(rd, m, suites, da, db, h, rng)
                    rd.next("C clean")
                    steps += 1
                want(rc == 0 and rd.i == len(rd.lines), "the program ends with code %s: %s" % (
                    rc, " / ".join(rd.lines[rd.i:rd.i + 3])[:300]))
            except Bad as e:
                res.append("history %s: %s\nscript: %s" % (hist, e, "; ".join(sc)))
        # calls out of order: an error, no crash, and a regular cycle still works afterwards
        regs = ["register %s - 1 1" % x for x, _ in suites]
        for pre in (["alloc"], ["dyn 0 0"] + regs + ["alloc"],
                    ["dyn 0 0"] + regs + ["host 1", "alloc", "alloc"]):
            sc = pre + ["clean"] + script(suites, 0, 0, 1, (1, NC), True) + ["clean", "clean"]
            rc, out = mc.run([os.path.join(d, "drv")], cwd=d, inp="\n".join(sc) + "\n", timeout=60)
            n += 1
            rd = Reader(out)
            try:
                for j, op in enumerate(pre):
                    rd.next("C " + op)
                    while rd.peek("T "):
                        rd.next("T ")
                    if not op.startswith("dyn"):
                        r = rd.next("R ").split()
                        want((r[0] != "0") == (j == len(pre) - 1), "'%s' reports code %s" % (op, r[0]))
                rd.next("C clean")
                cycle(rd, Model(suites), suites, 0, 0, 1, (1, NC))
                rd.next("C clean")
                rd.next("C clean")
                want(rc == 0 and rd.i == len(rd.lines), "the program ends with code %s" % rc)
                steps += len(pre) + 1
            except Bad as e:
                res.append("calls %s: %s" % ("; ".join(pre), e))
    finally:
        mc.rmdir(d)
    return tag, n, steps, res


def configs(quick):
    lib = ["da", "sa", "sb", "sc", "st", "sr", "sd", "db", "si", "ap"]

    def okay(sub):
        s = set(sub)
        if s & {"st", "si"} and not s & {"sa", "sr"}:
            return False
        return bool(sub)
    subs = [c for k in range(1, len(lib) + 1) for c in itertools.combinations(lib, k) if okay(c)]
    out = []
    for c in subs:
        if quick and not (len(c) <= 2 or len(c) == len(lib) or c in (
                ("sa", "st", "ap"), ("sa", "sb", "st"), ("sa", "sb", "si"), ("sa", "sb", "sc"), ("da", "sa", "ap"),
                ("da", "db", "ap"), ("da", "sd", "db"), ("sb", "sd", "ap"))):
            continue
        if not quick and len(c) > 5 and len(c) != len(lib):
            continue
        two = len(c) > 1
        if not two or len(c) % 2 == 0:
            out.append(([("s1", [list(c)])], False))
        if two and (not quick or len(c) > 2):
            h = len(c) // 2
            out.append(([("s1", [list(c[:h]), list(c[h:])])], False))
    out.append(([("s1", [["da", "db"]])], True))
    out.append(([("s1", [["da", "sa"], ["db", "ap"]])], True))
    parts = [("sa",), ("da",), ("sa", "st"), ("db", "sb"), ("da", "sd"), ("ap",), ("sb",),
             ("sa", "ap"), ("da", "db"), ("sa", "si")]
    for b in ("sa", "sr"):
        out.append(([("s1", [["st"]]), ("s2", [["ap"], [b]])], False))
        out.append(([("s1", [[b, "ap"]]), ("s2", [["st", "ap"]])], False))
        out.append(([("s1", [["si"]]), ("s2", [["da", b]])], False))
    for a in parts:
        for b in parts:
            if quick and len(a) + len(b) > 3 and (a, b) not in ((("da", "sd"), ("da", "sd")),
                                                               (("sa", "st"), ("sa", "ap"))):
                continue
            if quick and len(a) == 1 and len(b) == 1 and a > b:
                continue
            out.append(([("s1", [list(a)]), ("s2", [list(b)])], False))
    out.append(([("s1", [["da"]]), ("s2", [["db"]])], True))
    return out


def main():
    ck = mc.Check("C10", "model_checking")
    cg.preload()
    shared, rc, txt = prebuild()
    try:
        if rc != 0:
            ck.violation("the constituent module does not compile", txt)
            return ck.finish(states=0, transitions=0, traces_validated_against_impl=0)
        jobs = [(s, l, shared, ck.quick) for s, l in configs(ck.quick)]
        tot = steps = 0
        for job, r in zip(jobs, mc.pmap(run_case, jobs)):
            if isinstance(r, mc.Crash):
                ck.violation("case %s" % (job[0],), str(r))
                continue
            tag, n, st, bad = r
            tot += n
            steps += st
            for b in bad[:3]:
                ck.violation("%s: %s" % (tag, b.split("\n")[0][:160]), b)
            ck.outcome("bad" if bad else "ok")
    finally:
        mc.rmdir(shared)
    return ck.finish(states=len(jobs), transitions=steps, traces_validated_against_impl=tot)


if __name__ == "__main__":
    sys.exit(main())
