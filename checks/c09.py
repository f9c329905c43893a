"""C09: the constituent registry behaves as a lockable, indexed map.

Every operation sequence up to a depth (initialise, add of fresh / equal / incompatible / non-layer /
uninstantiated constituents, lock, lock data, copy in / out with good and bad shapes, property changes,
reset) is executed on the compiled ccpp_constituent_prop_mod by forking before each operation; after each
one everything a host can observe is compared with a map model.  A second family explores sequences on
one constituent property object."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import forkdfs

# name, units, vertical dimension, advected, water, default, minimum
A = ("amix", "kg kg-1", "vertical_layer_dimension", True, False, 1.5, 0.25)
PROPS = {
    "A": A,
    "B": ("bmix", "kg kg-1", "vertical_layer_dimension", False, False, 2.5, None),
    "C": ("cmix", "mol mol-1", "vertical_layer_dimension", False, True, None, 0.5),
    "D": ("dmix", "kg kg-1", "vertical_layer_dimension", True, True, 4.5, None),
    "A=": A,
    "Aa": ("amix", "kg kg-1", "vertical_layer_dimension", False, False, 1.5, 0.25),
    "Au": ("amix", "g kg-1", "vertical_layer_dimension", True, False, 1.5, 0.25),
    "Aw": ("amix", "kg kg-1", "vertical_layer_dimension", True, True, 1.5, 0.25),
    "P": ("pmix", "kg kg-1", "vertical_interface_dimension", True, False, 1.0, None),
    "U": None,
}
NAMES = ["amix", "bmix", "cmix", "dmix", "pmix", "zmix"]
NC, NL = 2, 3
HUGE = "HUGE"

DRV = """program drv
  use, intrinsic :: iso_c_binding
  use ccpp_kinds
  use ccpp_constituent_prop_mod
  implicit none
%(ifc)s
  type(ccpp_model_constituents_t), target :: reg
  integer :: npre, i, dmax, pre(64)
  read(5,*) npre, (pre(i),i=1,npre), dmax
  do i=1,npre
    call do_op(pre(i))
  end do
  write(6,'(a)') 'P end'
  call dfs(1, dmax, %(n)d)
  flush(6)
contains
%(body)s
  subroutine add(nm, un, vd, adv, wat, def, mn, inst, opt)
    character(len=*), intent(in) :: nm, un, vd
    logical, intent(in) :: adv, wat, inst, opt
    real(kind_phys), intent(in), optional :: def, mn
    type(ccpp_constituent_properties_t), pointer :: p
    integer :: ec
    character(len=512) :: em
    allocate(p)
    if (inst) then
      call p%%instantiate(nm, 'long '//nm, un, vd, advected=adv, default_value=def, min_value=mn, &
        water_species=wat, errcode=ec, errmsg=em)
      if (ec /= 0) write(6,'(a)') 'E instantiate failed'
    end if
    ec = -1; em = 'junk'
    if (opt) then
      call reg%%new_field(p, errcode=ec, errmsg=em)
    else
      call reg%%new_field(p)
      ec = -4
    end if
    call rep(ec, em)
  end subroutine add
  subroutine rep(ec, em)
    integer, intent(in) :: ec
    character(len=*), intent(in) :: em
    write(6,'(a,i0,1x,l1,1x,l1)') 'E ', ec, len_trim(em) > 0, trim(em) == 'junk'
  end subroutine rep
  subroutine show(tag, arr)
    character(len=*), intent(in) :: tag
    real(kind_phys), intent(in) :: arr(:,:,:)
    integer :: c
    write(6,'(a,3(1x,i0))') tag, shape(arr)
    do c = 1, size(arr,3)
      call vals(tag//'v', reshape(arr(:,:,c),(/size(arr,1)*size(arr,2)/)))
    end do
  end subroutine show
  subroutine vals(tag, v)
    character(len=*), intent(in) :: tag
    real(kind_phys), intent(in) :: v(:)
    integer :: j
    write(6,'(a)',advance='no') tag
    do j = 1, size(v)
      if (v(j) == huge(1.0_kind_phys)) then
        write(6,'(a)',advance='no') ' HUGE'
      else
        write(6,'(1x,g0)',advance='no') v(j)
      end if
    end do
    write(6,'(a)') ''
  end subroutine vals
  subroutine do_op(op)
    integer, intent(in) :: op
    integer :: ec, k, c
    character(len=512) :: em
    real(kind_phys) :: arr(%(nc)d,%(nl)d,6), arrw(%(nc)d,%(nl)d+1,6), arrs(%(nc)d,%(nl)d,1)
    type(ccpp_constituent_prop_ptr_t), pointer :: pp(:)
    ec = -1; em = 'junk'
    arr = -9; arrw = -9; arrs = -9
    select case(op)
%(cases)s
    end select
    call observe()
  end subroutine do_op
  subroutine mkarr(a)
    real(kind_phys), intent(out) :: a(:,:,:)
    integer :: i, k, c
    do c = 1, size(a,3); do k = 1, size(a,2); do i = 1, size(a,1)
      a(i,k,c) = 5000 + 100*c + 10*k + i
    end do; end do; end do
  end subroutine mkarr
  subroutine observe()
    integer :: ec, n(5), k, nn
    character(len=512) :: em, u
    logical :: l(4), t
    type(ccpp_constituent_properties_t) :: md
    type(ccpp_constituent_prop_ptr_t), pointer :: pp(:)
    real(kind_phys), pointer :: dp(:,:,:)
    real(kind_phys) :: r(2)
    l(1) = reg%%locked(); l(2) = reg%%const_props_locked(); l(3) = reg%%const_data_locked()
    ec = -1
    l(4) = reg%%okay_to_add(errcode=ec, errmsg=em)
    write(6,'(a,4(l1),1x,l1)') 'O ', l, ec /= 0
    l(1) = reg%%locked(errcode=ec,errmsg=em)
    ec = -1
    call reg%%num_constituents(n(1), errcode=ec, errmsg=em)
    call reg%%num_constituents(n(2), advected=.true., errcode=ec, errmsg=em)
    call reg%%num_constituents(n(3), advected=.false., errcode=ec, errmsg=em)
    call reg%%num_constituents(n(4), water_species=.true., errcode=ec, errmsg=em)
    call reg%%num_constituents(n(5), thermo_active=.true., advected=.true., errcode=ec, errmsg=em)
    write(6,'(a,5(1x,i0),1x,l1)') 'N', n, (ec /= 0 .or. len_trim(em) > 0)
    write(6,'(a,2(1x,i0))') 'V', reg%%num_layer_vars, reg%%num_advected_vars
%(obs)s
    pp => reg%%constituent_props_ptr()
    if (associated(pp)) then
      write(6,'(a,i0)') 'P ', size(pp)
      do k = 1, size(pp)
        ec = -1
        call pp(k)%%standard_name(u, ec, em)
        call pp(k)%%const_index(nn, ec, em)
        call pp(k)%%default_value(r(1), ec, em)
        call pp(k)%%minimum(r(2), ec, em)
        call pp(k)%%is_advected(t, ec, em)
        write(6,'(2a,1x,i0,1x,l1)') 'Q ', trim(u), nn, t
        call vals('Qv', r)
      end do
    end if
    dp => reg%%field_data_ptr()
    if (associated(dp)) call show('F', dp)
    if (l(2) .and. allocated(reg%%vars_layer)) then
      dp => reg%%advected_constituents_ptr()
      if (associated(dp)) write(6,'(a,3(1x,i0))') 'G', shape(dp)
      call vals('T', (/ sum(abs(reg%%vars_layer_tend)), 1.0_kind_phys*size(reg%%vars_layer_tend) /))
      call vals('I', reg%%vars_minvalue)
    end if
    write(6,'(a)') 'Z'
  end subroutine observe
end program drv
"""


def f(x):
    return "%r_kind_phys" % float(x)


def call_of(op):
    k = op[0]
    ec = "errcode=ec, errmsg=em"
    if k == "add":
        p = PROPS[op[1]]
        inst = p is not None
        nm, un, vd, adv, wat, de, mn = p or ("x", "1", "v", False, False, None, None)
        ex = ("" if de is None else ", def=" + f(de)) + ("" if mn is None else ", mn=" + f(mn))
        return ["call add('%s','%s','%s',.%s.,.%s.%s,inst=.%s.,opt=.%s.)" % (
            nm, un, vd, str(adv).lower(), str(wat).lower(), ex, str(inst).lower(),
            str(len(op) < 3).lower())]
    if k == "init":
        return ["call reg%%initialize_table(%d)" % op[1], "write(6,'(a)') 'E none'"]
    if k == "reset":
        return ["call reg%reset()", "write(6,'(a)') 'E none'"]
    if k == "lockt":
        return ["call reg%%lock_table(%s)" % ec, "call rep(ec,em)"]
    if k == "lockd":
        return ["call reg%%lock_data(%d, %d, %s)" % (NC, NL, ec), "call rep(ec,em)"]
    if k == "lockd0":
        return ["call reg%%lock_data(%d, %d)" % (NC, NL), "write(6,'(a)') 'E -4'"]
    if k == "lockt0":
        return ["call reg%lock_table()", "write(6,'(a)') 'E -4'"]
    if k == "fill":
        return ["if (allocated(reg%vars_layer)) then", "  call mkarr(reg%vars_layer)",
                "  reg%vars_layer = reg%vars_layer - 4000", "end if", "write(6,'(a)') 'E none'"]
    if k in ("in", "out"):
        a = {"bad": "arrw", "small": "arrs"}.get(op[1], "arr")
        opt = {"adv": "advected=.true., ", "nadv": "advected=.false., ", "wat": "water_species=.true., ",
               "advthermo": "advected=.true., thermo_active=.true., "}.get(op[1], "")
        L = ["call reg%%copy_%s(%s, %s%s)" % (k, a, opt, ec), "call rep(ec,em)"]
        if k == "out":
            L.insert(0, "call mkarr(%s)" % a)
        else:
            L.append("call show('R', %s)" % a)
        return L
    if k == "thermo":
        return ["pp => reg%constituent_props_ptr()", "if (associated(pp)) then", "  if (size(pp) > 0) then",
                "    call pp(size(pp))%set_thermo_active(.true., ec, em)",
                "    call pp(1)%set_thermo_active(.true., ec, em)", "    call pp(1)%set_minimum(9.5_kind_phys, ec, em)",
                "  end if", "end if", "write(6,'(a)') 'E none'"]
    raise KeyError(k)


def driver(ops):
    cs = []
    for i, op in enumerate(ops):
        cs.append("    case(%d)" % (i + 1))
        cs += ["      " + x for x in call_of(op)]
    ob = []
    for nm in NAMES:
        ob += ["    ec = -1; em = 'junk'", "    call reg%%const_index(nn, '%s', errcode=ec, errmsg=em)" % nm,
               "    write(6,'(a,i0,1x,l1)') 'K ', nn, (ec /= 0 .or. len_trim(em) > 0)",
               "    ec = -1; em = 'junk'",
               "    call reg%%field_metadata('%s', md, errcode=ec, errmsg=em)" % nm,
               "    t = (ec /= 0 .or. len_trim(em) > 0)", "    u = '-'",
               "    if (.not. t) call md%units(u, ec, em)", "    write(6,'(a,l1,2a)') 'M ', t, ' ', trim(u)"]
    return DRV % {"ifc": forkdfs.INTERFACES, "n": len(ops), "body": forkdfs.BODY, "cases": "\n".join(cs),
                  "obs": "\n".join(ob), "nc": NC, "nl": NL}


class St:
    """Reference model."""

    def __init__(self):
        self.init = self.lt = self.ld = False
        self.ent = {}        # name -> property tuple
        self.idx = None      # name -> index (learned, then fixed)
        self.val = {}        # name -> column values
        self.thermo, self.minv, self.amin = set(), {}, []

    def copy(self):
        s = St()
        s.init, s.lt, s.ld = self.init, self.lt, self.ld
        s.ent, s.idx, s.val = dict(self.ent), self.idx and dict(self.idx), dict(self.val)
        s.thermo, s.minv, s.amin = set(self.thermo), dict(self.minv), list(self.amin)
        return s

    def key(self):
        return (self.init, self.lt, self.ld, tuple(sorted(self.ent)), tuple(sorted(map(str, self.val.items()))),
                tuple(sorted(self.thermo)))


def mkarr(c, off=5000):
    return [float(off + 100 * c + 10 * k + i) for k in range(1, NL + 1) for i in range(1, NC + 1)]


def match(s, nm, mode):
    p = s.ent[nm]
    return {"adv": p[3], "nadv": not p[3], "wat": p[4], "advthermo": p[3] and nm in s.thermo}.get(mode, True)


def order(s):
    return sorted(s.ent, key=lambda n: s.idx[n])


def step(s, op):
    """Returns (new state, outcome): 'ok', 'error' (nothing changes), or 'none' (no report); plus copy result."""
    k = op[0]
    n = s.copy()
    if k == "init":
        n = St()
        n.init = True
        return n, "none", None
    if k == "reset":
        return St(), "none", None
    if k == "add":
        if not s.init or s.lt or s.ld:
            return s, "error", None
        p = PROPS[op[1]]
        if p is None:
            return s, "error", None
        if p[0] in s.ent:
            q = s.ent[p[0]]
            if (p[1], p[3], p[4]) == (q[1], q[3], q[4]):
                return s, "ok", None
            return s, "error", None
        n.ent[p[0]] = p
        return n, "ok", None
    if k in ("lockt", "lockt0"):
        if not s.init or s.lt or any("layer" not in p[2] for p in s.ent.values()):
            return s, "error", None
        n.lt = True
        n.minv = {nm: (0.0 if p[6] is None else p[6]) for nm, p in s.ent.items()}
        return n, "ok", None
    if k in ("lockd", "lockd0"):
        if not s.lt or s.ld:
            return s, "error", None
        n.ld = True
        n.amin = None if s.idx is None else [s.minv[nm] for nm in order(s)]
        for nm, p in s.ent.items():
            n.val[nm] = [HUGE if p[5] is None else p[5]] * (NC * NL)
        return n, "ok", None
    if k == "fill":
        if s.ld:
            for i, nm in enumerate(order(s)):
                n.val[nm] = mkarr(i + 1, 1000)
        return n, "none", None
    if k == "thermo":
        if s.lt and s.ent:
            o = order(s)
            n.thermo |= {o[0], o[-1]}
            n.minv[o[0]] = 9.5
        return n, "none", None
    if k in ("in", "out"):
        if not (s.lt and s.ld):
            return s, "qerror", None
        ms = [nm for nm in order(s) if match(s, nm, op[1])]
        if op[1] == "bad":
            return (s, "error", None) if ms else (s, "ok", [])
        lim = 1 if op[1] == "small" else 6
        bad = len(ms) > lim
        if k == "in":
            return s, "error" if bad else "ok", [s.val[nm] for nm in ms]
        for i, nm in enumerate(ms[:lim]):
            n.val[nm] = mkarr(i + 1)
        return n, "error" if bad else "ok", None
    raise KeyError(k)


def fv(toks):
    return [HUGE if t == "HUGE" else float(t) for t in toks]


def compare(s, op, out, res, lines):
    """Compare the observation with the model (learning the index order when the table is locked)."""
    e = [x for x in lines if x.startswith("E ")]
    if not e or lines[-1] != "Z":
        return "the program ended: %s" % lines[-3:]
    t = e[0].split()
    if "0" in op[0] or (op[0] == "add" and len(op) > 2):
        pass
    elif out == "ok" and t[1] != "0":
        return "error reported (%s) although the operation is possible" % e[0]
    elif out == "error" and t[1] in ("0", "none"):
        return "no error reported (%s)" % e[0]
    elif out == "qerror" and t[1] == "0" and t[2] == "F":
        return "neither error code nor message reported (%s)" % e[0]
    got = {}
    for x in lines:
        got.setdefault(x.split()[0], []).append(x)
    b = "FT"
    want = "O " + b[s.lt and s.ld] + b[s.lt] + b[s.ld] + b[s.init and not s.lt and not s.ld]
    if not got["O"][0].startswith(want):
        return "locked/table locked/data locked/may add: expected '%s', got '%s'" % (want, got["O"][0])
    if (got["O"][0].split()[2] == "T") != (not (s.init and not s.lt and not s.ld)):
        return "okay_to_add result and error code disagree: %s" % got["O"][0]
    ents = s.ent
    if s.lt:
        n = [sum(1 for nm in ents if match(s, nm, m)) for m in ("all", "adv", "nadv", "wat", "advthermo")]
        want = "N " + " ".join(map(str, n))
        if not got["N"][0].startswith(want + " "):
            return "counts: expected '%s' got '%s'" % (want, got["N"][0])
        nl = sum(1 for p in ents.values() if "layer" in p[2])
        if got["V"][0] != "V %d %d" % (nl, n[1]):
            return "layer and advected counts: %s" % got["V"][0]
    elif not got["N"][0].startswith("N 0 0 0 0 0 T"):
        return "a count of an unlocked registry was answered: %s" % got["N"][0]
    if len(got["K"]) != len(NAMES):
        return "queries did not complete"
    idx = {}
    for nm, x, m in zip(NAMES, got["K"], got["M"]):
        v, er = int(x.split()[1]), x.split()[2]
        if s.lt and nm in ents:
            idx[nm] = v
            if m.split(None, 2)[1:] != ["F", ents[nm][1]]:
                return "metadata of %s: %s" % (nm, m)
        else:
            if v > 0:
                return "index %d for absent or unlocked %s" % (v, nm)
            if m.split()[1] != "T":
                return "metadata of absent or unlocked %s: %s" % (nm, m)
            if not s.lt and er != "T":
                return "index query of an unlocked registry reports nothing"
    if s.lt:
        if sorted(idx.values()) != list(range(1, len(ents) + 1)):
            return "indices are not 1..%d: %s" % (len(ents), idx)
        na = sum(1 for p in ents.values() if p[3])
        for nm, v in idx.items():
            if (v <= na) != bool(ents[nm][3]):
                return "advected constituents are not first: %s" % idx
        if s.idx is None:
            s.idx = idx
        elif s.idx != idx:
            return "indices changed: %s to %s" % (s.idx, idx)
        if got.get("P") != ["P %d" % len(ents)]:
            return "property list: %s" % got.get("P")
        for i, (q, qv) in enumerate(zip(got.get("Q", []), got.get("Qv", []))):
            nm = order(s)[i]
            if q != "Q %s %d %s" % (nm, i + 1, b[ents[nm][3]]):
                return "property %d: expected %s got %s" % (i + 1, nm, q)
            de = HUGE if ents[nm][5] is None else ents[nm][5]
            if fv(qv.split()[1:]) != [de, s.minv[nm]]:
                return "default and minimum of %s: %s" % (nm, qv)
    elif "P" in got:
        return "property list of an unlocked registry"
    if s.ld:
        if s.amin is None:
            s.amin = [s.minv[nm] for nm in order(s)]
        if got.get("F") != ["F %d %d %d" % (NC, NL, len(ents))]:
            return "data shape %s" % got.get("F")
        for nm, x in zip(order(s), got.get("Fv", [])):
            if fv(x.split()[1:]) != s.val[nm]:
                return "data of %s: expected %s got %s" % (nm, s.val[nm], x)
        na = sum(1 for p in ents.values() if p[3])
        if got.get("G") != ["G %d %d %d" % (NC, NL, na)]:
            return "advected data shape %s" % got.get("G")
        if fv(got["T"][0].split()[1:]) != [0.0, float(NC * NL * len(ents))]:
            return "tendencies %s" % got["T"]
        if fv(got["I"][0].split()[1:]) != s.amin:
            return "minimum values: expected %s got %s" % (s.amin, got["I"])
    elif "F" in got:
        return "data pointer of an unlocked registry"
    if op[0] == "in" and res is not None and out == "ok":
        rv = [fv(x.split()[1:]) for x in got.get("Rv", [])]
        if rv[:len(res)] != res:
            return "copied values: expected %s got %s" % (res, rv)
    return None


def build(d, txt, name="drv"):
    with open(os.path.join(d, name + ".F90"), "w") as fh:
        fh.write(txt)
    with open(os.path.join(d, "ccpp_kinds.F90"), "w") as fh:
        fh.write("module ccpp_kinds\n use iso_fortran_env, only: kind_phys => real64\n implicit none\n private\n"
                 " public kind_phys\nend module ccpp_kinds\n")
    src = os.path.join(mc.REPO, "src")
    return mc.run(["gfortran", "-O0", "-fcheck=bounds,pointer,mem", "-w", "-ffree-line-length-none", "-o", name,
                   "ccpp_kinds.F90"] + [os.path.join(src, x) for x in (
                       "ccpp_hashable.F90", "ccpp_hash_table.F90", "ccpp_constituent_prop_mod.F90")] +
                  [name + ".F90"], cwd=d)


def text(op):
    return " ".join(map(str, op))


def work(arg):
    label, d, ops, pre, depth = arg
    viol, edges = [], set()
    states = {0: St()}

    def on_node(path, lines, died):
        full = list(pre) + path
        s = states[len(path) - 1]
        if s is None:            # the model stopped at a violation above: do not report consequences
            states[len(path)] = None
            return
        op = ops[path[-1] - 1]
        new, out, res = step(s, op)
        new = new.copy()
        edges.add((s.key(), path[-1]))
        what = "the program died: %s" % lines[-3:] if died and "Z" not in lines else compare(new, op, out, res, lines)
        states[len(path)] = new
        if what:
            states[len(path)] = None
            if len(viol) < 6:
                viol.append(("%s: %s" % (label, "; ".join(text(ops[k - 1]) for k in full)), what))
    try:
        s = St()
        if pre:
            # learn the index order from the observations of the prefix
            rc, txt = mc.run([os.path.join(d, "drv")], cwd=d, timeout=60,
                             inp="%d %s 0\n" % (len(pre), " ".join(map(str, pre))))
            blocks, cur = [], []
            for ln in txt.splitlines():
                cur.append(ln)
                if ln == "Z":
                    blocks.append(cur)
                    cur = []
            for k, bl in zip(pre, blocks):
                s, out, res = step(s, ops[k - 1])
                s = s.copy()
                what = compare(s, ops[k - 1], out, res, bl)
                if what:
                    return [("%s: %s" % (label, "; ".join(text(ops[k - 1]) for k in pre)), what)], len(pre), edges
            if len(blocks) < len(pre):
                return [("%s: %s" % (label, "; ".join(text(ops[k - 1]) for k in pre)),
                         "the program died: %s" % txt[-300:])], len(pre), edges
        states[0] = s
        n, pl, rc = forkdfs.walk(os.path.join(d, "drv"), d, "%d %s %d\n" % (len(pre), " ".join(map(str, pre)), depth),
                                 on_node, timeout=800)
    except Exception as e:  # noqa
        return [("%s prefix %s" % (label, pre), "did not finish: %s" % str(e)[:300])], 0, edges
    exp = sum(len(ops) ** k for k in range(1, depth + 1))
    if n != exp and not viol:
        viol.append(("%s prefix %s" % (label, pre), "explored %d of %d: %s" % (n, exp, pl[-5:])))
    return viol, n, edges


# ---- one constituent property object -------------------------------------------------------------------
# standard name, units, vertical dimension, advected, default, min, molar, water, mixing ratio type
OBJ = {
    "full": ("qv_wrt_moist_air", "kg kg-1", "vertical_layer_dimension", True, 1.5, 0.25, 18.0, True, None),
    "bare": ("o3_volume_mixing_ratio", "mol mol-1", "vertical_interface_dimension", None, None, None, None, None, None),
    "wet": ("n_number_concentration_wrt_moist_air_and_condensed_water", "m-3", "", False, None, None, None, None, "wet"),
    "dry": ("qv_wrt_moist_air", "kg kg-1", "vertical_layer_dimension", True, 1.5, 0.25, 18.0, True, "dry"),
    "bad": ("qx", "1", "vertical_layer_dimension", True, 3.5, 0.75, 28.0, True, "soggy"),
}
OBJ_OPS = [("inst", "p", k) for k in OBJ] + [("inst", "q", k) for k in ("full", "bare")] + \
    [("dealloc", "p"), ("copy",), ("setmin",), ("setthermo",), ("setwater",), ("setmolar",), ("setidx",),
     ("point",), ("pmin",), ("pthermo",), ("pwater",), ("pmolar",), ("pidx",)]

OBJ_DRV = """program drv
  use, intrinsic :: iso_c_binding
  use ccpp_kinds
  use ccpp_constituent_prop_mod
  implicit none
%(ifc)s
  type(ccpp_constituent_properties_t), pointer :: p
  type(ccpp_constituent_properties_t), target :: q
  type(ccpp_constituent_prop_ptr_t) :: t
  integer :: npre, i, dmax, pre(64)
  allocate(p)
  read(5,*) npre, (pre(i),i=1,npre), dmax
  do i=1,npre
    call do_op(pre(i))
  end do
  write(6,'(a)') 'P end'
  call dfs(1, dmax, %(n)d)
  flush(6)
contains
%(body)s
  subroutine do_op(op)
    integer, intent(in) :: op
    integer :: ec
    character(len=512) :: em
    ec = -1; em = 'junk'
    select case(op)
%(cases)s
    end select
    write(6,'(a,i0,1x,l1)') 'E ', ec, len_trim(em) > 0 .and. trim(em) /= 'junk'
    call look('p', p)
    call look('q', q)
    call lookt()
    write(6,'(a)') 'Z'
  end subroutine do_op
  subroutine look(nm, c)
    character(len=*), intent(in) :: nm
    type(ccpp_constituent_properties_t), intent(in) :: c
    character(len=80) :: s(4)
    logical :: l(10), e(18), f(3)
    real(kind_phys) :: r(3)
    integer :: ec, ix
    character(len=200) :: em
    %(calls)s
    ec = -1; ix = c%%const_index(errcode=ec, errmsg=em); e(18) = ec /= 0
    f(1) = c%%is_layer_var(); f(2) = c%%is_interface_var(); f(3) = c%%is_2d_var()
    call put(nm, s, l, r, ix, f, any(e), all(e))
    ec = -1; call p%%equivalent(q, l(1), ec, em)
    write(6,'(a,l1,1x,l1)') '=', l(1), ec /= 0
    ec = -1; call q%%equivalent(p, l(1), ec, em)
    write(6,'(a,l1,1x,l1)') '=', l(1), ec /= 0
  end subroutine look
  subroutine put(nm, s, l, r, ix, f, e1, e2)
    character(len=*), intent(in) :: nm, s(4)
    logical, intent(in) :: l(10), f(3), e1, e2
    real(kind_phys), intent(in) :: r(3)
    integer, intent(in) :: ix
    integer :: j
    write(6,'(a,4(1x,3a),1x,10l1,1x,3l1,1x,2l1,1x,i0)',advance='no') nm, ('[',trim(s(j)),']',j=1,4), l, f, e1, e2, ix
    do j = 1, 3
      if (r(j) == huge(1.0_kind_phys)) then
        write(6,'(a)',advance='no') ' HUGE'
      else
        write(6,'(1x,f0.3)',advance='no') r(j)
      end if
    end do
    write(6,'(a)') ''
  end subroutine put
  subroutine lookt()
    character(len=80) :: s(4)
    logical :: l(10), e(18), f(3)
    real(kind_phys) :: r(3)
    integer :: ec, ix
    character(len=200) :: em
    %(tcalls)s
    ec = -1; call t%%const_index(ix, errcode=ec, errmsg=em); e(18) = ec /= 0
    f(1) = t%%is_layer_var(); f(2) = t%%is_interface_var(); f(3) = t%%is_2d_var()
    call put('t', s, l, r, ix, f, any(e), all(e))
  end subroutine lookt
end program drv
"""
STRQ = ["standard_name", "long_name", "units", "vertical_dimension"]
LOGQ = ["is_advected", "is_thermo_active", "is_water_species", "is_mass_mixing_ratio", "is_volume_mixing_ratio",
        "is_number_concentration", "is_dry", "is_moist", "is_wet", "has_default"]
REALQ = ["minimum", "molar_mass", "default_value"]


def queries(v):
    L, n = [], 0
    for arr, qs, junk in (("s", STRQ, "'?'"), ("l", LOGQ, ".true."), ("r", REALQ, "-9._kind_phys")):
        for i, m in enumerate(qs):
            n += 1
            L.append("%s(%d) = %s; ec = -1; call %s%%%s(%s(%d), ec, em); e(%d) = ec /= 0" % (
                arr, i + 1, junk, v, m, arr, i + 1, n))
    return "\n    ".join(L)


def obj_driver():
    cs = []
    ec = "errcode=ec, errmsg=em"
    for i, op in enumerate(OBJ_OPS):
        cs.append("    case(%d)" % (i + 1))
        k = op[0]
        if k == "inst":
            nm, un, vd, adv, de, mn, mo, wa, mx = OBJ[op[2]]
            a = ["'%s'" % nm, "'long %s'" % nm, "'%s'" % un, "'%s'" % vd]
            for kw, x in (("advected", adv), ("water_species", wa)):
                if x is not None:
                    a.append("%s=.%s." % (kw, str(x).lower()))
            for kw, x in (("default_value", de), ("min_value", mn), ("molar_mass", mo)):
                if x is not None:
                    a.append("%s=%s" % (kw, f(x)))
            if mx:
                a.append("mixing_ratio_type='%s'" % mx)
            cs.append("      call %s%%instantiate(%s, &\n        %s)" % (op[1], ", &\n        ".join(a), ec))
        elif k == "dealloc":
            cs.append("      call p%deallocate(); ec = 0; em = ''")
        elif k == "copy":
            cs.append("      q = p; ec = 0; em = ''")
        elif k == "point":
            cs.append("      call t%%set(p, %s)" % ec)
        else:
            o = {"s": "p", "p": "t"}[k[0]]
            m = k.replace("set", "") if k[0] == "s" else k[1:]
            a = {"min": "minimum(9.5_kind_phys", "thermo": "thermo_active(.true.", "water": "water_species(.true.",
                 "molar": "molar_mass(44.0_kind_phys", "idx": "const_index(%d" % (3 if o == "p" else 4)}[m]
            cs.append("      call %s%%set_%s, %s)" % (o, a, ec))
    return OBJ_DRV % {"ifc": forkdfs.INTERFACES, "n": len(OBJ_OPS), "body": forkdfs.BODY, "cases": "\n".join(cs),
                      "calls": queries("c"), "tcalls": queries("t")}


NIL = ("", "", "", "", "F" * 10, None, HUGE, HUGE, HUGE)


def obj_of(k):
    nm, un, vd, adv, de, mn, mo, wa, mx = OBJ[k]
    ty = "FTF" if "volume_mixing" in nm else "FFT" if "number_conc" in nm else "TFF"
    if mx is None:
        mx = "wet" if "wrt_moist_air_and_cond" in nm else "moist" if "wrt_moist_air" in nm else "dry"
    b = "FT"
    return {"name": nm, "units": un, "vd": vd, "adv": b[bool(adv)], "thermo": "F", "water": b[bool(wa)], "type": ty,
            "dmw": "".join(b[mx == x] for x in ("dry", "moist", "wet")), "def": HUGE if de is None else de,
            "min": mn or 0.0, "molar": HUGE if mo is None else mo, "idx": None}


IDX_NONE = str(-(2 ** 31 - 1))


def obj_line(nm, o):
    """Expected observation of one object (None: not instantiated or null pointer)."""
    def r(x):
        return x if x == HUGE else "%.3f" % x if abs(x) >= 1 else ("%.3f" % x)[1:]
    if o is None:
        return None
    lg = o["adv"] + o["thermo"] + o["water"] + o["type"] + o["dmw"] + ("F" if o["def"] == HUGE else "T")
    fl = "".join("FT"[o["vd"] == x] for x in ("vertical_layer_dimension", "vertical_interface_dimension", ""))
    return "%s [%s] [long %s] [%s] [%s] %s %s FF %s %s %s %s" % (
        nm, o["name"], o["name"], o["units"], o["vd"], lg, fl, IDX_NONE if o["idx"] is None else o["idx"],
        r(o["min"]), r(o["molar"]), r(o["def"]))


def obj_step(s, op):
    """s = (p, q, pointed); returns new state and whether the operation must report an error."""
    p, q, t = s
    k = op[0]
    if k == "inst":
        cur = p if op[1] == "p" else q
        if cur is not None:
            return None, True              # already initialised: what remains is not specified
        if op[2] == "bad":
            return s, True
        o = obj_of(op[2])
        return ((o, q, t) if op[1] == "p" else (p, o, t)), False
    if k == "dealloc":
        return (None, q, t), False
    if k == "copy":
        return (p, p and dict(p), t), False
    if k == "point":
        return (p, q, True), t
    if k[0] == "p" and not t or p is None:
        return s, True
    n = dict(p)
    m = k.replace("set", "") if k[0] == "s" else k[1:]
    if m == "idx":
        if p["idx"] is not None:
            return s, True
        n["idx"] = 3 if k[0] == "s" else 4
    else:
        n[m] = {"min": 9.5, "thermo": "T", "water": "T", "molar": 44.0}[m]
    return (n, q, t), False


def obj_work(arg):
    d, pre, depth = arg
    viol, edges = [], set()
    s = (None, None, False)
    for k in pre:
        if OBJ_OPS[k - 1][0] == "copy" and s[0] is None:
            return [], 0, edges
        s = obj_step(s, OBJ_OPS[k - 1])[0]
        if s is None:
            return [], 0, edges
    states = {0: s}
    lost = [0]                                     # below an unspecified operation that ended the program

    def on_node(path, lines, died):
        s = states[len(path) - 1]
        states[len(path)] = None
        if died and (s is None or OBJ_OPS[path[-1] - 1][0] == "copy" and s[0] is None):
            lost[0] += sum(len(OBJ_OPS) ** k for k in range(1, depth - len(path) + 1))
        if s is None:
            return
        op = OBJ_OPS[path[-1] - 1]
        if op[0] == "copy" and s[0] is None:
            return                                  # copying nothing is not specified
        new, err = obj_step(s, op)
        edges.add((repr(s), path[-1]))
        what = None
        if died or not lines or lines[-1] != "Z":
            what = "the program died: %s" % lines[-3:]
        else:
            e = lines[0].split()
            if err and e[1] == "0":
                what = "no error reported"
            elif not err and e[1] != "0":
                what = "error reported: %s" % lines[0]
        if what is None and new is None:
            new = None
        elif what is None:
            p, q, t = new
            for nm, o, x in zip("pqt", (p, q, p if t else None), [ln for ln in lines[1:] if ln[:2] in ("p ", "q ", "t ")]):
                w = obj_line(nm, o)
                if w is None:
                    tk = x.split()
                    want = "%s [] [] [] [] FFFFFFFFFF" % nm
                    if not x.startswith(want) or tk[7] != "TT" or tk[8] != IDX_NONE or tk[9:] != [HUGE] * 3:
                        what = "queries of an uninstantiated object: %s" % x
                elif w != x:
                    what = "expected '%s' got '%s'" % (w, x)
            eqs = [x for x in lines if x[0] == "="]
            if p is None or q is None:
                if any(x != "=F T" for x in eqs):
                    what = what or "comparing an uninstantiated object: %s" % eqs
            else:
                same = all(p[k] == q[k] for k in p if k not in ("idx", "type"))
                if any(x != "=%s F" % "FT"[same] for x in eqs):
                    what = what or "equivalent: expected %s got %s" % (same, eqs)
        if what:
            if len(viol) < 6:
                viol.append(("object: %s" % "; ".join(text(OBJ_OPS[k - 1]) for k in list(pre) + path), what))
        else:
            states[len(path)] = new
    try:
        n, pl, rc = forkdfs.walk(os.path.join(d, "drv"), d, "%d %s %d\n" % (len(pre), " ".join(map(str, pre)), depth),
                                 on_node, timeout=800)
    except Exception as e:  # noqa
        return [("object prefix %s" % (pre,), "did not finish: %s" % str(e)[:300])], 0, edges
    exp = sum(len(OBJ_OPS) ** k for k in range(1, depth + 1))
    if n + lost[0] != exp and not viol:
        viol.append(("object prefix %s" % (pre,), "explored %d of %d" % (n, exp)))
    return viol, n, edges


def main():
    ck = mc.Check("C09", "model_checking")
    q = ck.quick
    meta = [("init", 4), ("init", 0)] + [("add", x) for x in ("A", "B", "A=", "Aa", "P", "U")] + \
        [("lockt",), ("lockd",), ("reset",)]
    meta2 = [("init", 1)] + [("add", x) for x in ("A", "C", "D", "Au", "Aw")] + [("lockt",), ("lockd",), ("reset",)]
    quiet = [("init", 3), ("add", "A", 0), ("add", "B"), ("lockt0",), ("lockd0",), ("reset",)]
    data = [("init", 4)] + [("add", x) for x in "ABCD"] + \
        [("lockt",), ("lockd",), ("fill",), ("thermo",), ("reset",)] + \
        [(k, m) for k in ("in", "out") for m in ("all", "adv", "wat", "bad", "small")] + [("in", "nadv"), ("out", "advthermo")]
    pd = [(1,), (1, 2, 6, 7), (1, 2, 3, 4, 5, 6, 7), (1, 3, 2, 5, 4, 6, 7), (1, 3, 4, 6, 7), (1, 5, 2, 6, 7), (1, 6, 7)]
    jobs = []
    for label, ops, pres, depth in [
            ("meta", meta, [()], 5 if q else 6), ("meta2", meta2, [(), (1, 2, 3, 4)], 5 if q else 6),
            ("quiet", quiet, [()], 5 if q else 7), ("data", data, pd, 3 if q else 4)]:
        d = mc.newdir("c09")
        rc, txt = build(d, driver(ops))
        if rc:
            ck.violation("%s compile" % label, txt[:1500])
            continue
        for p in pres:
            jobs.append((label, d, ops, p, 1))
            jobs += [(label, d, ops, p + (k,), depth - 1) for k in range(1, len(ops) + 1)]
    nodes, edges = 0, set()
    for j, (viol, n, e) in zip(jobs, mc.pmap(work, jobs)):
        nodes += n
        ck.outcome(j[0], n)
        edges |= set((j[0], s, k) for s, k in e)
        for key, what in viol:
            ck.violation(key, what)
    d = mc.newdir("c09")
    rc, txt = build(d, obj_driver())
    if rc:
        ck.violation("object compile", txt[:1500])
    else:
        n1 = len(OBJ_OPS)
        pres = [()] + [(a,) for a in range(1, n1 + 1)] if q else [()] + [(a, b) for a in range(1, n1 + 1) for b in range(1, n1 + 1)]
        jobs = [(d, p, (1 if q else 2) if not p else 3) for p in pres]
        for j, (viol, n, e) in zip(jobs, mc.pmap(obj_work, jobs)):
            nodes += n
            ck.outcome("object", n)
            edges |= set(("object", s, k) for s, k in e)
            for key, what in viol:
                ck.violation(key, what)
    ck.sample("init 4; add A; add B; lockt; lockd; fill; copy in advected")
    ck.finish(states=len(set((a, b) for a, b, _ in edges)), transitions=len(edges), exhaustive=True,
              traces_validated_against_impl=nodes)


main()
