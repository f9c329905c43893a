"""C22: unit conversions are physically right and mutually inverse.

All ordered pairs of a table of unit spellings whose physical meaning is stated here independently, for every combination
of kinds: acceptance is symmetric and never joins different quantities, and every accepted pair is generated, compiled and
executed by both generators (capgen and prebuild) on a set of values, as scalar and as array, and compared with the
physical conversion in the precision of the kind."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V, Scheme, HostMod, Case, driver, err_vars, suite_xml, dim_var

PI = 3.14159265358979323846
# unit -> (quantity, scale, offset): value in the base unit = value*scale + offset
U = {"m": ("length", 1., 0.), "mm": ("length", 1e-3, 0.), "cm": ("length", 1e-2, 0.), "um": ("length", 1e-6, 0.),
     "km": ("length", 1e3, 0.), "dm": ("length", 1e-1, 0.), "nm": ("length", 1e-9, 0.),
     "s": ("time", 1., 0.), "min": ("time", 60., 0.), "h": ("time", 3600., 0.), "d": ("time", 86400., 0.),
     "K": ("temperature", 1., 0.), "C": ("temperature", 1., 273.15),
     "kg kg-1": ("mixing", 1., 0.), "g kg-1": ("mixing", 1e-3, 0.), "mg kg-1": ("mixing", 1e-6, 0.),
     "radian": ("angle", 1., 0.), "degree": ("angle", PI / 180, 0.), "degree_north": ("angle", PI / 180, 0.),
     "degree_east": ("angle", PI / 180, 0.), "Pa": ("pressure", 1., 0.), "hPa": ("pressure", 100., 0.),
     "kPa": ("pressure", 1000., 0.), "m s-1": ("speed", 1., 0.), "km h-1": ("speed", 1 / 3.6, 0.),
     "W m-2": ("flux", 1., 0.), "erg cm-2 s-1": ("flux", 1e-3, 0.), "kg": ("mass", 1., 0.), "g": ("mass", 1e-3, 0.),
     "J": ("energy", 1., 0.), "m2": ("area", 1., 0.), "m-1": ("1/length", 1., 0.), "s-1": ("1/time", 1., 0.),
     "kg m-3": ("density", 1., 0.), "Pa s-1": ("pressure rate", 1., 0.), "1": ("number", 1., 0.),
     "kg kg-1 s-1": ("mixing rate", 1., 0.), "g kg-1 s-1": ("mixing rate", 1e-3, 0.), "K s-1": ("temperature rate", 1., 0.)}
# conversions the framework provides, as documented in its unit conversion module
PROVIDED = [("mm", "m"), ("cm", "m"), ("um", "m"), ("m", "km"), ("mm", "km"), ("s", "min"), ("s", "h"), ("h", "d"), ("s", "d"),
            ("K", "C"), ("kg kg-1", "g kg-1"), ("radian", "degree"), ("radian", "degree_north"), ("radian", "degree_east"),
            ("Pa", "hPa"), ("m s-1", "km h-1"), ("W m-2", "erg cm-2 s-1")]
VALS = [0., 1., -40., 273.15, 1e-3, 98765.4321]


def conv(x, a, b):
    return (x * U[a][1] + U[a][2] - U[b][2]) / U[b][1]


def near(x, y, kind, mag):
    tol = 2e-6 if kind == "r4" else 1e-10
    return abs(x - y) <= tol * max(abs(y), mag)


KN = {"r8": "kind_phys", "r4": "kind_r4", "dp": ""}


def accepted_capgen(pairs):
    """Which pairs does the compatibility judgement accept (forked: one process per batch)."""
    from metavar import Var
    from parse_tools import ParseContext, ParseSource, init_log, set_log_to_null, CCPPError, ParseSyntaxError
    from framework_env import CCPPFrameworkEnv
    log = init_log("mc22")
    set_log_to_null(log)
    env = CCPPFrameworkEnv(log, ndict={"host_files": "", "scheme_files": "", "suites": ""},
                           kind_types=["kind_phys=REAL64", "kind_r4=REAL32"])
    out = []
    for a, b in pairs:
        try:
            vs = [Var({"local_name": "x", "standard_name": "mc_x", "units": u, "dimensions": "()", "type": "real", "kind": "kind_phys",
                       **x}, ParseSource("mc", t, ParseContext(linenum=1, filename="mc")), env)
                  for u, t, x in ((a, "module", {}), (b, "scheme", {"intent": "in"}))]
            c = vs[0].compatible(vs[1], env)
            out.append(("yes" if c.compat else "no", ""))
        except (CCPPError, ParseSyntaxError) as exc:
            out.append(("no", str(exc)))
        except Exception as exc:   # pylint: disable=broad-except
            out.append(("error", "%s: %s" % (type(exc).__name__, exc)))
    return out


def accepted_prebuild(pairs):
    import logging
    logging.disable(logging.CRITICAL)
    import mkcap
    out = []
    for a, b in pairs:
        try:
            v = mkcap.Var(standard_name="mc_x", long_name="x", units=a, local_name="x", type="real", dimensions=[], rank="",
                          kind="kind_phys", intent="inout", active="T", container="MODULE_m", optional="F")
            v.convert_to(b)
            v.convert_from(b)
            out.append(("yes", ""))
        except Exception as exc:   # pylint: disable=broad-except
            out.append(("no" if "not implemented" in str(exc) else "error", "%s: %s" % (type(exc).__name__, exc)))
    return out


def quantities(pairs, kinds):
    return [(i, a, b, k1, k2) for i, ((a, b), (k1, k2)) in enumerate(itertools.product(pairs, kinds))]


def body(n, rank):
    x = "x%d" % n
    if rank:
        return ["do i = 1, size(%s)" % x, "write(6,*) 'S %d ', i, real(%s(i), kind=8)" % (n, x), "end do", "%s = 1.5_8*%s + 1" % (x, x)]
    return ["write(6,*) 'S %d 0', real(%s, kind=8)" % (n, x), "%s = 1.5_8*%s + 1" % (x, x)]


def host_init(qs):
    L = []
    for n, *_ in qs:
        L += ["h%d = [%s]" % (n, ", ".join("%r_8" % v for v in VALS)), "g%d = %r_8" % (n, VALS[n % len(VALS)])]
    return L


def host_show(qs):
    return ["do i = 1, %d\n%s\nend do" % (len(VALS), "\n".join("write(6,*) 'H %d ', i, real(h%d(i), kind=8)" % (n, n) for n, *_ in qs))] + \
        ["write(6,*) 'H %d 0', real(g%d, kind=8)" % (n + 10000, n) for n, *_ in qs]


def make_vars(qs, kind_of):
    hv, sv, b = [], [], []
    for n, a, u, k1, k2 in qs:
        t = "double precision" if k1 == "dp" else "real"
        hv += [V("h%d" % n, "mc_array_%d" % n, t, kind_of(k1), a, ("horizontal_dimension",), fdims="%d" % len(VALS)),
               V("g%d" % n, "mc_scalar_%d" % n, t, kind_of(k1), a)]
        sv += [V("x%d" % n, "mc_array_%d" % n, t, kind_of(k2), u, ("horizontal_loop_extent",), "inout"),
               V("x%d" % (n + 10000), "mc_scalar_%d" % n, t, kind_of(k2), u, (), "inout")]
        b += body(n, 1) + body(n + 10000, 0)
    return hv, sv, b


def judge(qs, txt):
    bad = {}
    got = {}
    for line in txt.splitlines():
        w = line.split()
        if len(w) == 4 and w[0] in "SH":
            got[w[0], int(w[1]), int(w[2])] = float(w[3])
    for q in qs:
        n, a, b, k1, k2 = q
        low = "r4" if "r4" in (k1, k2) or "" in (k1, k2) else "r8"
        for arr in (1, 0):
            for i in range(1, len(VALS) + 1) if arr else (0,):
                h = VALS[i - 1] if arr else VALS[n % len(VALS)]
                m = n if arr else n + 10000
                s = conv(h, a, b)
                r = conv(1.5 * s + 1, b, a)
                ms = max(abs(U[b][2]), abs(U[a][2]))
                for tag, want, mag in (("S", s, ms / U[b][1]), ("H", r, (ms + U[b][1]) / U[a][1])):
                    x = got.get((tag, m, i))
                    if x is None or not near(x, want, low, mag):
                        bad.setdefault(q, "%s %r %s: the %s gets %r instead of %r" % (
                            "element" if arr else "scalar", h, a, "scheme" if tag == "S" else "host (after x = 1.5*x + 1)", x, want))
    return bad


def run_capgen(qs):
    d = mc.newdir("c22")
    try:
        hv, sv, b = make_vars(qs, lambda k: KN[k])
        hm = HostMod("hm", [V("ncols", "horizontal_dimension", "integer", "", "count")] + hv)
        sc = Scheme("sa", {"run": (err_vars() + [dim_var("nh", "horizontal_loop_extent")] + sv, b, ["integer :: i"])},
                    uses=["ccpp_kinds, only: kind_r4"])
        c = Case(mods=[hm], schemes=[sc], suites=[("su", suite_xml("su", "<group name='g'><scheme>sa</scheme></group>"))],
                 kinds=("kind_phys=REAL64", "kind_r4=REAL32"))
        c.write(d)
        st, txt = c.generate()
        if st != "ok":
            return {None: "capgen refuses: %s %s" % (st, txt[-600:])}
        ok, txt = c.compile(driver(c.host, uses="use hm", decls="integer :: i",
                                   init="\n".join(["ncols = %d" % len(VALS)] + host_init(qs)),
                                   ops="case('show')\n" + "\n".join(host_show(qs))))
        if not ok:
            return {None: "does not compile: " + txt[:900]}
        n = len(VALS)
        rc, txt = c.execute("register su x 0 0\ninit su x 0 0\ntimestep_init su x 0 0\nrun su g 1 %d\nshow\nquit\n" % n)
        return judge(qs, txt)
    finally:
        mc.rmdir(d)


def run_prebuild(qs):
    d = mc.newdir("p22")
    try:
        hv, sv, b = make_vars(qs, lambda k: {"r8": "kind_phys", "r4": "kind_other"}[k])
        hm = HostMod("hm", [pb.CDATA, V("ncols", "horizontal_loop_extent", "integer", "", "count")] + hv)
        hm.uses = ["ccpp_types, only: ccpp_t"]
        for v in hm.vs:
            v.dims = ["horizontal_loop_extent"] if v.dims else []
        sc = Scheme("sa", {"run": (err_vars() + [dim_var("nh", "horizontal_loop_extent")] + sv, b, ["integer :: i"])},
                    uses=["ccpp_kinds, only: kind_other"])
        c = pb.PCase(mods=[hm], schemes=[sc], suites=[("su", pb.sdf("su", [("g", [(1, ["sa"])])]))])
        c.write(d)
        rc, txt = c.generate()
        if rc != "ok":
            return {None: "prebuild refuses: %s %s" % (rc, txt[-900:])}
        drv = "program drv\nuse hm\nuse ccpp_static_api\nimplicit none\ninteger :: i, ierr\n" + \
            "ncols = %d\n" % len(VALS) + "\n".join(host_init(qs)) + \
            "\ncdata%blk_no = 1; cdata%thrd_no = 1; cdata%ccpp_instance = 1\ncdata%thrd_cnt = 1\n" + \
            "call ccpp_physics_init(cdata, suite_name='su', ierr=ierr)\n" + \
            "call ccpp_physics_run(cdata, suite_name='su', ierr=ierr)\nwrite(6,*) 'E', ierr, trim(cdata%errmsg)\n" + \
            "\n".join(host_show(qs)) + "\nend program drv\n"
        ok, txt = c.compile(drv)
        if not ok:
            return {None: "does not compile: " + txt[:1500]}
        rc, txt = c.execute("")
        return judge(qs, txt)
    finally:
        mc.rmdir(d)


def main():
    ck = mc.Check("C22", "exploration")
    cg.preload()
    pairs = list(itertools.permutations(U, 2))
    provided = set(PROVIDED) | {(b, a) for a, b in PROVIDED}
    todo = {}
    for tool, fn in (("capgen", accepted_capgen), ("prebuild", accepted_prebuild)):
        res = {}
        parts = list(mc.chunks(pairs, 200))
        for part, r in zip(parts, mc.pmap(fn, parts)):
            res.update(zip(part, r))
        for (a, b), (st, why) in res.items():
            ck.outcome("%s %s" % (tool, st))
            key = "%s %s -> %s" % (tool, a, b)
            if st == "error":
                ck.violation(key, "fails: %s" % why)
            elif st == "no" and (a, b) in provided:
                ck.violation(key, "the conversion is not found: %s" % why)
            elif st == "yes" and U[a][0] != U[b][0]:
                ck.violation(key, "accepted, but the units denote different quantities")
            elif st == "yes" and res[b, a][0] != "yes":
                ck.violation(key, "accepted, but not the opposite conversion")
        todo[tool] = [p for p in pairs if res[p][0] == "yes" and U[p[0]][0] == U[p[1]][0] and res[p[::-1]][0] == "yes"]
    n = 0
    kc = [("r8", "r8"), ("r4", "r4"), ("r8", "r4"), ("r4", "r8"), ("dp", "dp")]
    jobs = []
    for k in kc:
        jobs += [("capgen", run_capgen, quantities(todo["capgen"], [k])[i:i + 24]) for i in range(0, len(todo["capgen"]), 24)]
    for k in kc[:2]:
        jobs += [("prebuild", run_prebuild, quantities(todo["prebuild"], [k])[i:i + 24]) for i in range(0, len(todo["prebuild"]), 24)]

    def alone(job, bad):
        if None in bad and len(job[2]) > 1:
            out = {}
            for q, r in zip(job[2], mc.pmap(go, [(job[0], job[1], [q]) for q in job[2]])):
                out.update({q: w for w in r.values()})
            return out or bad
        return bad
    for job, bad in zip(jobs, mc.pmap(go, jobs)):
        n += len(job[2])
        for q, w in alone(job, bad).items():
            if q is None:
                q = job[2][0]
            ck.violation("%s %s -> %s kinds %s %s" % (job[0], q[1], q[2], q[3] or "default", q[4] or "default"), w)
    ck.sample("K -> C with kinds r8 r4")
    ck.finish(evaluations=2 * len(pairs) + n * 2 * (len(VALS) + 1), distinct_nontrivial=n, exhaustive=True,
              rule="accepted ordered unit pairs x kinds x generator, executed")


def go(job):
    return job[1](job[2])


if __name__ == "__main__":
    main()
