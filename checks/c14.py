"""C14: generated output is a function of the input only.

Every iteration over a set and every directory listing made by the tools is a choice point under the control of the
check.  For each configuration all single deviations from the base order are explored (every permutation of up to three
elements, four orders of larger sets; all pairs of deviations in the thorough tier), the tool is run on each and the
output files and reports are compared byte for byte; the same configurations are then run in fresh interpreters under
several hash seeds, working directories and earlier output contents."""
import contextlib
import io
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import setord
import mc
setord.install(mc.SCRIPTS)
import cg
import pb
from cg import V, Scheme, HostMod, Case, err_vars, suite_xml

HOR = ("horizontal_loop_extent",)
HDIM = ("horizontal_dimension",)


def rv(local, std, units="K", dims=HOR, intent="in", **kw):
    return V(local, std, "real", "kind_phys", units, dims, intent, **kw)


# ---------------------------------------------------------------- capgen configurations
def cap_base(rich=True):
    """Several derived types from different modules, suite-owned arrays, unit conversions, optional arguments,
    constituents, dependencies, variable loop counts, several suites and groups."""
    ddts = []
    mods = []
    for n in ("aa", "bb", "cc"):
        mods.append(HostMod("mod_" + n, [V("inst_" + n, "instance_" + n, "ty_" + n, "", "DDT")],
                            ddts=[("ty_" + n, [V("x" + n, "x_" + n, "real", "kind_phys", "K", HDIM, fdims="10"),
                                               V("y" + n, "y_" + n, "real", "kind_other", "m", HDIM, fdims="10")])]))
    host = HostMod("hd", [V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                          V("nsub", "count_of_sub", "integer", "", "count"),
                          V("flga", "flag_a", "logical", "", "flag"), V("flgb", "flag_b", "logical", "", "flag"),
                          V("ta", "t_a", "real", "kind_phys", "K", HDIM, fdims="10", active="(flag_a)"),
                          V("tb", "t_b", "real", "kind_phys", "K", HDIM, fdims="10", active="(flag_b .and. flag_a)"),
                          V("tc", "t_c", "real", "kind_phys", "Pa", HDIM, fdims="10")])
    e = err_vars
    s1 = Scheme("s_one", {
        "init": (e() + [V("d%d" % i, "own_" + n, "dt_" + n, "", "DDT", intent="in") for i, n in enumerate(("aa", "bb", "cc"))], []),
        "run": (e() + [cg.dim_var("nc", "horizontal_loop_extent"), rv("ta", "t_a", "C", opt=True, intent="inout"), rv("tb", "t_b", "C", opt=True, intent="inout"),
                       rv("tc", "t_c", "hPa", intent="inout"), rv("o1", "own_one", intent="out"),
                       rv("o2", "own_two", "m", intent="out"), rv("o3", "own_three", "s", intent="out")], [])},
        uses=["amk_aa", "amk_bb", "amk_cc"], meta_extra=["dependencies = zdep.F90, adep.F90, mdep.F90"])
    mk = [Scheme("amk_" + n, {"init": (e() + [V("d", "own_" + n, "dt_" + n, "", "DDT", intent="out")], [])},
                 ddts=[("dt_" + n, [V("m" + n, "member_" + n, "integer", "", "count")])]) for n in ("aa", "bb", "cc")]
    s2 = Scheme("s_two", {
        "run": (e() + [cg.dim_var("nc", "horizontal_loop_extent"), rv("o3", "own_three", "s"), rv("o1", "own_one"), rv("o2", "own_two", "km"),
                       rv("x1", "x_aa"), rv("x2", "x_bb"), rv("x3", "x_cc", "C", intent="inout"),
                       V("y1", "y_aa", "real", "kind_phys", "m", HOR, "inout"),
                       rv("q1", "spec_one", "kg kg-1", advected="True", intent="inout", constituent="True"),
                       rv("q2", "spec_two", "kg kg-1", constituent="True", intent="inout"),
                       rv("qt1", "tendency_of_spec_one", "kg kg-1 s-1", constituent="True", intent="out"),
                       ], []),
        "final": (e(), [])}, meta_extra=["dependencies = zdep.F90, bdep.F90"])
    # constituents have a vertical dimension
    for v in s2.phases["run"][0]:
        if v.std.endswith(("spec_one", "spec_two")):
            v.dims = ["horizontal_loop_extent", "vertical_layer_dimension"]
    host.vs.append(V("pver", "vertical_layer_dimension", "integer", "", "count", fattr="parameter"))
    b1 = "<group name='g1'><scheme>amk_cc</scheme><scheme>amk_aa</scheme><scheme>amk_bb</scheme><scheme>s_one</scheme><subcycle loop='count_of_sub'><scheme>s_two</scheme>" \
         "</subcycle></group><group name='g2'><scheme>s_two</scheme><scheme>s_one</scheme></group>"
    b2 = "<group name='h1'><scheme>amk_cc</scheme><scheme>amk_bb</scheme><scheme>amk_aa</scheme><scheme>s_one</scheme></group><group name='h2'><scheme>s_two</scheme></group>"
    suites = [("su1", suite_xml("su1", b1)), ("su2", suite_xml("su2", b2))]
    return mods, host, mk + [s1, s2], suites


def cap_case(i):
    mods, host, schemes, suites = cap_base()
    kinds = ("kind_phys=REAL64", "kind_other=REAL32")
    if i == 1:                        # wildcard inputs
        suites = suites[:1]
    if i == 2:
        suites = [suites[1], suites[0]]
    c = Case(mods=mods + [host], schemes=schemes, suites=suites, kinds=kinds, debug=(i == 2),
             extra_files=[(f, "! dependency\n") for f in ("zdep.F90", "adep.F90", "mdep.F90", "bdep.F90")])
    return c


REPORTS = ["ccpp_files", "host_files", "suite_files", "utility_files", "process_list", "module_list", "dependencies",
           "suite_list", "required_variables=su1", "input_variables=su1", "output_variables=su1", "host_variables",
           "dependencies", "show"]


def cap_run(d, i):
    c = cap_case(i)
    c.dir = d
    c.write(d)
    args = c.args("out")
    if i == 1:
        sch = os.path.join(d, "sch")
        os.makedirs(sch, exist_ok=True)
        hst = os.path.join(d, "hstd")
        os.makedirs(hst, exist_ok=True)
        for s in c.schemes:
            for e in (".meta", ".F90"):
                os.replace(os.path.join(d, s.name + e), os.path.join(sch, s.name + e))
        for f in ("zdep.F90", "adep.F90", "mdep.F90", "bdep.F90"):
            os.replace(os.path.join(d, f), os.path.join(sch, f))
        for m in c.mods:
            for e in (".meta", ".F90"):
                os.replace(os.path.join(d, m.name + e), os.path.join(hst, m.name + e))
        for e in (".meta", ".F90"):
            os.replace(os.path.join(d, c.host + e), os.path.join(hst, c.host + e))
        args[args.index("--host-files") + 1] = hst
        args[args.index("--scheme-files") + 1] = os.path.join(sch, "*.meta")
    return args


def reports(dt, pr):
    import ccpp_datafile
    out = {}
    for r in REPORTS:
        if r == "show":
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                ccpp_datafile.datatable_pretty_print(dt, 2, 60)
            out["report show"] = b.getvalue().encode()
            continue
        a, _, v = r.partition("=")
        rep = ccpp_datafile.DatatableReport(a, v or True)
        out["report " + r] = str(ccpp_datafile.datatable_report(dt, rep, ",")).encode()
    return out


# ---------------------------------------------------------------- prebuild configurations
def pb_case(i):
    mods = []
    td = {}
    for n in ("aa", "bb", "cc"):
        m = HostMod("mod_" + n, [V("ty_" + n, "ty_" + n, "ty_" + n, "", "DDT"),
                                 V("inst_" + n + "(index_of_%s)" % n, "instance_" + n, "ty_" + n, "", "DDT"),
                                 V("inst_" + n, "instance_" + n + "_all", "ty_" + n, "", "DDT", ("number_of_things",)),
                                 V("idx_" + n, "index_of_" + n, "integer", "", "index")],
                    ddts=[("ty_" + n, [V("x", "x_" + n, "real", "kind_phys", "K", HOR),
                                       V("y(:,index_of_%s,index_of_aa)" % n, "y_" + n, "real", "kind_phys", "m", HOR)])])
        mods.append(m)
        td["mod_" + n] = {"ty_" + n: "inst_%s(idx_%s)" % (n, n), "mod_" + n: ""}
    hd = HostMod("hd", [pb.CDATA, V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                        V("nblk", "ccpp_block_count", "integer", "", "count"),
                        V("nthings", "number_of_things", "integer", "", "count"),
                        V("blksz", "ccpp_block_sizes", "integer", "", "count", ("ccpp_block_count",)),
                        V("blksz(ccpp_block_number)", "horizontal_loop_extent", "integer", "", "count"),
                        V("blk_type", "blk_type", "blk_type", "", "DDT"),
                        V("bdat(ccpp_block_number)", "blk_instance", "blk_type", "", "DDT"),
                        V("bdat", "blk_instance_all_blocks", "blk_type", "", "DDT", ("ccpp_block_count",)),
                        V("flga", "flag_a", "logical", "", "flag"), V("flgb", "flag_b", "logical", "", "flag")],
                 ddts=[("blk_type", [V("b1", "b_one", "real", "kind_phys", "K", HOR),
                                     V("b2", "b_two", "real", "kind_phys", "m", HOR, active="(flag_a .and. .not. flag_b)")])])
    td["hd"] = {"blk_type": "bdat(cdata%blk_no)", "hd": ""}
    e = err_vars
    s1 = Scheme("s_one", {
        "init": (e() + [rv("b1", "b_one", dims=HDIM, intent="inout"), rv("b2", "b_two", "km", dims=HDIM, opt=True, intent="inout")], []),
        "run": (e() + [rv("x%d" % k, "x_" + n, "C" if k else "K", intent="inout") for k, n in enumerate(("cc", "aa", "bb"))] +
                [rv("y%d" % k, "y_" + n, "km" if k else "m", intent="inout") for k, n in enumerate(("bb", "cc", "aa"))], [])},
        meta_extra=["dependencies = zdep.F90, adep.F90, mdep.F90"])
    s2 = Scheme("s_two", {
        "run": (e() + [rv("b1", "b_one", intent="inout"), rv("b2", "b_two", "km", opt=True)], []),
        "finalize": (e() + [rv("b1", "b_one", dims=HDIM, intent="inout")], [])}, meta_extra=["dependencies = bdep.F90, zdep.F90"])
    sd = [("su1", pb.sdf("su1", [("g1", [(1, ["s_one"]), (3, ["s_two", "s_one"])]), ("g2", [(1, ["s_two"])])])),
          ("su2", pb.sdf("su2", [("h1", [(2, ["s_two"])]), ("h2", [(1, ["s_one"])])]))]
    return pb.PCase(mods + [hd], [s1, s2], sd, typedefs=td,
                    extra_files=[(f, "! dependency\n") for f in ("zdep.F90", "adep.F90", "mdep.F90", "bdep.F90")])


def pb_run(d, i):
    c = pb_case(i)
    c.write(d)
    os.makedirs(os.path.join(d, "out"), exist_ok=True)
    if i == 1:                       # all suites of the suite directory
        os.makedirs(os.path.join(d, "sds"))
        for n, _ in c.suites:
            os.replace(os.path.join(d, n + ".xml"), os.path.join(d, "sds", n + ".xml"))
        p = os.path.join(d, "mcconfig.py")
        t = open(p).read().replace("SUITES_DIR = '.'", "SUITES_DIR = 'sds'")
        open(p, "w").write(t)
        return ["--config=mcconfig.py", "--builddir=out"]
    return ["--config=mcconfig.py", "--builddir=out", "--suites=su1,su2"] + (["--debug"] if i == 2 else [])


def track(d, var):
    import ccpp_track_variables as tv
    b = io.StringIO()
    os.chdir(d)
    with contextlib.redirect_stdout(b):
        tv.track_variables("su1.xml", ".", "mcconfig.py", var, False)
    return b.getvalue().encode()


# ---------------------------------------------------------------- one controlled run
def prep(d, tool, i):
    return cap_run(d, i) if tool == "capgen" else pb_run(d, i)


def child(d, tool, i, args, dev, default):
    out = {}
    log = os.path.join(os.path.dirname(d), "log%d" % os.getpid())
    setord.start(dev, default)
    if tool == "capgen":
        st, txt = cg._capgen_child(d, args, log)
    else:
        st, txt = pb._child(d, args, log)
    if st == "ok" and tool == "capgen":
        out.update(reports(os.path.join(d, "out", "datatable.xml"), None))
    if st == "ok" and tool == "prebuild" and i == 0:
        for var in ("b_one", "x_aa", "one"):
            out["track " + var] = track(d, var)
    log_ = setord.stop()
    for root, _, files in os.walk(os.path.join(d, "out")):
        for f in files:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    if os.path.exists(log):
        os.remove(log)
    return st, txt, log_, out


def work(job):
    tool, i, dev, default = job
    d = mc.newdir("c14")
    x = os.path.join(d, "w")
    os.makedirs(x)
    try:
        args = prep(x, tool, i)
        try:
            st, txt, log, out = mc.forked(child, x, tool, i, args, dict(dev), default, timeout=100)
        except mc.Crash as e:
            return "crash", str(e)[-1500:], [], {}
        return st, txt[-1500:], log, {k: v.replace(d.encode(), b"@D@") for k, v in out.items()}
    finally:
        mc.rmdir(d)


def external(job):
    """The tool itself in a fresh interpreter."""
    tool, i, seed, cwd, prior = job
    d = mc.newdir("c14x")
    x = os.path.join(d, "w")
    os.makedirs(x)
    try:
        args = prep(x, tool, i)
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE="1")
        wd = x
        if cwd and tool == "capgen":
            wd = os.path.join(d, "elsewhere")
            os.makedirs(wd)
            for k, a in enumerate(args):
                if a.endswith((".meta", ".xml")):
                    args[k] = ",".join(os.path.join(x, z) for z in a.split(","))
        if prior:
            o = os.path.join(x, "out")
            os.makedirs(o, exist_ok=True)
            for f in ("ccpp_su1_cap.F90", "ccpp_kinds.F90" if tool == "capgen" else "CCPP_CAPS.cmake",
                      "ccpp_su1_g1_cap.F90" if tool == "prebuild" else "hst_ccpp_cap.F90", "datatable.xml" if tool == "capgen" else "CCPP_CAPS.mk") + \
                    (() if tool == "capgen" else ("CCPP_API.sh", "ccpp_static_api.F90")):
                with open(os.path.join(o, f), "w") as fh:
                    fh.write("! old\n")
        script = "ccpp_capgen.py" if tool == "capgen" else "ccpp_prebuild.py"
        rc, txt = mc.run([sys.executable, "-W", "ignore", os.path.join(mc.SCRIPTS, script)] + args, cwd=wd, env=env,
                         timeout=120)
        out = {}
        for root, _, files in os.walk(os.path.join(x, "out")):
            for f in files:
                p = os.path.join(root, f)
                out[os.path.relpath(p, x)] = open(p, "rb").read().replace(d.encode(), b"@D@")
        if tool == "capgen" and rc == 0:
            for r in REPORTS:
                a, _, v = r.partition("=")
                cmd = [sys.executable, "-W", "ignore", os.path.join(mc.SCRIPTS, "ccpp_datafile.py"),
                       os.path.join(x, "out", "datatable.xml"), "--" + a.replace("_", "-")]
                if r == "show":
                    cmd += ["--line-wrap", "60"]
                    rr, t2 = mc.run(cmd, cwd=wd, env=env)
                else:
                    rr, t2 = mc.run(cmd + ([v] if v else []), cwd=wd, env=env)
                out["report " + r] = ("%d " % rr).encode() + t2.encode().replace(d.encode(), b"@D@")
        return rc, txt[-600:], out
    finally:
        mc.rmdir(d)


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "%s exists in one run only" % k
        if a[k] != b[k]:
            x, y = a[k].decode(errors="replace").splitlines(), b[k].decode(errors="replace").splitlines()
            for n in range(max(len(x), len(y))):
                p, r = (x[n] if n < len(x) else "<end>"), (y[n] if n < len(y) else "<end>")
                if p != r:
                    return "%s line %d: '%s' or '%s'" % (k, n + 1, p.strip()[:100], r.strip()[:100])
    return None


def main():
    ck = mc.Check("C14", "exploration")
    q = ck.quick
    cg.preload()
    pb.preload()
    conf = [("capgen", 0), ("capgen", 1), ("prebuild", 0), ("prebuild", 1)] + \
        ([] if q else [("capgen", 2), ("prebuild", 2)])
    base = dict(zip(conf, mc.pmap(work, [c + ((), "sorted") for c in conf])))
    jobs, npoints = [], 0
    for c in conf:
        st, txt, log, out = base[c]
        if st != "ok":
            ck.violation("%s %d" % c, "base run failed: %s %s" % (st, txt))
            continue
        npoints += len(log)
        jobs.append(c + ((), "reverse"))
        jobs.append(c + ((), "sorted"))
        for i, (w, n) in enumerate(log):
            for k in range(len(setord.perms(n))):
                jobs.append(c + (((i, k),), "sorted"))
        if not q:
            places = {}
            for i, (w, n) in enumerate(log):
                places.setdefault(w, i)
            for a, b in itertools.combinations(sorted(places.values()), 2):
                jobs.append(c + (((a, 0), (b, 0)), "sorted"))
    runs = 0
    seen = set()
    for j, (st, txt, log, out) in zip(jobs, mc.pmap(work, jobs)):
        runs += 1
        c = j[:2]
        ck.outcome(c[0])
        where = ",".join(base[c][2][i][0] for i, _ in j[2]) or j[3]
        if st != "ok":
            bad = "run failed: %s %s" % (st, txt)
        else:
            bad = diff(base[c][3], out)
        if bad:
            key = "%s %d: order of %s" % (c + (where.split(":")[0] if ":" in where else where,))
            ck.violation(key + " -> " + bad.split(":")[0][:60], "%s (order chosen at %s)" % (bad, where))
    # fresh interpreters
    ext = []
    for c in conf[:4]:
        for s in (range(0, 4) if q else range(0, 24)):
            ext.append(c + (s, False, False))
        ext.append(c + (1, True, False))
        ext.append(c + (1, False, True))
    res = mc.pmap(external, ext)
    for j, (rc, txt, out) in zip(ext, res):
        first = res[ext.index(j[:2] + (0, False, False))]
        if rc != 0:
            ck.violation("%s %d external" % j[:2], "tool failed: %s" % txt)
            continue
        bad = diff(first[2], out)
        if bad:
            ck.violation("%s %d external: %s" % (j[:2] + (bad.split(":")[0][:60],)),
                         "%s (hash seed %d, other directory %s, earlier output %s)" % ((bad,) + j[2:]))
        common = {k: v for k, v in base[j[:2]][3].items() if k in out and not k.startswith("report")}
        bad = diff(common, {k: v for k, v in out.items() if k in common})
        if bad:
            ck.violation("%s %d external vs controlled: %s" % (j[:2] + (bad.split(":")[0][:60],)), bad)
    ck.sample("capgen 0: order of the set iterated at ddt_library.py reversed")
    ck.finish(evaluations=runs + len(ext), distinct_nontrivial=runs, choice_points=npoints, interpreter_runs=len(ext),
              exhaustive=True, rule="every single deviation of the iteration order at every set iteration and directory "
                                    "listing the tools perform" + ("" if q else ", and every pair of places"))


main()
