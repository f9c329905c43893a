"""Building, generating, compiling and running prebuild (static cap) cases."""
import os
import sys
import traceback

import mc
import cg
from cg import V, HostMod

STAGES = ["init", "timestep_init", "run", "timestep_finalize", "finalize"]
CONFIG = '''HOST_MODEL_IDENTIFIER = "MC"
VARIABLE_DEFINITION_FILES = %(vardefs)r
TYPEDEFS_NEW_METADATA = %(typedefs)r
SCHEME_FILES = %(schemes)r
DEFAULT_BUILD_DIR = 'build'
TYPEDEFS_MAKEFILE   = '{build_dir}/CCPP_TYPEDEFS.mk'
TYPEDEFS_CMAKEFILE  = '{build_dir}/CCPP_TYPEDEFS.cmake'
TYPEDEFS_SOURCEFILE = '{build_dir}/CCPP_TYPEDEFS.sh'
SCHEMES_MAKEFILE   = '{build_dir}/CCPP_SCHEMES.mk'
SCHEMES_CMAKEFILE  = '{build_dir}/CCPP_SCHEMES.cmake'
SCHEMES_SOURCEFILE = '{build_dir}/CCPP_SCHEMES.sh'
CAPS_MAKEFILE   = '{build_dir}/CCPP_CAPS.mk'
CAPS_CMAKEFILE  = '{build_dir}/CCPP_CAPS.cmake'
CAPS_SOURCEFILE = '{build_dir}/CCPP_CAPS.sh'
CAPS_DIR = '%(caps)s'
SUITES_DIR = '%(suites)s'
OPTIONAL_ARGUMENTS = {}
STATIC_API_DIR = '%(api)s'
STATIC_API_CMAKEFILE  = '{build_dir}/CCPP_API.cmake'
STATIC_API_SOURCEFILE = '{build_dir}/CCPP_API.sh'
METADATA_HTML_OUTPUT_DIR = '{build_dir}'
HTML_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES_MC.html'
LATEX_VARTABLE_FILE = '{build_dir}/CCPP_VARIABLES_MC.tex'
'''
CDATA = V("cdata", "ccpp_t_instance", "ccpp_t", "", "DDT")
KINDS = HostMod("ccpp_kinds", [V("kind_phys", "kind_phys", "integer", "", "none", fattr="parameter"),
                               V("kind_other", "kind_other", "integer", "", "none", fattr="parameter")])
MPI = """module mpi_f08
  implicit none
  public
  type :: MPI_Comm
    integer :: mpi_val
  end type MPI_Comm
end module mpi_f08
"""
KINDS_F90 = """module ccpp_kinds
!> \\section arg_table_ccpp_kinds  Argument Table
!! \\htmlinclude ccpp_kinds.html
!!
  use iso_fortran_env, only: kind_phys => real64, kind_other => real32
  implicit none
  public
end module ccpp_kinds
"""


def sdf(name, groups):
    """groups: list of (group name, list of (loop, [scheme])) -> xml text"""
    t = '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="%s" version="1">\n' % name
    for g, subs in groups:
        t += '  <group name="%s">\n' % g
        for loop, schemes in subs:
            t += '    <subcycle loop="%s">\n' % loop
            t += "".join("      <scheme>%s</scheme>\n" % s for s in schemes)
            t += "    </subcycle>\n"
        t += "  </group>\n"
    return t + "</suite>\n"


class PCase:
    def __init__(self, mods=(), schemes=(), suites=(), typedefs=None, extra_files=(), order=None, caps="{build_dir}",
                 api="{build_dir}", suites_dir=".", kinds=True, vardefs_extra=()):
        self.mods, self.schemes = list(mods), list(schemes)
        self.suites = list(suites)               # (name, xml text)
        self.typedefs = dict(typedefs or {})     # module -> {type: reference}
        self.extra = list(extra_files)           # (filename, text) compiled first
        self.caps, self.api, self.suites_dir, self.kinds = caps, api, suites_dir, kinds
        self.vardefs_extra = list(vardefs_extra)

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        self.dir = d

        def w(fn, txt):
            os.makedirs(os.path.dirname(os.path.join(d, fn)) or d, exist_ok=True)
            with open(os.path.join(d, fn), "w") as f:
                f.write(txt.replace("\\htmlinclude arg_table_", "\\htmlinclude "))
        self.w = w
        w("mpi_f08.F90", MPI)
        w("mc_tr.F90", cg.TRACE)
        for fn, txt in self.extra:
            w(fn, txt)
        vd = [os.path.join(mc.REPO, "src", "ccpp_types.F90")]
        if self.kinds:
            w("ccpp_kinds.F90", KINDS_F90)
            w("ccpp_kinds.meta", KINDS.meta())
            vd.append("ccpp_kinds.F90")
        for m in self.mods:
            w(m.name + ".F90", m.fortran())
            w(m.name + ".meta", m.meta())
            vd.append(m.name + ".F90")
        for s in self.schemes:
            w(s.name + ".F90", s.fortran())
            w(s.name + ".meta", s.meta())
        for n, x in self.suites:
            w(os.path.join(self.suites_dir, n + ".xml"), x)
        td = {"ccpp_types": {"ccpp_t": "cdata", "ccpp_types": ""}}
        if self.kinds:
            td["ccpp_kinds"] = {"ccpp_kinds": ""}
        for m in self.mods:
            td.setdefault(m.name, {m.name: ""})
        td.update(self.typedefs)
        w("mcconfig.py", CONFIG % dict(vardefs=vd + self.vardefs_extra, typedefs=td,
                                       schemes=[s.name + ".F90" for s in self.schemes],
                                       caps=self.caps, api=self.api, suites=self.suites_dir))

    def generate(self, extra=(), build="build", suites=None, mkdir=True, timeout=120):
        b = os.path.join(self.dir, build)
        if mkdir:
            os.makedirs(b, exist_ok=True)
        args = ["--config=mcconfig.py", "--builddir=" + build]
        if suites is not False:
            args.append("--suites=" + ",".join(suites or [n for n, _ in self.suites]))
        return run_prebuild(self.dir, args + list(extra), timeout)

    def compile(self, drv, build="build", flags=("-O0", "-fcheck=bounds,pointer,mem,do"), exe="drv", openmp=False):
        d = self.dir
        with open(os.path.join(d, "drv.F90"), "w") as f:
            f.write(drv)
        b = os.path.join(d, build)
        gen = sorted(f for f in os.listdir(b) if f.endswith(".F90"))
        suites = {"ccpp_%s_cap.F90" % n for n, _ in self.suites}
        api = [g for g in gen if g.startswith("ccpp_static_api")]
        scaps = [g for g in gen if g in suites]
        gcaps = [g for g in gen if g not in scaps and g not in api]
        files = ([] if not self.kinds else ["ccpp_kinds.F90"]) + ["mc_tr.F90"] + \
            [fn for fn, _ in self.extra if fn.endswith(".F90")]
        files = ["mpi_f08.F90", os.path.join(mc.REPO, "src", "ccpp_types.F90")] + files
        files += [m.name + ".F90" for m in self.mods] + [s.name + ".F90" for s in self.schemes]
        files += [os.path.join(build, g) for g in gcaps + scaps + api] + ["drv.F90"]
        rc, txt = mc.run(["gfortran", "-cpp", "-ffree-line-length-none", "-w", "-g0"] + list(flags) +
                         (["-fopenmp"] if openmp else []) + ["-o", exe] + files, cwd=d, timeout=400)
        return rc == 0, txt

    def execute(self, script="", timeout=60, exe="drv"):
        return mc.run([os.path.join(self.dir, exe)], cwd=self.dir, inp=script, timeout=timeout)


def _child(d, args, log):
    import logging
    os.chdir(d)
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.argv = ["ccpp_prebuild.py"] + args
    for h in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(h)
    try:
        import ccpp_prebuild
        ccpp_prebuild.BASEDIR = os.getcwd()     # evaluated at import in a real run
        ccpp_prebuild.main()
        res = ("ok", "")
    except SystemExit as e:
        res = ("ok", "") if e.code in (0, None) else ("exit", str(e.code))
    except BaseException as e:  # noqa
        kind = "error" if type(e) is Exception or type(e).__name__ in ("CCPPError", "ParseSyntaxError",
                                                                    "ParseInternalError") else \
            "crash:" + type(e).__name__
        res = (kind, "%s\n%s" % (e, traceback.format_exc()))
    logging.shutdown()
    sys.stdout.flush()
    sys.stderr.flush()
    return res


def preload():
    for m in ("mkstatic", "mkcap", "mkdoc", "metadata_parser", "common", "metadata_table"):
        __import__(m)


def run_prebuild(d, args, timeout=120, log=None):
    """Run prebuild in a forked child with cwd d: ('ok'|'error'|'exit'|'crash:..', text + log)."""
    preload()
    log = log or os.path.join(d, "prebuild.log")
    try:
        st, txt = mc.forked(_child, d, args, log, timeout=timeout)
    except mc.Crash as e:
        st, txt = "crash:died", str(e)
    try:
        txt += "\n" + open(log).read()[-4000:]
    except OSError:
        pass
    return st, txt
