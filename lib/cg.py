"""Building, generating, compiling and running capgen cases."""
import os
import subprocess
import sys
import traceback

import mc

STD = {"errmsg": "ccpp_error_message", "errflg": "ccpp_error_code"}
PHASES = ["register", "init", "timestep_init", "run", "timestep_final", "final"]
# phase suffixes accepted in scheme names
HOST_PHASE = {"register": "register", "init": "initialize", "timestep_init": "timestep_initial",
              "run": "run", "timestep_final": "timestep_final", "final": "finalize"}


class V:
    """One variable, as declared in metadata and in Fortran."""

    def __init__(self, local, std, typ="real", kind="kind_phys", units="1", dims=(), intent=None,
                 opt=False, fdims=None, fattr="", **props):
        self.local, self.std, self.typ, self.units = local, std, typ, units
        self.kind = kind if typ not in ("logical", "integer") or kind != "kind_phys" else ""
        self.dims, self.intent, self.opt = list(dims), intent, opt
        self.fdims, self.fattr, self.props = fdims, fattr, dict(props)

    def copy(self, **kw):
        v = V(self.local, self.std, self.typ, self.kind, self.units, self.dims, self.intent,
              self.opt, self.fdims, self.fattr, **self.props)
        for k, val in kw.items():
            if hasattr(v, k):
                setattr(v, k, val)
            else:
                v.props[k] = val
        return v

    def meta(self):
        lines = ["[ %s ]" % self.local, "  standard_name = %s" % self.std]
        if self.units is not None:
            lines.append("  units = %s" % self.units)
        lines.append("  dimensions = (%s)" % ", ".join(self.dims))
        lines.append("  type = %s" % self.typ)
        if self.kind:
            lines.append("  kind = %s" % self.kind)
        if self.intent:
            lines.append("  intent = %s" % self.intent)
        if self.opt:
            lines.append("  optional = True")
        for k, val in self.props.items():
            lines.append("  %s = %s" % (k, val))
        return "\n".join(lines)

    def ftype(self):
        if self.typ in ("real", "integer", "logical", "complex"):
            return self.typ + ("(kind=%s)" % self.kind if self.kind else "")
        if self.typ == "character":
            return "character(%s)" % self.kind
        if self.typ == "double precision":
            return self.typ
        return "type(%s)" % self.typ

    def fdecl(self):
        s = self.ftype()
        if self.intent:
            s += ", intent(%s)" % self.intent
        if self.opt:
            s += ", optional"
        if self.fattr:
            s += ", " + self.fattr
        s += " :: " + self.local.split("(")[0]
        if self.fdims is not None:
            s += "(%s)" % self.fdims if self.fdims else ""
        elif self.dims:
            s += "(%s)" % ",".join([":"] * len(self.dims))
        return s


def err_vars(clen="512"):
    return [V("errmsg", "ccpp_error_message", "character", "len=%s" % clen, "none", intent="out"),
            V("errflg", "ccpp_error_code", "integer", "", "1", intent="out")]


def dim_var(local, std):
    return V(local, std, "integer", "", "count", intent="in")


def table_header(name, typ, extra=()):
    return "\n".join(["[ccpp-table-properties]", "  name = %s" % name, "  type = %s" % typ] +
                     ["  " + e for e in extra] + [""])


def arg_table(name, typ, vs):
    return "\n".join(["[ccpp-arg-table]", "  name = %s" % name, "  type = %s" % typ] +
                     [v.meta() for v in vs]) + "\n"


def wrap_args(names, width=60):
    out, line = [], ""
    for n in names:
        if len(line) + len(n) > width:
            out.append(line)
            line = ""
        line += n + ", "
    out.append(line)
    return (" &\n     ".join(out)).rstrip(", ")


class Scheme:
    """phases: dict phase -> (list of V, list of body lines, list of local declarations)."""

    def __init__(self, name, phases, uses=(), module_decl=(), meta_extra=(), ddts=()):
        self.name, self.phases, self.ddts = name, phases, list(ddts)
        self.uses, self.module_decl, self.meta_extra = list(uses), list(module_decl), list(meta_extra)

    def meta(self):
        txt = "".join(table_header(dn, "ddt") + arg_table(dn, "ddt", dvs) for dn, dvs in self.ddts)
        txt += table_header(self.name, "scheme", self.meta_extra)
        for ph, spec in self.phases.items():
            txt += arg_table("%s_%s" % (self.name, ph), "scheme", spec[0])
        return txt

    def fortran(self):
        L = ["module %s" % self.name, "  use ccpp_kinds, only: kind_phys"] + \
            ["  use " + u for u in self.uses] + ["  implicit none", "  private"]
        L += ["  public :: %s_%s" % (self.name, ph) for ph in self.phases]
        for dn, dvs in self.ddts:
            L += ["!> \\section arg_table_%s  Argument Table" % dn,
                  "!! \\htmlinclude arg_table_%s.html" % dn, "!!", "  type, public :: %s" % dn]
            L += ["    " + v.fdecl() for v in dvs]
            L += ["  end type %s" % dn]
        L += ["  " + d for d in self.module_decl]
        L += ["contains"]
        for ph, spec in self.phases.items():
            vs, body = spec[0], spec[1]
            loc = spec[2] if len(spec) > 2 else []
            nm = "%s_%s" % (self.name, ph)
            L += ["!> \\section arg_table_%s  Argument Table" % nm,
                  "!! \\htmlinclude arg_table_%s.html" % nm, "!!",
                  "  subroutine %s(%s)" % (nm, wrap_args([v.local for v in vs]))]
            L += ["    " + v.fdecl() for v in vs]
            L += ["    " + d for d in loc]
            for v in vs:
                if v.std == "ccpp_error_message":
                    L.append("    %s = ''" % v.local)
                if v.std == "ccpp_error_code":
                    L.append("    %s = 0" % v.local)
            L += ["    " + b for b in body]
            L += ["  end subroutine %s" % nm]
        L += ["end module %s" % self.name, ""]
        return "\n".join(L)


class HostMod:
    """A host data module; ddts: list of (type name, [V], decl overrides)."""

    def __init__(self, name, vs, ddts=(), uses=(), extra=(), contains=()):
        self.name, self.vs, self.ddts = name, vs, list(ddts)
        self.uses, self.extra, self.contains = list(uses), list(extra), list(contains)

    def meta(self):
        txt = ""
        for dn, dvs in self.ddts:
            txt += table_header(dn, "ddt") + arg_table(dn, "ddt", dvs)
        if self.vs is not None:
            txt += table_header(self.name, "module") + arg_table(self.name, "module", self.vs)
        return txt

    def fortran(self):
        L = ["module %s" % self.name, "  use ccpp_kinds"] + \
            ["  use " + u for u in self.uses] + ["  implicit none", "  public"]
        for dn, dvs in self.ddts:
            L += ["!> \\section arg_table_%s  Argument Table" % dn,
                  "!! \\htmlinclude arg_table_%s.html" % dn, "!!", "  type :: %s" % dn]
            L += ["    " + v.fdecl() for v in dvs if "(" not in v.local]
            L += ["  end type %s" % dn]
        if self.vs is not None:
            L += ["!> \\section arg_table_%s  Argument Table" % self.name,
                  "!! \\htmlinclude arg_table_%s.html" % self.name, "!!"]
            L += ["  " + v.fdecl() for v in self.vs if "(" not in v.local]
        L += ["  " + e for e in self.extra]
        if self.contains:
            L += ["contains"] + ["  " + c for c in self.contains]
        L += ["end module %s" % self.name, ""]
        return "\n".join(L)


HOST_ARGS = [V("col_start", "horizontal_loop_begin", "integer", "", "count", protected="True"),
             V("col_end", "horizontal_loop_end", "integer", "", "count", protected="True"),
             V("errmsg", "ccpp_error_message", "character", "len=512", "none"),
             V("errflg", "ccpp_error_code", "integer", "", "1")]
DIMS = [V("ncols", "horizontal_dimension", "integer", "", "count", protected="True",
          fattr="parameter", fdims=None),
        V("pver", "vertical_layer_dimension", "integer", "", "count", protected="True"),
        V("pverp", "vertical_interface_dimension", "integer", "", "count", protected="True")]

TRACE = """module mc_tr
  implicit none
  public
  integer :: fail_at = 0, ncall = 0, fail_code = 0
contains
  subroutine tr(nm, errmsg, errflg)
    ! record a scheme entry; report an error at the selected call
    character(len=*), intent(in) :: nm
    character(len=*), intent(inout) :: errmsg
    integer, intent(inout) :: errflg
    ncall = ncall + 1
    write(6,'(2a)') 'T ', nm
    if (ncall == fail_at) then
      errflg = fail_code
      write(errmsg,'(2a)') 'MSG:', nm
    end if
  end subroutine tr
end module mc_tr
"""


def suite_xml(name, body, version="1.0"):
    return '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="%s" version="%s">\n%s\n</suite>\n' % (
        name, version, body)


def driver(host, suites_phases=None, uses="", decls="", init="", ops="", has_part=True):
    """A command-driven host program.  Commands on stdin: '<op> <args>'."""
    calls = ""
    for ph in PHASES:
        hp = HOST_PHASE[ph]
        if ph == "run":
            a = "sn, pn, col_start=cs, col_end=ce, errmsg=errmsg, errflg=errflg"
        else:
            a = "sn, errmsg=errmsg, errflg=errflg"
        calls += """    case('%s')
      read(line,*) op, sn, pn, cs, ce
      errflg = -77; errmsg = 'unset'
      call %s_ccpp_physics_%s(%s)
      write(6,'(a,i0,2a)') 'R ', errflg, ' ', trim(errmsg)
""" % (ph, host, hp, a)
    return """program drv
  use mc_tr
  use ccpp_kinds
  use %s_ccpp_cap
%s
  implicit none
  character(len=512) :: line, errmsg
  character(len=64) :: op, sn, pn
  integer :: cs, ce, errflg, ios
%s
%s
  do
    read(5,'(a)',iostat=ios) line
    if (ios /= 0) exit
    read(line,*) op
    write(6,'(2a)') 'C ', trim(line)
    select case(trim(op))
%s    case('fail')
      read(line,*) op, fail_at, fail_code
      ncall = 0
%s
    case('quit')
      exit
    case default
      write(6,'(a)') 'BADOP'
    end select
  end do
  flush(6)
end program drv
""" % (host, uses, decls, init, calls, ops)


class Case:
    def __init__(self, host="hst", mods=(), schemes=(), suites=(), host_args=None, extra_files=(),
                 kinds=("kind_phys=REAL64",), debug=False, preproc=None):
        self.host, self.mods, self.schemes = host, list(mods), list(schemes)
        self.suites = list(suites)          # (name, xml text)
        self.host_args = HOST_ARGS if host_args is None else host_args
        self.extra = list(extra_files)      # (filename, text), compiled first
        self.kinds, self.debug, self.preproc = kinds, debug, preproc

    def write(self, d):
        os.makedirs(d, exist_ok=True)

        def w(fn, txt):
            with open(os.path.join(d, fn), "w") as f:
                f.write(txt)
        w("mc_tr.F90", TRACE)
        for fn, txt in self.extra:
            w(fn, txt)
        hs = HostHeader(self.host, self.host_args)
        w(self.host + ".F90", hs.fortran())
        w(self.host + ".meta", hs.meta())
        self.hostfiles = [self.host + ".meta"]
        for m in self.mods:
            w(m.name + ".F90", m.fortran())
            w(m.name + ".meta", m.meta())
            self.hostfiles.append(m.name + ".meta")
        self.schemefiles = []
        for s in self.schemes:
            w(s.name + ".F90", s.fortran())
            w(s.name + ".meta", s.meta())
            self.schemefiles.append(s.name + ".meta")
        self.suitefiles = []
        for n, x in self.suites:
            w(n + ".xml", x)
            self.suitefiles.append(n + ".xml")
        self.dir = d

    def args(self, out="out", extra=()):
        a = ["--host-files", ",".join(self.hostfiles), "--scheme-files", ",".join(self.schemefiles),
             "--suites", ",".join(self.suitefiles), "--host-name", self.host,
             "--output-root", os.path.join(self.dir, out)]
        for k in self.kinds:
            a += ["--kind-type", k]
        if self.debug:
            a += ["--debug"]
        if self.preproc:
            a += ["--preproc-directives", self.preproc]
        return a + list(extra)

    def generate(self, out="out", extra=(), timeout=120):
        """Run capgen; returns (ok, text)."""
        return run_capgen(self.dir, self.args(out, extra), timeout)

    def compile(self, drv, out="out", flags=("-O0", "-fcheck=bounds,pointer,mem,do"), exe="drv"):
        """Compile everything with the driver text; returns (ok, log)."""
        d = self.dir
        with open(os.path.join(d, "drv.F90"), "w") as f:
            f.write(drv)
        src = os.path.join(mc.REPO, "src")
        gen = [os.path.join(out, f) for f in sorted(os.listdir(os.path.join(d, out)))
               if f.endswith(".F90")]
        kinds = [g for g in gen if g.endswith("ccpp_kinds.F90")]
        hostcap = [g for g in gen if g.endswith("_ccpp_cap.F90")]
        caps = [g for g in gen if g not in kinds and g not in hostcap]
        files = kinds + ["mc_tr.F90"] + [fn for fn, _ in self.extra if fn.endswith(".F90")]
        files += [os.path.join(src, f) for f in ("ccpp_hashable.F90", "ccpp_hash_table.F90",
                                                 "ccpp_constituent_prop_mod.F90")]
        files += [m.name + ".F90" for m in self.mods] + [s.name + ".F90" for s in self.schemes]
        files += caps + hostcap + ["drv.F90"]
        cmd = ["gfortran", "-cpp", "-ffree-line-length-none", "-w", "-g0"] + list(flags) + \
            ["-o", exe] + files
        rc, txt = mc.run(cmd, cwd=d, timeout=400)
        return rc == 0, txt

    def execute(self, script, timeout=60, exe="drv"):
        rc, txt = mc.run([os.path.join(self.dir, exe)], cwd=self.dir, inp=script, timeout=timeout)
        return rc, txt


class HostHeader:
    def __init__(self, host, vs):
        self.host, self.vs = host, vs

    def meta(self):
        return table_header(self.host, "host") + arg_table(self.host, "host", self.vs)

    def fortran(self):
        return "\n".join(["module %s_prog" % self.host, "contains",
                          "!> \\section arg_table_%s  Argument Table" % self.host,
                          "!! \\htmlinclude arg_table_%s.html" % self.host, "!!",
                          "  subroutine %s()" % self.host] +
                         ["    " + v.fdecl() for v in self.vs] +
                         ["  end subroutine %s" % self.host, "end module %s_prog" % self.host, ""])


def _capgen_child(d, args, logfile):
    import logging
    os.chdir(d)
    fd = os.open(logfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    import ccpp_capgen
    from framework_env import parse_command_line
    from parse_tools import CCPPError, ParseInternalError
    try:
        env = parse_command_line(args, "capgen", logger=ccpp_capgen._LOGGER)
        if env.verbosity > 1:
            ccpp_capgen.set_log_level(env.logger, logging.DEBUG)
        if env.clean:
            ccpp_capgen.clean_capgen(env.datatable_file, env.logger)
        else:
            ccpp_capgen.capgen(env)
        res = ("ok", "")
    except CCPPError as e:
        res = ("CCPPError", str(e))
    except ParseInternalError as e:
        res = ("internal", str(e))
    except SystemExit as e:
        res = ("exit", str(e.code))
    except BaseException as e:  # noqa
        res = ("crash:" + type(e).__name__, traceback.format_exc())
    logging.shutdown()
    sys.stdout.flush()
    sys.stderr.flush()
    return res


def preload():
    import ccpp_capgen  # noqa
    import ccpp_datafile  # noqa


def run_capgen(d, args, timeout=120):
    """Run capgen in a forked child with cwd d; returns (status, text): status 'ok', 'CCPPError',
    'internal', 'exit' or 'crash:<type>'."""
    preload()
    log = os.path.join(d, "capgen.log")
    try:
        st, txt = mc.forked(_capgen_child, d, args, log, timeout=timeout)
    except mc.Crash as e:
        st, txt = "crash:died", str(e)
    if st != "ok":
        try:
            txt += "\n" + open(log).read()
        except OSError:
            pass
    return st, txt
