#!/opt/venv/bin/python
"""C30: prebuild finds the tables and entry points present in the source.

Exhaustive enumeration of source layouts: every written form of every construct (module, type, entry point, their end
statements, table hooks, surrounding code), alone and in all pairs, for scheme files and for host files, plus every
single structural fault.  Each layout is run through ccpp_prebuild.py; what the tool understood is read off the
generated caps (which entry points are called, with which arguments in which order, and which host data they get)."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V

HOR = ["horizontal_loop_extent"]
RUN = [V("w", "mc_inner", intent="in"), V("q", "mc_quantity", units="K", dims=HOR, intent="inout")] + cg.err_vars()
INI = [cg.err_vars()[1], V("qq", "mc_quantity", units="K", dims=["horizontal_dimension"], intent="inout"), V("fl", "mc_flag", "logical", "", "flag", intent="out"), cg.err_vars()[0]]
FIN = [cg.err_vars()[1], cg.err_vars()[0]]


def hook(name, form="!>", ind=""):
    return ["%s%s \\section arg_table_%s  Argument Table" % (ind, form, name), "%s!! \\htmlinclude %s.html" % (ind, name), "%s!!" % ind]


# written forms; "%s" is the name.  First entry = base.  (text, verdict): True must be accepted, None may be refused
MOD = [("module %s", True), ("MODULE %s", True), ("module %s ! comment", True), ("  module   %s", True), ("module %s!comment", True)]
ENDMOD = [("end module %s", True), ("end module", True), ("END MODULE %s", True), ("endmodule %s", True), ("endmodule", True),
          ("end module %s ! comment", True), ("end module ! comment", True), ("End Module %s", True), ("end module %U", True), ("end", None)]
SUB = [("subroutine %s(%a)", True), ("SUBROUTINE %s(%a)", True), ("subroutine %s (%a)", True), ("subroutine %s(%a) ! comment", True),
       ("subroutine %s( &\n      %a)", True), ("subroutine %s &\n      & (%a)", True), ("subroutine %s( & ! comment\n      %a)", True),
       ("subroutine %s( &\n  ! comment\n      %a)", True), ("pure subroutine %s(%a)", True), ("recursive subroutine %s(%a)", True),
       ("  subroutine   %s ( %a )", True), ("subroutine %s(%a) bind(c)", True), ("RECURSIVE PURE SUBROUTINE %s(%a)", True), ("subroutine %s(&\n\n      %a)", True)]
ENDSUB = [("end subroutine %s", True), ("end subroutine", True), ("endsubroutine %s", True), ("END SUBROUTINE %s", True), ("endsubroutine", True),
          ("end subroutine %U", True), ("end subroutine %s ! comment", True), ("end subroutine ! comment", True), ("end", None)]
HOOK = [("!> \\section arg_table_%s  Argument Table\n!! \\htmlinclude %s.html\n!!", True), ("!! \\section arg_table_%s Argument Table\n!! \\htmlinclude %s.html\n!!", True),
        ("    !> \\section arg_table_%s  Argument Table\n    !! \\htmlinclude %s.html\n    !!", True),
        ("!> \\section arg_table_%s  Argument Table\n!! \\htmlinclude %s.html\n!!\n!> @{\n\n! a comment", True),
        ("!> Doc of this routine &\n!> \\section arg_table_%s\n!! \\htmlinclude %s.html\n!!", True),
        ("!> \\section arg_table_%s  Argument Table\n\n!! \\htmlinclude %s.html\n\n!!", True),
        ("!>   \\section   arg_table_%s   Argument Table\n!!   \\htmlinclude   %s.html\n!!   ", True),
        ("!>\\section arg_table_%s  Argument Table\n!! \\htmlinclude %s.html\n!!", None), ("! \\section arg_table_%s  Argument Table\n! \\htmlinclude %s.html\n!", None)]
BODY = ["", "! subroutine %s(nothing)", "!subroutine zz_run(x)", "! a line that goes on &", "!end subroutine %s", "! end module", "!module zz", "  ! type zz",
        "print *, 'subroutine zz_run'", "print *, 'end module'", "print *, ' type zz '", "do\nexit\nend do", "if (1 > 0) then ! subroutine zz_run(\nend if",
        "contains\nsubroutine help()\nend subroutine help", "contains\nsubroutine help_run()\nend subroutine help_run", "contains\nsubroutine help()\nend subroutine",
        "contains\nsubroutine help()\nend subroutine\nsubroutine help_two()\nend subroutine", "contains\nfunction f()\nend function f"]
HEAD = ["", "type, public :: loc\n  integer :: i\nend type loc", "type :: loc\n  integer :: type\nend type", "interface gen\n  module procedure help\nend interface gen",
        "interface\n  subroutine ext(x)\n    integer :: x\n  end subroutine ext\nend interface", "interface\n  subroutine ext(x)\n    integer :: x\n  end subroutine\nend interface",
        "! a comment that ends so &", "!> \\section other Not a table\n!! text", "character(len=*), parameter :: t = 'module zz'", "public :: s1_run"]
HELP = ["", "subroutine help(x)\n  integer :: x\nend subroutine help", "subroutine help(x)\n  integer :: x\nend subroutine", "subroutine s1_extra(x)\n  integer :: x\nend subroutine s1_extra",
        "pure function help(x)\n  integer, intent(in) :: x\nend function help", "!> \\section arg_other_s1_run\nsubroutine help(x)\n  integer :: x\nend subroutine help",
        "subroutine help(x)\n  integer :: x\nend", "subroutine s1_running(x)\n  integer :: x\nend subroutine s1_running"]


def upper(forms):
    """the same in upper case: nothing of it depends on case"""
    return [x.upper() for x in forms if x and "%" not in x and "arg_table" not in x and x.upper() != x]


BODY += upper(BODY)
HEAD += upper(HEAD) + ["Interface gen\n  Module Procedure help\nEnd Interface gen"]
HELP += upper(HELP)


def fill(t, name, args=""):
    return t.replace("%s", name).replace("%U", name.upper()).replace("%a", args)


def scheme_src(name, entries, mod=0, endmod=0, sub=0, endsub=0, hk=0, body=0, head=0, help_=0, which=None, before=True):
    """entries: list of (phase, variables or None); the forms apply to entry `which` (None = all)"""
    L = [fill(MOD[mod][0], name), "  use ccpp_kinds, only: kind_phys", "  implicit none"]
    L += HEAD[head].split("\n") + ["contains"]
    hl = [x for x in HELP[help_].split("\n")]
    if before:
        L += hl
    for k, (ph, vs) in enumerate(entries):
        on = which is None or which == k
        nm = "%s_%s" % (name, ph)
        if vs is not None:
            L += fill(HOOK[hk if on else 0][0], nm).split("\n")
        L += fill(SUB[sub if on else 0][0], nm, ", ".join(v.local for v in vs or [])).split("\n")
        L += ["    " + v.fdecl() for v in vs or []]
        L += fill(BODY[body if on else 0], nm).split("\n")
        L += [fill(ENDSUB[endsub if on else 0][0], nm)]
        if not before and k == 0:
            L += hl
    L += [fill(ENDMOD[endmod][0], name), ""]
    return "\n".join(L)


def scheme_meta(name, entries):
    return cg.table_header(name, "scheme") + "".join(cg.arg_table("%s_%s" % (name, ph), "scheme", vs) for ph, vs in entries if vs is not None)


TYPE = [("type %s", True), ("type :: %s", True), ("type, public :: %s", True), ("TYPE :: %s", True), ("type::%s", True), ("type,public::%s", True),
        ("type, extends(base) :: %s", True), ("type, bind(c) :: %s", True), ("type :: %s ! comment", True), ("  type   ::   %s", True), ("type, public &\n   :: %s", True)]
ENDTYPE = [("end type %s", True), ("end type", True), ("END TYPE %s", True), ("endtype %s", True), ("endtype", True), ("end type %U", True), ("end type %s ! comment", True), ("end type ! comment", True)]
TBODY = ["", "integer :: type", "type(other) :: o", "type (other) :: o", "! type zz", "type(other), pointer :: p => null() ! end type", "class(other), pointer :: p => null()",
         "! a comment that goes on &", "procedure(x), pointer, nopass :: type => null()"]
HHEAD = ["", "type base\n  integer :: b\nend type base", "type base\n  integer :: b\nend type", "type base\n  integer :: b\nendtype base", "type(other) :: one", "! type is\n!end type",
         "integer, parameter :: type_one = 1", "character(len=9) :: c = 'type zz'", "! a comment that goes on &", "integer :: & ! type\n  i, &\n  j"]
HTAIL = ["", "contains\nsubroutine x(o)\n  class(other) :: o\n  select type (o)\n  type is (base)\n  end select\nend subroutine x", "contains\nsubroutine x(o)\n  class(other) :: o\n  select type(o)\n  type is(base)\n  class is (other)\n  end select\nend subroutine",
         "contains\nsubroutine x(o)\n  type (other) :: o\n  type(other) :: p\nend subroutine x", "contains\nmodule procedure x\nend procedure x", "contains\nfunction f() result(r)\n  integer :: type, r\n  type = 3\n  r = type\nend function f",
         "interface z\n  module procedure x\nend interface z"]


def host_src(mod=0, endmod=0, typ=0, endtyp=0, hk=0, tbody=0, hhead=0, htail=0, hk2=0, prog=False, order=0):
    name, t = "hm", "the_t"
    word = (lambda s: re.sub("module", "program", re.sub("MODULE", "PROGRAM", re.sub("Module", "Program", s)))) if prog else (lambda s: s)
    tl = fill(HOOK[hk][0], t).split("\n") + fill(TYPE[typ][0], t).split("\n") + TBODY[tbody].split("\n") + ["real(kind=kind_phys) :: w", fill(ENDTYPE[endtyp][0], t)]
    head = fill(HOOK[hk2][0], name).split("\n")
    vs = ["type(ccpp_t) :: cdata", "integer :: ncols, ncolt", "real(kind=kind_phys), allocatable :: q(:)", "logical :: flg", "type(the_t) :: thing"]
    pre = [word(fill(MOD[mod][0], name)), "  use ccpp_kinds, only: kind_phys", "  use ccpp_types, only: ccpp_t", "implicit none"]
    if order == 0:
        L = pre + HHEAD[hhead].split("\n") + tl + head + vs
    elif order == 1:
        L = pre + head + HHEAD[hhead].split("\n") + tl + vs
    else:
        L = head + pre[:0] + pre + HHEAD[hhead].split("\n") + tl + vs
    return "\n".join(L + HTAIL[htail].split("\n") + [word(fill(ENDMOD[endmod][0], name)), ""])


TBODY += upper(TBODY)
HHEAD += upper(HHEAD)
HTAIL += upper(HTAIL)
HVARS = [pb.CDATA, V("ncols", "horizontal_loop_extent", "integer", "", "count"), V("ncolt", "horizontal_dimension", "integer", "", "count"),
         V("q", "mc_quantity", units="K", dims=["horizontal_dimension"]), V("flg", "mc_flag", "logical", "", "flag"), V("thing", "the_t_instance", "the_t", "", "DDT"), V("the_t", "the_t", "the_t", "", "DDT")]
HMETA = cg.table_header("the_t", "ddt") + cg.arg_table("the_t", "ddt", [V("w", "mc_inner")]) + cg.table_header("hm", "module") + cg.arg_table("hm", "module", HVARS)
ENT = [("init", INI), ("run", RUN), ("finalize", FIN)]
TARGET = {"mc_inner": "thing%w", "mc_quantity": "q", "mc_flag": "flg"}


class Case:
    def __init__(self, label, src=None, meta=None, host=None, hmeta=None, entries=None, ok=True, suite=(("s1"),), more=None, extra=None):
        self.label, self.ok = label, ok
        self.entries = entries if entries is not None else {"s1": ENT}
        self.src = src if src is not None else scheme_src("s1", ENT)
        self.meta = meta if meta is not None else scheme_meta("s1", ENT)
        self.host = host if host is not None else host_src()
        self.hmeta = hmeta if hmeta is not None else HMETA
        self.suite, self.more, self.td = list(suite), dict(more or {}), extra

    def run(self):
        d = mc.newdir("c30")
        c = pb.PCase([], [], [("su", pb.sdf("su", [("g", [("1", self.suite)])]))], typedefs={"hm": {"hm": "", "the_t": "thing"}}, vardefs_extra=["hm.F90"])
        c.write(d)
        for fn, t in dict({"s1.F90": self.src, "s1.meta": self.meta, "hm.F90": self.host, "hm.meta": self.hmeta}, **self.more).items():
            with open(os.path.join(d, fn), "w") as f:
                f.write(t)
        p = os.path.join(d, "mcconfig.py")
        t = open(p).read().replace("SCHEME_FILES = []", "SCHEME_FILES = %r" % [f for f in ["s1.F90"] + list(self.more) if f.endswith(".F90")])
        if self.td:
            t = t.replace(*self.td)
        open(p, "w").write(t)
        st, txt = c.generate()
        cap = ""
        b = os.path.join(d, "build")
        if st == "ok":
            cap = "\n".join(open(os.path.join(b, f)).read() for f in sorted(os.listdir(b)) if f.endswith("_g_cap.F90"))
        mc.rmdir(d)
        return st, txt[:900], cap

    def judge(self, st, txt, cap):
        if st != "ok":
            if st not in ("error", "exit"):
                return "prebuild crashes (%s): %s" % (st, txt[:300])
            return "a valid layout is refused: %s" % txt[:300] if self.ok is True else None
        if self.ok == "free":
            return None
        if self.ok is False:
            return "an invalid layout is accepted"
        flat = re.sub(r"&\s*\n\s*&?", " ", cap)
        for s, ents in self.entries.items():
            if s not in self.suite:
                continue
            for ph in pb.STAGES:
                nm = "%s_%s" % (s, ph)
                want = dict(ents).get(ph, "absent")
                calls = re.findall(r"call\s+%s\s*\(([^\n]*)\)\s*(?:\n|$)" % nm, flat, re.I)
                if want == "absent" or want is None:
                    if want == "absent" and calls:
                        return "%s is called but does not exist" % nm
                    if want is None and calls and calls[0].strip():
                        return "%s is called with %s, it has no arguments" % (nm, calls[0])
                    continue
                if len(calls) != self.suite.count(s):
                    return "%s is called %d times, expected %d" % (nm, len(calls), self.suite.count(s))
                pairs = [(a.split("=", 1)[0].strip().lower(), a.split("=", 1)[1].strip()) for a in re.split(r",(?![^()]*\))", calls[0]) if "=" in a]
                if [p[0] for p in pairs] != [v.local for v in want]:
                    return "%s is called with %s, its table lists %s" % (nm, [p[0] for p in pairs], [v.local for v in want])
                for (_, val), v in zip(pairs, want):
                    t = TARGET.get(v.std)
                    if t and not re.match(r"%s(\(|$)" % re.escape(t), val):
                        return "%s: %s is given %s, the host's data is %s" % (nm, v.local, val, t)
            use = re.findall(r"use\s+(\w+)\s*,\s*only\s*:\s*%s_(\w+)" % s, flat)
            for m, ph in use:
                if ph in pb.STAGES and m.lower() != s.lower():
                    return "%s_%s is taken from module %s" % (s, ph, m)
        return None


def all_ok(*vs):
    return False if False in vs else None if None in vs else True


def space(deep):
    S = [("mod", MOD), ("endmod", ENDMOD), ("sub", SUB), ("endsub", ENDSUB), ("hk", HOOK), ("body", BODY), ("head", HEAD), ("help_", HELP)]

    def v(lst, k):
        return True if isinstance(lst[k], str) else lst[k][1]
    # helper routines that end in a bare "end" and names that are no entry point
    for (n1, l1), (n2, l2) in itertools.combinations(S, 2):
        for a, b in itertools.product(range(len(l1)), range(len(l2))):
            if b == 0 and n2 != "help_" or a == 0 and (n1, n2) != ("mod", n2):
                pass
            if not deep and a and b and (a * 7 + b * 3) % 4:
                continue
            ok = all_ok(v(l1, a), v(l2, b), None if n2 == "help_" and l2[b].lower().endswith("end") else True)
            for which in ((None, 0, 1, 2) if deep else (None,) if a and b else (None, 1)):
                yield Case("scheme %s=%d %s=%d entry %s" % (n1, a, n2, b, which), scheme_src("s1", ENT, which=which, before=(a + b) % 2 == 0, **{n1: a, n2: b}), ok=ok)
    H = [("mod", MOD), ("endmod", ENDMOD), ("typ", TYPE), ("endtyp", ENDTYPE), ("hk", HOOK), ("tbody", TBODY), ("hhead", HHEAD), ("htail", HTAIL), ("hk2", HOOK)]
    for (n1, l1), (n2, l2) in itertools.combinations(H, 2):
        for a, b in itertools.product(range(len(l1)), range(len(l2))):
            if not deep and a and b and (a * 5 + b * 3) % 4:
                continue
            ok = all_ok(v(l1, a), v(l2, b))
            for prog, order in itertools.product((False, True), (0, 1)) if deep else [((a + b) % 3 == 1, (a * b) % 2)]:
                yield Case("host %s=%d %s=%d%s order %d" % (n1, a, n2, b, " program" if prog else "", order), host=host_src(prog=prog, order=order, **{n1: a, n2: b}), ok=ok)
    # entry points: every subset and order
    phases = {"init": INI, "run": RUN, "finalize": FIN, "timestep_init": INI, "timestep_finalize": FIN}
    for n in range(1, 6 if deep else 4):
        for ps in itertools.permutations(phases, n):
            ents = [(p, phases[p]) for p in ps]
            yield Case("entries %s" % "+".join(ps), scheme_src("s1", ents), scheme_meta("s1", ents if len(ps) % 2 else ents[::-1]), entries={"s1": ents})
    for ps in itertools.product((True, False), repeat=3):
        ents = [(p, x if on else None) for (p, x), on in zip(ENT, ps)]
        if any(ps):
            yield Case("entries with tables %s" % (ps,), scheme_src("s1", ents), scheme_meta("s1", ents), entries={"s1": ents})
    # argument order: every order of the table
    for k, perm in enumerate(itertools.permutations(RUN)):
        ents = [("run", list(perm))]
        yield Case("argument order %d" % k, scheme_src("s1", ents), scheme_meta("s1", ents), entries={"s1": ents})
    # several modules in a file, several files, names that look like parts of the encodings
    for names in itertools.permutations(["s1", "s1_x", "s1_run_x", "x_s1", "init", "timestep", "module_a", "type_b", "scheme_c", "subroutine_d", "SUBROUTINE_e"], 2):
        e1, e2 = [("run", RUN)], [("run", FIN), ("init", INI)]
        txt = [scheme_src(names[0], e1), scheme_src(names[1], e2)]
        met = [scheme_meta(names[0], e1), scheme_meta(names[1], e2)]
        ents = {names[0]: e1, names[1]: e2}
        yield Case("two modules %s %s in one file" % names, "\n".join(txt), "\n".join(met), entries=ents, suite=names)
        yield Case("two modules %s %s in two files" % names, txt[0], met[0], entries=ents, suite=names[::-1], more={"s2.F90": txt[1], "s2.meta": met[1]})
    for hm in HELP[1:]:
        m = "module aux\ncontains\n%s\nend module aux\n" % hm
        yield Case("module of helpers first: %s" % hm.split("\n")[0], m + scheme_src("s1", ENT), ok=None if hm.lower().endswith("end") else True)
        yield Case("module of helpers last: %s" % hm.split("\n")[0], scheme_src("s1", ENT) + m, ok=None if hm.lower().endswith("end") else True)
    # another routine's table whose name begins like an entry point's
    for x in ("s1_run_more", "s1_running", "s1_run2", "s1_init_run"):
        more = "\n".join(hook(x)) + "\nsubroutine %s(a)\ninteger :: a\nend subroutine %s\n" % (x, x)
        src = scheme_src("s1", ENT)
        e2 = [("init", INI), ("run", None), ("finalize", FIN)]
        cut = src.index("!> \\section arg_table_s1_run ")
        if x != "s1_init_run":
            yield Case("table %s before s1_run" % x, src[:cut] + more + src[cut:], ok=None)
            yield Case("table %s after s1_run" % x, src.replace("end module s1", more + "end module s1"), ok=None)
            src2 = scheme_src("s1", e2)
            cut = src2.index("subroutine s1_run")
            yield Case("table %s before s1_run, which has none" % x, src2[:cut] + more + src2[cut:], meta=scheme_meta("s1", ENT), entries={"s1": e2}, ok=None)
    # structural faults
    src, hst = scheme_src("s1", ENT), host_src()

    def sf(label, *reps, ok=False, **kw):
        t = src
        for a, b in reps:
            assert a in t, a
            t = t.replace(a, b)
        return Case("fault: " + label, t, ok=ok, **kw)

    def hf(label, *reps, ok=False, **kw):
        t = hst
        for a, b in reps:
            assert a in t, a
            t = t.replace(a, b)
        return Case("fault: " + label, host=t, ok=ok, **kw)
    yield sf("scheme file ends without end module", ("end module s1\n", ""))
    yield sf("scheme module closed by another name", ("end module s1", "end module s2"))
    yield sf("scheme module twice", ("end module s1\n", "end module s1\n" + src))
    yield sf("entry point twice", ("end module s1", "subroutine s1_run()\nend subroutine s1_run\nend module s1"))
    yield sf("entry point without an end", ("end subroutine s1_finalize\n", ""))
    yield sf("entry point without an end, in the middle", ("end subroutine s1_run\n", ""))
    yield sf("entry point of another scheme", ("end module s1", "subroutine s2_run()\nend subroutine s2_run\nend module s1"))
    yield sf("table of an entry point that is not there", ("end module s1", "\n".join(hook("s1_timestep_init")) + "\nend module s1"))
    yield sf("table name misspelt", ("arg_table_s1_run", "arg_table_s1_rnu"))
    yield sf("hook without html line", ("!! \\htmlinclude s1_run.html\n", ""), ok="free")
    yield sf("hook without its last line", ("!! \\htmlinclude s1_run.html\n!!\n", "!! \\htmlinclude s1_run.html\n"))
    yield sf("hook with a wrong html line", ("!! \\htmlinclude s1_run.html\n", "! \\htmlinclude s1_run.html\n"))
    yield sf("hook with more on the html line", ("!! \\htmlinclude s1_run.html\n", "!! \\htmlinclude s1_run.html now\n"))
    yield sf("no metadata for the table", meta=scheme_meta("s1", ENT[:1] + ENT[2:]), ok="free")
    yield sf("mandatory variable missing", meta=scheme_meta("s1", [ENT[0], ("run", RUN[:-1]), ENT[2]]))
    yield sf("mandatory variable missing (message)", meta=scheme_meta("s1", [ENT[0], ("run", RUN[:-2] + RUN[-1:]), ENT[2]]))
    yield hf("host file ends without end module", ("end module hm\n", ""))
    yield hf("host module closed by another name", ("end module hm", "end module hn"))
    yield hf("host module twice", ("end module hm\n", "end module hm\n" + hst))
    yield hf("type twice", ("end type the_t\n", "end type the_t\ntype the_t\nend type the_t\n"))
    yield hf("type closed by another name", ("end type the_t\n", "end type thf_t\n"))
    yield hf("type not closed", ("end type the_t\n", ""), ok=None)
    yield hf("type in a type", ("real(kind=kind_phys) :: w", "real(kind=kind_phys) :: w\ntype inner\nend type inner"))
    yield hf("type closed twice", ("end type the_t\n", "end type the_t\nend type the_t\n"))
    yield hf("table of nothing", ("implicit none\n", "implicit none\n" + "\n".join(hook("nobody")) + "\n"))
    yield hf("table name misspelt", ("arg_table_the_t", "arg_table_teh_t"))
    yield hf("module table name misspelt", ("arg_table_hm", "arg_table_hn"))
    yield hf("table in a table", ("!! \\htmlinclude hm.html\n", "!! \\htmlinclude hm.html\n" + "\n".join(hook("the_t")) + "\n"))
    yield hf("hook without its last line", ("!! \\htmlinclude hm.html\n!!\n", "!! \\htmlinclude hm.html\n"))
    yield hf("hook with a wrong html line", ("!! \\htmlinclude hm.html\n", "! \\htmlinclude hm.html\n"))
    yield hf("hook with more on the html line", ("!! \\htmlinclude hm.html\n", "!! \\htmlinclude hm.html now\n"))
    yield hf("no metadata for the type", hmeta=HMETA[HMETA.index("[ccpp-table-properties]\n  name = hm"):])
    yield hf("no metadata for the module", hmeta=HMETA[:HMETA.index("[ccpp-table-properties]\n  name = hm")])


CASES = []


def go(ks):
    return [CASES[k].run() for k in ks]


def main():
    ck = mc.Check("C30", "exploration")
    pb.preload()
    CASES.extend(space(not ck.quick))
    jobs = list(mc.chunks(list(range(len(CASES))), 8))
    n = 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % CASES[job[0]].label, "prebuild could not be run: %s" % res)
            continue
        for k, (st, txt, cap) in zip(job, res):
            n += 1
            c = CASES[k]
            ck.outcome("%s: %s" % ({True: "valid", False: "faulty", None: "may be refused", "free": "free"}[c.ok], "accepted" if st == "ok" else "refused"))
            why = c.judge(st, txt, cap)
            if why:
                ck.violation(c.label, why)
    ck.sample(CASES[len(CASES) // 2].label)
    ck.finish(evaluations=n, distinct_nontrivial=len({c.src + c.host + c.meta + c.hmeta for c in CASES}), exhaustive=True)


if __name__ == "__main__":
    main()
