"""C16: Fortran source is read as a compiler reads it.

A catalogue of Fortran files is written in every layout of a family (continuation at every token boundary and inside every
name and string in several styles, trailing comments, comment and blank lines, statements joined with ';', letter case,
spacing, fixed form with continuation at every column) and read by parse_fortran_file. The tables obtained must be those of
the catalogue. Every layout is also read by gfortran, whose parse tree must be the one of the plain layout."""
import itertools
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

# ---------------------------------------------------------------- sources: one statement or comment per line
MAIN = r"""
module m
use iso_fortran_env, only: kp => real64
implicit none
private
public :: s_run, ty
character(len=20), parameter :: txt = 'a!b&c;d"e'
!> \section arg_table_ty Argument Table
!! \htmlinclude ty.html
type, public :: ty
real(kp), allocatable :: a(:,:)
integer :: n = 3
character(len=16) :: nm = "it's; & ! ok"
end type ty
type other
integer :: k
contains
procedure, nopass :: p => helper
end type other
!> \section arg_table_m Argument Table
!! \htmlinclude m.html
real(kp), public :: x(10), y = 1.0_kp
integer, public :: z = max(1, 2)
contains
!> \section arg_table_s_run Argument Table
!! \htmlinclude s_run.html
subroutine s_run(im, t, names, d, opt, errmsg)
integer, intent(in) :: im
real(kind=kp), dimension(im, 3), intent(inout) :: t
character(len=*), intent(in) :: names(:)
type(ty), intent(inout) :: d
logical, optional, intent(in) :: opt
character(len=512), intent(out) :: errmsg
integer :: i
errmsg = 'don''t; end subroutine s_run ! & no'
do i = 1, im
t(i,1) = t(i,1) + d%n
end do
end subroutine s_run
subroutine helper(a)
integer, intent(in) :: a
print *, "contains", a, txt
end subroutine helper
!> \section arg_table_s_init Argument Table
!! \htmlinclude s_init.html
subroutine s_init(errflg)
integer, intent(out) :: errflg
errflg = 0
end subroutine s_init
end module m
"""
V = lambda name, typ, kind="", dims="()", intent=None, opt=False, alloc=False: (name, typ, kind, dims, intent, opt, alloc)
MAIN_T = ([("ty", "ddt", "m", [V("a", "real", "kp", "(:,:)", alloc=True), V("n", "integer"), V("nm", "character", "len=16")]),
           ("m", "module", "m", [V("x", "real", "kp", "(10)"), V("y", "real", "kp"), V("z", "integer")]),
           ("s", "scheme", "m", [V("im", "integer", intent="in"), V("t", "real", "kp", "(im,3)", "inout"), V("names", "character", "len=*", "(:)", "in"),
                                 V("d", "ty", "ty", "()", "inout"), V("opt", "logical", "", "()", "in", True),
                                 V("errmsg", "character", "len=512", "()", "out")]),
           ("s", "scheme", "m", [V("errflg", "integer", "", "()", "out")])], ["helper"])
INNER = r"""
module mm
implicit none
interface gen
module procedure one
end interface gen
contains
!> \section arg_table_q_run Argument Table
!! \htmlinclude q_run.html
subroutine q_run(n, errmsg, errflg)
integer, intent(in) :: n
character(len=*), intent(out) :: errmsg
integer, intent(out) :: errflg
errmsg = ''
errflg = fun(n)
call inner(n)
contains
subroutine inner(k)
integer, intent(in) :: k
print *, 'subroutine inner', k
end subroutine inner
integer function fun(k)
integer, intent(in) :: k
fun = k
end function fun
end subroutine q_run
pure subroutine one(a, b)
integer, intent(in) :: a
integer, intent(out) :: b
b = a
end subroutine one
elemental real function two(a)
real, intent(in) :: a
two = a
end function two
!> \section arg_table_q_final Argument Table
!! \htmlinclude q_final.html
subroutine q_final()
print *, 'end module mm'
end subroutine q_final
end module mm
module m2
implicit none
!> \section arg_table_m2 Argument Table
!! \htmlinclude m2.html
double precision :: w(3,4)
complex :: c
logical, dimension(2) :: l1, l2(5)
end module m2
"""
INNER_T = ([("q", "scheme", "mm", [V("n", "integer", "", "()", "in"), V("errmsg", "character", "len=*", "()", "out"), V("errflg", "integer", "", "()", "out")]),
            ("q", "scheme", "mm", []),
            ("m2", "module", "m2", [V("w", "double precision", "kind_phys", "(3,4)"), V("c", "complex", None), V("l1", "logical", "", "(2)"),
                                    V("l2", "logical", "", "(5)")])], ["one"])
CATALOG = {"main": (MAIN.strip().splitlines(), MAIN_T), "inner": (INNER.strip().splitlines(), INNER_T)}
TOKEN = re.compile(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|\.[A-Za-z]+\.|\d+\.\d+\w*|\w+|::|=>|\*\*|==|/=|<=|>=|\S")


def toks(s):
    return TOKEN.findall(s)


def glue(ts, gap=""):
    """The statement with blanks only where they are needed (and `gap` elsewhere)."""
    out = ts[0]
    for a, b in zip(ts, ts[1:]):
        need = re.match(r"\w", a[-1]) and re.match(r"\w", b[0])
        out += (" " if need else gap) + b
    return out


# ---------------------------------------------------------------- layouts of a file
def plain(src):
    return [s if s[0] == "!" else "  " + s for s in src]


def breaks(ts):
    """(left, right, inside) for every place a statement can be continued at; inside a token the next line starts with '&'."""
    for i in range(1, len(ts)):
        yield glue(ts[:i], " "), glue(ts[i:], " "), False
    for i, t in enumerate(ts):
        if len(t) > 1 and t[0] in "'\"":
            for k in range(1, len(t)):
                if not (k and t[k - 1] == t[0] and 1 < k < len(t) - 1 or t[k:k + 1] == t[0] and 0 < k < len(t) - 1):
                    yield glue(ts[:i] + [t[:k]], " "), glue([t[k:]] + ts[i + 1:], " ") if k < len(t) else "", True
        elif re.fullmatch(r"\w{2,}", t):
            k = len(t) // 2
            yield glue(ts[:i] + [t[:k]], " "), glue([t[k:]] + ts[i + 1:], " "), True
        elif len(t) == 2 and t in ("::", "=>"):
            yield glue(ts[:i] + [t[0]], " "), glue([t[1]] + ts[i + 1:], " "), True


def in_string(left):
    q = None
    for c in left:
        if q:
            q = None if c == q else q
        elif c in "'\"":
            q = c
    return q is not None


def free(src, deep):
    base = plain(src)
    stm = [i for i, s in enumerate(src) if s[0] != "!"]

    def put(i, lines):
        return base[:i] + lines + base[i + 1:]
    for i in stm:
        ts = toks(src[i])
        for left, right, inside in breaks(ts):
            where = "%d:%s|%s" % (i, left[-8:], right[:8])
            st = in_string(left)
            yield "amp2 " + where, put(i, ["  " + left + ("" if inside else " ") + "&", "    &" + ("" if inside else " ") + right])
            if not inside:
                yield "amp1 " + where, put(i, ["  " + left + " &", "    " + right])
                yield "ampx " + where, put(i, [left + "&", right])
            if not st:
                yield "ampc " + where, put(i, ["  " + left + " & ! it's; & \"" if not inside else "  " + left + "& ! it's; & \"",
                                               "", "  ! comment & ; '", "!! other", "   &" + right])
            else:
                yield "ampl " + where, put(i, ["  " + left + "&", "", "  ! it's a comment", "   &" + right])
        if len(ts) > 2:
            cut = [glue(ts[:1])] + [t for t in ts[1:]]
            yield "every %d" % i, put(i, ["  " + t + " &" for t in cut[:-1]] + ["  " + cut[-1]])
            yield "every2 %d" % i, put(i, ["  " + cut[0] + " &"] + ["  & " + t + " & ! c" for t in cut[1:-1]] + ["  & " + cut[-1]])
        for c in (" ! comment", "!comment", " ! it's & ; \" end module", "   ", " !", ";", " ; ! x", "!> \\section x"):
            yield "tail %d %r" % (i, c), put(i, ["  " + src[i] + c])
        yield "compact %d" % i, put(i, [glue(ts)])
        yield "wide %d" % i, put(i, ["   " + glue(ts, "   ")])
        yield "spaced %d" % i, put(i, ["  " + glue(ts, " ")])
        up = lambda f: glue([t if t[0] in "'\"" else f(t) for t in ts], " ")
        for n, f in (("upper", str.upper), ("lower", str.lower), ("title", str.capitalize), ("swap", lambda t: "".join(
                c.upper() if k % 2 else c.lower() for k, c in enumerate(t)))):
            yield "%s %d" % (n, i), put(i, ["  " + up(f)])
        for lines in ([""], ["! comment"], ["   !! x ' & ;"], ["", "", "!", ""], ["!> text", "!! \\brief it's"]):
            yield "before %d %r" % (i, lines[0]), base[:i] + lines + base[i:]
            yield "after %d %r" % (i, lines[0]), base[:i + 1] + lines + base[i + 1:]
    for i in stm:
        for w in (2, 3):
            js = list(range(i, i + w))
            if js[-1] < len(src) and all(j in stm for j in js):
                for sep in (";", "; ", " ;  "):
                    yield "join %d+%d %r" % (i, w, sep), base[:i] + ["  " + sep.join(src[j] for j in js)] + base[i + w:]
                if w == 2:
                    yield "joinc %d" % i, base[:i] + ["  " + src[i] + "; " + src[i + 1] + " ! it's; x"] + base[i + w:]
                    ts = toks(src[i + 1])
                    for left, right, inside in breaks(ts):
                        if deep or len(left) % 3 == i % 3:
                            yield "joina %d %s|%s" % (i, left[-8:], right[:8]), base[:i] + [
                                "  " + src[i] + "; " + left + ("" if inside else " ") + "&", "  &" + right] + base[i + w:]
                    ts = toks(src[i])
                    for left, right, inside in breaks(ts):
                        if deep or len(left) % 3 == i % 3:
                            yield "joinb %d %s|%s" % (i, left[-8:], right[:8]), base[:i] + [
                                "  " + left + ("" if inside else " ") + "&", "  &" + right + "; " + src[i + 1]] + base[i + w:]
    # pairs of continuations in one statement
    for i in stm:
        ts = toks(src[i])
        n = len(ts)
        if n < 3 or not deep and n < 8:
            continue
        for a, b in itertools.combinations(range(1, n), 2):
            if deep or (a + b + i) % 4 == 0:
                for st in (("&", ""), ("& ! x", "& ")):
                    yield "two %d %d %d %r" % (i, a, b, st), put(i, ["  " + glue(ts[:a], " ") + " " + st[0], "   " + st[1] + glue(ts[a:b], " ") + " " + st[0],
                                                                      "  ! between", "   " + st[1] + glue(ts[b:], " ")])
    whole = lambda f: [s if s[0] == "!" else "  " + glue([t if t[0] in "'\"" else f(t) for t in toks(s)], " ") for s in src]
    yield "file upper", whole(str.upper)
    yield "file lower", whole(str.lower)
    yield "file compact", [s if s[0] == "!" else glue(toks(s)) for s in src]
    yield "file blank", [x for s in base for x in (s, "")]
    yield "file comment", [x for n, s in enumerate(base) for x in ((s, "  ! it's") if s.strip()[0] != "!" else (s,))]
    yield "file tail", [s if s.strip()[0] == "!" else s + " ! & it's;" for s in base]
    yield "file end names", [re.sub(r"^(\s*end (?:module|subroutine|type|function|interface)) \w+$", r"\1", s) for s in base]
    yield "file endx", [re.sub(r"^(\s*)end (module|subroutine|type|function|interface|do)\b", r"\1end\2", s) for s in base]
    yield "file section", [s.replace("!> \\section arg", "!> \\section  arg") for s in base]
    yield "file bang", [s.replace("!> \\section", "!! \\section") for s in base]
    yield "file indent", ["      " + s if s[0] != "!" else s for s in src]


def fixed(src, deep):
    """Fixed form: columns 7-72, continuation in column 6, comments in column 1 or after '!'."""
    stm = [i for i, s in enumerate(src) if s[0] != "!"]

    def cut(s, width=66, mark="&"):
        out = ["      " + s[:width]]
        s = s[width:]
        while s:
            out.append("     " + mark + s[:66])
            s = s[66:]
        return out
    base = [[s] if s[0] == "!" else cut(s) for s in src]

    def put(i, lines):
        return [x for j, b in enumerate(base) for x in (lines if j == i else b)]
    yield "plain", put(-1, [])
    for i in stm:
        ts = toks(src[i])
        for left, right, inside in breaks(ts):
            st = in_string(left)
            where = "%d:%s|%s" % (i, left[-8:], right[:8])
            if not inside and re.match(r"\w\w", left[-1] + right[0]):
                right = " " + right
            if len(left) > 66 or len(right) > 66:
                continue
            if st:
                # a string runs to column 72: shift the statement so that the line is full
                pad = 72 - 6 - len(left)
                yield "str " + where, put(i, ["      " + " " * pad + left, "     &" + right])
                yield "strc " + where, put(i, ["      " + " " * pad + left, "C it's a comment", "     1" + right])
                continue
            sp = "" if inside else " "
            for mark in "&*1+$x" if deep or (len(left) + i) % 2 == 0 else "&!":
                yield "cont%s %s" % (mark, where), put(i, ["      " + left, "     " + mark + right])
            for c in ("C it's & ; comment", "c", "* text", "! text", "", "    ! text \"", "   !"):
                if deep or c in ("C it's & ; comment", "", "* text") and len(left) % 2:
                    yield "contc %r %s" % (c, where), put(i, ["      " + left, c, "     &" + sp + right])
            yield "contt " + where, put(i, ["      " + left + sp + "! it's & ;", "     &" + sp + right])
            full = ("      " + left).ljust(72)
            yield "col72 " + where, put(i, [full + "X'Y&!;", ("     &" + right).ljust(72) + "00012345"])
        if len(src[i]) < 60:
            yield "seq %d" % i, put(i, [("      " + src[i]).ljust(72) + "JUNK'; ! "])
            yield "tail %d" % i, put(i, ["      " + src[i] + " ! it's; &"])
            yield "upper %d" % i, put(i, ["      " + glue([t if t[0] in "'\"" else t.upper() for t in ts], " ")])
            yield "zero %d" % i, put(i, ["     0" + src[i]])
            yield "indent %d" % i, put(i, ["         " + src[i]])
            if i + 1 in stm and len(src[i] + src[i + 1]) < 60:
                yield "join %d" % i, [x for j, b in enumerate(base) for x in (["      " + src[i] + "; " + src[i + 1]] if j == i else [] if j == i + 1 else b)]
        for k in range(1, len(src[i])):
            if not in_string(src[i][:k]) and src[i][k - 1] != " " and src[i][k - 1:k + 1] not in ("''", '""') and len(src[i]) - k <= 66 and k <= 66 and (deep or k % 3 == i % 3):
                yield "col %d.%d" % (i, k), put(i, cut(src[i], k))


# ---------------------------------------------------------------- files put together from pieces
# (slot, lines, variables added to the table of the slot, other routines added)
SKEL = r"""
@FIRST
module m
use iso_fortran_env, only: kp => real64
implicit none
private
public :: s_run
@SPEC
!> \section arg_table_ty Argument Table
!! \htmlinclude ty.html
type, public :: ty
@TYPE0
integer :: n
@TYPE
end type ty
@SPEC2
!> \section arg_table_m Argument Table
!! \htmlinclude m.html
integer, public :: z = 1
@VARS
contains
@SUBS
!> \section arg_table_s_run Argument Table
!! \htmlinclude s_run.html
@HEAD
@DECL0
integer, intent(in) :: im
@DECL
@BODY
end subroutine s_run
@SUBS2
!> \section arg_table_s_init Argument Table
!! \htmlinclude s_init.html
subroutine s_init(errflg)
integer, intent(out) :: errflg
errflg = 0
end subroutine s_init
@SUBS3
end module m
@LAST
"""
PIECES = [("FIRST", ["module m0", "integer, parameter :: i0 = 1", "end module m0"], [], []),
          ("FIRST", ["module m0", "!> \\section arg_table_m0 Argument Table", "integer :: w0(2)", "end module m0"],
           [("m0", "module", "m0", [V("w0", "integer", "", "(2)")])], []),
          ("FIRST", ["module m0", "integer, parameter :: i0 = 1", "contains", "subroutine r0", "end subroutine r0", "end module m0"], [], ["r0"]),
          ("FIRST", ["module m0", "!> \\section arg_table_m0 Argument Table", "integer :: w0(2)", "contains", "subroutine r0()", "end subroutine", "end"],
           [("m0", "module", "m0", [V("w0", "integer", "", "(2)")])], ["r0"]),
          ("FIRST", ["!> \\file m.F90", "!! it's a file"], [], []),
          ("LAST", ["module m3", "!> \\section arg_table_m3 Argument Table", "integer :: w3 = 3", "end module m3"],
           [("m3", "module", "m3", [V("w3", "integer")])], []),
          ("LAST", ["module m3", "use m", "contains", "!> \\section arg_table_t_run Argument Table", "subroutine t_run(k)", "integer, intent(inout) :: k", "k = 1",
                    "end subroutine t_run", "subroutine r3", "end subroutine r3", "end module m3"],
           [("t", "scheme", "m3", [V("k", "integer", "", "()", "inout")])], ["r3"]),
          ("LAST", ["program p", "use m", "integer :: module_m4 = 2", "print *, 'module m5'", "contains", "subroutine r4", "end subroutine r4", "end program p"], [], []),
          ("SPEC", ["type :: plain", "integer :: a", "end type plain"], [], []),
          ("SPEC", ["type plain2; integer :: a; end type; integer :: afterp"], [], []),
          ("SPEC", ["type, abstract :: base", "contains", "procedure(ipf), deferred, nopass :: f", "end type base", "abstract interface", "subroutine ipf(x)", "integer, intent(in) :: x",
                    "end subroutine ipf", "end interface"], [], []),
          ("SPEC", ["interface", "subroutine ext(x, y)", "integer, intent(in) :: x", "real, intent(out) :: y", "end subroutine ext", "integer function ef(x)",
                    "integer :: x", "end function ef", "end interface"], [], []),
          ("SPEC", ["integer :: contains_x, module_x, end_x, type_x", "integer :: interface_n = 4"], [], []),
          ("SPEC2", ["character(len=40) :: doc = 'contains; end module m ! type x'"], [], []),
          ("SPEC2", ["logical, save :: initialized = .false.", "real, dimension(2), save :: tab = (/ 1.0, 2.0 /)"], [], []),
          ("TYPE0", ["sequence"], [], []),
          ("TYPE", ["real(kp) :: u, v(3), w(:,:)", ""][:1], None, None),
          ("TYPE", ["real(kp) :: u, v(3)"], [V("u", "real", "kp"), V("v", "real", "kp", "(3)")], []),
          ("TYPE", ["real(kind=kp), pointer :: q(:,:) => null()"], [V("q", "real", "kp", "(:,:)")], []),
          ("TYPE", ["integer :: ar(3) = [1, 2, 3], br = 4"], [V("ar", "integer", "", "(3)"), V("br", "integer")], []),
          ("TYPE", ["character(len=8) :: c1 = 'a, b(c', c2 = \"it's ! :: d\", c3"], [V("c1", "character", "len=8"), V("c2", "character", "len=8"), V("c3", "character", "len=8")], []),
          ("TYPE", ["type(ty), pointer :: nxt => null()", "integer :: type_id = 1", "integer end_type_n"],
           [V("nxt", "ty", "ty"), V("type_id", "integer"), V("end_type_n", "integer")], []),
          ("TYPE", ["contains", "procedure, nopass :: hh", "final :: fin"], None, None),
          ("TYPE", ["logical(kind=4), allocatable, dimension(:) :: l1, l2(:,:)"], [V("l1", "logical", "4", "(:)", alloc=True), V("l2", "logical", "4", "(:,:)", alloc=True)], []),
          ("VARS", ["real(kp), dimension(2,3), public, target :: a1, a2(4)", "integer, parameter, public :: np = 3"],
           [V("a1", "real", "kp", "(2,3)"), V("a2", "real", "kp", "(4)"), V("np", "integer")], []),
          ("VARS", ["integer, public :: b1(3) = [1, 2, 3], b2(2) = (/ 4, 5 /), b3 = max(1, 2)"], [V("b1", "integer", "", "(3)"), V("b2", "integer", "", "(2)"), V("b3", "integer")], []),
          ("VARS", ["character(len=10), public :: d1 = 'x::y, z', d2 = '=='", "character*6, public :: d3"],
           [V("d1", "character", "len=10"), V("d2", "character", "len=10"), V("d3", "character", None)], []),
          ("VARS", ["character(len=10), public :: e1 = 'it''s ! c', e2 = \"a!b\"", "character, public :: e3"],
           [V("e1", "character", "len=10"), V("e2", "character", "len=10"), V("e3", "character", "len=1")], []),
          ("VARS", ["integer contains_y", "real, public :: end_module_x, module_y = 1.0"], [V("contains_y", "integer"), V("end_module_x", "real", None), V("module_y", "real", None)], []),
          ("VARS", ["interface", "subroutine ext2(x, y)", "integer, intent(in) :: x", "real :: y", "end subroutine ext2", "end interface"], [], []),
          ("VARS", ["interface gg", "module procedure s_run", "end interface gg", "public gg"], [], []),
          ("VARS", ["integer, public, protected, save :: pv", "integer, volatile :: vv", "logical, public, allocatable :: al(:)"],
           [V("pv", "integer"), V("vv", "integer"), V("al", "logical", "", "(:)", alloc=True)], []),
          ("VARS", ["double precision, public :: dp1, dp2(2)", "complex(kind=kp), public :: cc"],
           [V("dp1", "double precision", "kind_phys"), V("dp2", "double precision", "kind_phys", "(2)"), V("cc", "complex", "kp")], []),
          ("VARS", ["type(ty), public, target :: tt, ta(3)", "class(ty), public, pointer :: tc"],
           [V("tt", "ty", "ty"), V("ta", "ty", "ty", "(3)"), V("tc", "ty", "ty")], []),
          ("VARS", ["parameter (ip = 3)"], None, None),
          ("VARS", ["type late", "integer :: q = 1", "end type late", "integer, public :: afterl"], [V("afterl", "integer")], []),
          ("HEAD", ["subroutine s_run(im)"], [], []),
          ("HEAD", ["recursive subroutine s_run(im)"], [], []),
          ("HEAD", ["pure recursive subroutine s_run ( im )"], [], []),
          ("HEAD", ["impure elemental subroutine s_run(im)"], [], []),
          ("HEAD", ["subroutine s_run(im) bind(c, name='s_run')"], [], []),
          ("HEAD", ["! comment", "!! it's one more", "subroutine s_run(im)"], [], []),
          ("DECL0", ["use, intrinsic :: iso_c_binding, only: c_int", "implicit none"], [], []),
          ("DECL0", ["use iso_c_binding", "use iso_fortran_env, only: i8 => int64, real32"], [], []),
          ("DECL", ["integer :: i, j ! local, intent(in) :: k"], [], []),
          ("DECL", ["interface", "subroutine cb(x)", "integer, intent(in) :: x", "end subroutine cb", "end interface"], [], []),
          ("DECL", ["interface", "subroutine cb(im)", "integer, intent(out) :: im", "end", "end interface"], [], []),
          ("DECL", ["integer :: subroutine_n, function_f, contains_z, end_s"], [], []),
          ("DECL", ["type :: loc", "integer :: im", "end type loc"], [], []),
          ("BODY", ["if (im > 1) then", "print *, 'end subroutine s_run'", "end if"], None, None),
          ("BODY", ["block", "integer :: qq", "qq = im", "end block"], [], []),
          ("BODY", ["associate (x => im)", "end associate"], [], []),
          ("BODY", ["contains", "subroutine in1", "end subroutine in1", "subroutine in2(x)", "integer, intent(in) :: x", "end subroutine in2"], [], []),
          ("BODY", ["contains", "real function f1(x)", "real, intent(in) :: x", "f1 = x", "end function", "pure integer function f2()", "f2 = 1", "end"], [], []),
          ("BODY", ["10 continue", "return"], [], []),
          ("SUBS", ["subroutine a1r", "end subroutine a1r", "subroutine a2r(x)", "real, intent(in) :: x", "end subroutine a2r"], [], ["a1r", "a2r"]),
          ("SUBS", ["function fa(x) result(y)", "integer, intent(in) :: x", "integer :: y", "y = x", "end function fa", "real(kp) function fb(x)", "real(kp), intent(in) :: x",
                    "fb = x", "contains", "subroutine fbi", "end subroutine fbi", "subroutine fbj", "end", "end function fb"], [], []),
          ("SUBS", ["subroutine b1r", "contains", "subroutine b1i", "end subroutine b1i", "subroutine b1j", "end subroutine b1j", "end subroutine b1r"], [], ["b1r"]),
          ("SUBS2", ["subroutine c1r()", "print *, 'contains'", "end subroutine", "pure recursive subroutine c2r(x)", "integer, intent(in) :: x", "end"], [], ["c1r", "c2r"]),
          ("SUBS2", ["elemental real function fc(x)", "real, intent(in) :: x", "fc = x", "end function fc"], [], []),
          ("SUBS2", ["integer(kind=8) function fd(x)", "real, intent(in) :: x", "fd = 1", "contains", "subroutine fdi", "end subroutine fdi", "end function fd"], [], []),
          ("SUBS3", ["subroutine hh", "end subroutine hh"], [], ["hh"]),
          ("SUBS3", ["character(len=8) function fe(x)", "integer, intent(in) :: x", "fe = 'function'", "end function fe", "subroutine after_fe", "end subroutine after_fe"], [], ["after_fe"]),
          ("SUBS3", ["!> \\section arg_table_s_final Argument Table", "subroutine s_final", "end subroutine s_final"], [("s", "scheme", "m", [])], []),
          ("SUBS3", ["!> \\section arg_table_s_final Argument Table", "subroutine s_final(errmsg, errflg)", "character(len=*), intent(out) :: errmsg",
                     "integer, intent(out) :: errflg", "errmsg = ''; errflg = 0", "contains", "subroutine u1", "end subroutine u1", "subroutine u2", "end subroutine u2",
                     "end subroutine s_final"], [("s", "scheme", "m", [V("errmsg", "character", "len=*", "()", "out"), V("errflg", "integer", "", "()", "out")])], [])]
PIECES = [p for p in PIECES if p[2] is not None]
ENDS = {"full": lambda s: s,
        "noname": lambda s: re.sub(r"^end (module|subroutine|type|function|interface|program) \w+$", r"end \1", s),
        "joined": lambda s: re.sub(r"^end (module|subroutine|type|function|interface|program|if|block|associate)\b", r"end\1", s),
        "bare": lambda s: re.sub(r"^end (module|subroutine|function|program)( \w+)?$", "end", s)}


def assemble(picks, ends):
    """The lines of the file with these pieces, and its tables."""
    slots = {}
    pre, post, fin, others = [], [], [], ["x"][:0]
    tabs = {"TYPE": [V("n", "integer")], "VARS": [V("z", "integer")]}
    for slot, lines, adds, routines in picks:
        slots.setdefault(slot, []).extend(lines)
        others += routines
        if slot == "FIRST":
            pre += adds
        elif slot == "LAST":
            post += adds
        elif slot == "SUBS3":
            fin += adds
        elif slot in tabs:
            tabs[slot] += adds
    out = []
    for s in SKEL.strip().splitlines():
        if s[0] == "@":
            out += slots.get(s[1:], ["subroutine s_run(im)"] if s == "@HEAD" else [])
        else:
            out.append(s)
    want = pre + [("ty", "ddt", "m", tabs["TYPE"]), ("m", "module", "m", tabs["VARS"]), ("s", "scheme", "m", [V("im", "integer", "", "()", "in")]),
                  ("s", "scheme", "m", [V("errflg", "integer", "", "()", "out")])] + fin + post
    return [ENDS[ends](s) for s in out], (want, others)


def pieces(deep):
    """Every pair of pieces (thorough: triples of different slots) with every style of END statement and several letter cases."""
    lay = {"plain": lambda s: s, "upper": lambda s: re.sub(r"('[^']*')+|(\"[^\"]*\")+|[^'\"]+", lambda m: m.group(0) if m.group(0)[0] in "'\"" else m.group(0).upper(), s)}
    picks = [(p,) for p in PIECES] + [(p, q) for p, q in itertools.combinations(PIECES, 2) if p[0] != q[0] or p[0] in ("TYPE", "VARS", "SUBS2", "SPEC2")]
    if deep:
        picks += [t for t in itertools.combinations(PIECES, 3) if len({p[0] for p in t}) == 3]
    for n, ps in enumerate(picks):
        styles = list(itertools.product(ENDS, lay, ("free", "fixed"))) if len(ps) < 2 or deep and len(ps) == 2 else [
            (("full", "noname", "joined", "bare")[n % 4], ("plain", "upper")[n // 4 % 2], f) for f in (("free", "fixed") if deep and len(ps) < 3 else (("free", "fixed")[n // 8 % 2],))]
        for e, c, f in styles:
            src, want = assemble(ps, e)
            lines = []
            for s in src:
                if s[0] == "!":
                    lines.append(s)
                elif f == "free":
                    lines.append("  " + lay[c](s))
                else:
                    t = lay[c](s)
                    m = re.match(r"\d+ ", t)
                    first = (m.group(0).ljust(6) if m else "      ") + (t[m.end():] if m else t)[:66]
                    rest = (t[m.end():] if m else t)[66:]
                    lines.append(first)
                    while rest:
                        lines.append("     &" + rest[:66])
                        rest = rest[66:]
            yield " + ".join("%s/%s" % (p[0], p[1][0][:40]) for p in ps) + " %s %s" % (e, c), f, lines, want


# ---------------------------------------------------------------- compiler and framework
def compiler(path):
    r = subprocess.run(["gfortran", "-fsyntax-only", "-fdump-fortran-original", "-w", path], cwd=os.path.dirname(path), capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    return r.stdout, ""


_F = {}


def framework(path):
    if not _F:
        import importlib
        pff = importlib.import_module("fortran_tools.parse_fortran_file")
        from framework_env import CCPPFrameworkEnv
        from parse_tools import register_fortran_ddt_name
        register_fortran_ddt_name("ty")
        _F.update(p=pff.parse_fortran_file, env=CCPPFrameworkEnv(None, ndict={"host_files": "", "scheme_files": "", "suites": ""}))
    try:
        tabs, other = _F["p"](path, _F["env"])
    except Exception as exc:     # pylint: disable=broad-except
        return "%s: %s" % (type(exc).__name__, str(exc).replace(os.path.dirname(path), ""))
    out = []
    for t in tabs:
        for s in t.sections():
            vs = []
            for v in s.variable_list():
                g = lambda p: v.get_prop_value(p)
                dims = g("dimensions")
                dims = dims if isinstance(dims, str) else "(" + ",".join(dims) + ")"
                kind = g("kind")
                vs.append((g("local_name").lower(), g("type").lower(), (kind or "").lower().replace(" ", ""), dims.lower().replace(" ", ""),
                           g("intent") and g("intent").lower(), g("optional") in (True, "True"), g("allocatable") in (True, "True")))
            out.append((t.table_name.lower(), t.table_type, s.module.lower(), vs))
    return out, sorted(x.lower() for x in other)


def differ(want, got):
    if isinstance(got, str):
        return "fails with " + got
    (wt, wo), (gt, go) = want, got
    if [x[:3] for x in wt] != [x[:3] for x in gt]:
        return "tables %s instead of %s" % ([x[:3] for x in gt], [x[:3] for x in wt])
    for a, b in zip(wt, gt):
        if len(a[3]) != len(b[3]):
            return "%s: variables %s instead of %s" % (a[0], [v[0] for v in b[3]], [v[0] for v in a[3]])
        for v, w in zip(a[3], b[3]):
            if any(x is not None and x != y for x, y in zip(v[:4], w[:4])) or v[4:] != w[4:]:
                return "%s: %s instead of %s" % (a[0], w, v)
    if sorted(wo) != go:
        return "other routines %s instead of %s" % (go, sorted(wo))
    return None


def run(job):
    name, form, items, trees = job
    d = mc.newdir("c16")
    path = os.path.join(d, "x.F90" if form == "free" else "x.F")
    bad, n, lines_n = [], 0, 0
    try:
        for label, lines in items:
            with open(path, "w") as f:
                f.write("\n".join(lines[0] if name == "pieces" else lines) + "\n")
            n += 1
            lines_n += len(lines)
            tree, err = compiler(path)
            if name == "pieces":
                lines, want = lines
                if tree is None and " + " in label:
                    n -= 1          # pieces that do not go together
                    continue
            if tree is None or name != "pieces" and tree != trees[name]:
                raise RuntimeError("the compiler reads layout %s %s %s differently: %s\n%s" % (name, form, label, err[:600], "\n".join(lines)[:3000]))
            p = differ(want if name == "pieces" else CATALOG[name][1], framework(path))
            if p:
                bad.append((label, lines, p))
        return name, form, n, lines_n, bad
    finally:
        mc.rmdir(d)


def main():
    ck = mc.Check("C16", "model_checking")
    deep = not ck.quick
    trees, jobs, seen = {}, [], set()
    d = mc.newdir("c16")
    for name, (src, _) in CATALOG.items():
        p = os.path.join(d, "x.F90")
        with open(p, "w") as f:
            f.write("\n".join(plain(src)) + "\n")
        trees[name], err = compiler(p)
        if trees[name] is None:
            raise RuntimeError(err)
    mc.rmdir(d)
    for name, (src, _) in CATALOG.items():
        for form, gen in (("free", free), ("fixed", fixed)):
            items = []
            for label, lines in gen(src, deep):
                k = (name, form, "\n".join(lines))
                if k not in seen:
                    seen.add(k)
                    items.append((label, lines))
            for c in mc.chunks(items, 60):
                jobs.append((name, form, c, trees))
    for form in ("free", "fixed"):
        for c in mc.chunks([(lb, (ln, w)) for lb, f, ln, w in pieces(deep) if f == form], 60):
            jobs.append(("pieces", form, c, trees))
    n = tr = 0
    for name, form, k, ln, bad in mc.pmap(run, jobs):
        n += k
        tr += ln
        ck.outcome("%s %s read as written" % (name, form), k - len(bad))
        for label, lines, p in bad:
            ck.violation("%s %s %s" % (name, form, label), p, {"lines": lines})
    ck.sample("free: continuation at every token boundary and inside names and strings of 80 statements")
    ck.sample("fixed: continuation mark in column 6 at every column, text after column 72, comments between")
    ck.finish(states=n, transitions=tr, traces_validated_against_impl=n, layouts_validated_against_gfortran=n, exhaustive=True)


main()
