"""C17: preprocessor conditionals select the lines a C preprocessor selects.

All conditions of a grammar up to a size bound under all settings of the symbols, and all directive programs up to a
length bound (well formed and malformed), are read by the framework's file reader; the lines left are compared with a
reference interpreter written here, and the reference itself is compared with the real C preprocessor on the same
programs."""
import itertools
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

# ---------------------------------------------------------------- reference: expressions
TOK = ("||", "&&", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "!", "(", ")")


class Bad(Exception):
    pass


def tokens(s):
    out, i = [], 0
    while i < len(s):
        if s[i] in " \t":
            i += 1
            continue
        if s[i:i + 2] == "/*":
            i = s.index("*/", i) + 2
            continue
        for t in TOK:
            if s.startswith(t, i):
                out.append(t)
                i += len(t)
                break
        else:
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] == "_"):
                j += 1
            if j == i:
                raise Bad(s)
            out.append(s[i:j])
            i = j
    return out


LEVELS = [("||",), ("&&",), ("==", "!="), ("<", ">", "<=", ">="), ("+", "-"), ("*",)]


class Undef(str):
    """Value of an undefined symbol in the framework's own reading (mode 'own')."""


class Expr:
    """mode cpp: undefined symbols are 0. mode own: an undefined symbol equals nothing but itself and has no order."""

    def __init__(self, text, defs, mode, hide=()):
        self.t, self.i, self.defs, self.mode, self.hide = tokens(text), 0, defs, mode, hide

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self):
        self.i += 1
        if self.i > len(self.t):
            raise Bad("end")
        return self.t[self.i - 1]

    def value(self):
        v = self.level(0)
        if self.peek() is not None:
            raise Bad("rest")
        return v

    def level(self, n):
        if n == len(LEVELS):
            return self.unary()
        a = self.level(n + 1)
        while self.peek() in LEVELS[n]:
            op = self.take()
            b = self.level(n + 1)
            a = self.apply(a, op, b)
        return a

    def apply(self, a, op, b):
        if op in ("||", "&&"):
            return int((truth(a) or truth(b)) if op == "||" else (truth(a) and truth(b)))
        if isinstance(a, Undef) or isinstance(b, Undef):
            if op in ("==", "!="):
                same = isinstance(a, Undef) and isinstance(b, Undef) and a == b
                return int(same if op == "==" else not same)
            if op in ("<", ">", "<=", ">="):
                return 0
            raise Bad("undefined in arithmetic")
        return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b),
                "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()

    def unary(self):
        t = self.take()
        if t == "!":
            return int(not truth(self.unary()))
        if t in ("-", "+"):
            v = self.unary()
            if isinstance(v, Undef):
                raise Bad("undefined in arithmetic")
            return -v if t == "-" else v
        if t == "(":
            v = self.level(0)
            if self.take() != ")":
                raise Bad("paren")
            return v
        if t == "defined":
            n = self.take()
            if n == "(":
                n = self.take()
                if self.take() != ")":
                    raise Bad("defined")
            return int(n in self.defs)
        if t.isdigit():
            return int(t)
        if t[0].isalpha() or t[0] == "_":
            if t in self.defs and t not in self.hide:
                v = self.defs[t]
                if v is None:
                    return 1
                return Expr(v, self.defs, self.mode, tuple(self.hide) + (t,)).value()
            return 0 if self.mode == "cpp" else Undef(t)
        raise Bad(t)


def truth(v):
    return not isinstance(v, Undef) and v != 0


# ---------------------------------------------------------------- reference: directives
def interpret(lines, defs, mode):
    """-> list of kept line texts, or Bad when the structure is malformed."""
    defs = dict(defs)
    stack, kept = [], []                     # [active, done, else seen]
    for ln in lines:
        s = ln.strip()
        if not s.startswith("#"):
            if all(x[0] for x in stack):
                kept.append(s)
            continue
        s = s[1:].strip()
        word = ""
        while s and (s[0].isalnum() or s[0] == "_"):
            word += s[0]
            s = s[1:]
        if "/*" not in s:
            s = s.split("!")[0] if word in ("ifdef", "ifndef", "else", "endif", "undef") else s
        else:
            b = s.index("/*")
            s = s[:b] + " " + s[s.index("*/", b) + 2:]
        s = s.strip()
        outer = all(x[0] for x in stack)
        if word in ("ifdef", "ifndef", "if"):
            v = False
            if outer:
                v = (s in defs) == (word == "ifdef") if word != "if" else truth(Expr(s, defs, mode).value())
            stack.append([v, v, False])
        elif word in ("elif", "else"):
            if not stack or stack[-1][2]:
                raise Bad("misplaced " + word)
            top = stack[-1]
            if word == "else":
                top[2] = True
                v = True
            else:
                v = not top[1] and all(x[0] for x in stack[:-1]) and truth(Expr(s, defs, mode).value())
            top[0] = v and not top[1]
            top[1] = top[1] or v
        elif word == "endif":
            if not stack:
                raise Bad("misplaced endif")
            stack.pop()
        elif word == "define" and outer:
            n = ""
            while s and (s[0].isalnum() or s[0] == "_"):
                n += s[0]
                s = s[1:]
            if s[:1] == "(":
                s = s[s.index(")") + 1:]
            defs[n] = s.strip()
        elif word == "undef" and outer:
            defs.pop(s, None)
    if stack:
        raise Bad("open region")
    return kept


# ---------------------------------------------------------------- the framework
_F = {}


def framework(path, lines, defs):
    """-> ('kept', [..]) | ('refused', text) | ('crash', text)"""
    if not _F:
        import importlib
        pff = importlib.import_module("fortran_tools.parse_fortran_file")
        from parse_tools import CCPPError, ParseSyntaxError
        from framework_env import CCPPFrameworkEnv
        _F.update(p=pff, err=(CCPPError, ParseSyntaxError), env=CCPPFrameworkEnv)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    env = _F["env"](None, ndict={"host_files": "", "scheme_files": "", "suites": "",
                                 "preproc_directives": [k if v is None else "-D%s=%s" % (k, v) for k, v in defs.items()]})
    before = dict(env.preproc_defs)
    try:
        pobj = _F["p"].read_file(path, preproc_defs=env.preproc_defs)
        pobj.reset_pos()
        out = []
        line, _ = pobj.curr_line()
        while line is not None:
            if line.strip():
                out.append(line.strip())
            line, _ = pobj.next_line()
    except _F["err"] as exc:
        return "refused", str(exc)
    except Exception as exc:     # pylint: disable=broad-except
        return "crash", "%s: %s" % (type(exc).__name__, exc)
    if env.preproc_defs != before:
        return "leak", "the definitions for later files change from %s to %s" % (before, env.preproc_defs)
    return "kept", out


def defline(defs):
    return " ".join("%s=%s" % (k, v) if v is not None else k for k, v in sorted(defs.items())) or "-"


def judge(lines, defs, got):
    """-> (outcome, key prefix, problem)"""
    res = {}
    for mode in ("cpp", "own"):
        try:
            res[mode] = ("kept", interpret(lines, defs, mode))
        except Bad as exc:
            res[mode] = ("refused", str(exc))
    w = res["cpp"]
    if got[0] in ("crash", "leak"):
        return "crash", "", got[1]
    if w[0] == "refused":
        if got[0] == "refused":
            return "refused", "", None
        return "refused", "malformed ", "malformed (%s) but read: %r" % (w[1], got[1])
    if got == w:
        return "kept", "", None
    if got[0] == "kept" and res["own"] == got:
        return "kept", "undefined-compare ", "an undefined symbol is not taken as 0: kept %r instead of %r" % (got[1], w[1])
    return "kept", "", "%s %r, a C preprocessor keeps %r" % (got[0], got[1], w[1])


def cpp_check(progs):
    """Run all well formed programs through the real C preprocessor in one file; returns programs where the reference
    interpreter (mode cpp) disagrees with it."""
    text = []
    for n, (lines, defs) in enumerate(progs):
        text.append("@@%d" % n)
        for s in ("A", "B", "X", "F"):
            text.append("#undef " + s)
        for k, v in defs.items():
            text.append("#define %s %s" % (k, 1 if v is None else v))
        text += [ln.split("!")[0] if ln.strip().startswith("#") and ln.split("!")[0].strip().split(" ")[0] in ("#else", "#endif", "#ifdef")
                 else ln for ln in lines]
    r = subprocess.run(["cpp", "-P", "-w", "-nostdinc", "-undef", "-"], input="\n".join(text) + "\n", capture_output=True, text=True)
    if r.returncode:
        return ["cpp fails: " + r.stderr[:300]]
    got, cur = {}, None
    for ln in r.stdout.splitlines():
        if ln.startswith("@@"):
            cur = int(ln[2:])
            got[cur] = []
        elif ln.strip() and not ln.startswith("#pragma"):
            got[cur].append(ln.strip())
    return ["%s [%s]: cpp keeps %r, reference %r" % (" ; ".join(lines), defline(defs), got.get(n), interpret(lines, defs, "cpp"))
            for n, (lines, defs) in enumerate(progs) if got.get(n) != interpret(lines, defs, "cpp")]


def run(job):
    kind, items = job
    d = mc.newdir("c17")
    path = os.path.join(d, "x.F90")
    bad, out, wf, n = [], {}, [], 0
    per = {}
    try:
        for lines, defs in items:
            n += 1
            o, key, b = judge(lines, defs, framework(path, lines, defs))
            out[o] = out.get(o, 0) + 1
            if b and per.setdefault(key, 0) < 3:
                per[key] += 1
                bad.append((key, lines, defs, b))
            if o == "kept" or o == "crash":
                wf.append((lines, defs))
        dis = []
        for i in range(0, len(wf), 2000):
            part = []
            for lines, defs in wf[i:i + 2000]:
                try:
                    interpret(lines, defs, "cpp")
                    part.append((lines, defs))
                except Bad:
                    pass
            dis += cpp_check(part)
        return n, bad, out, len(wf), dis
    finally:
        mc.rmdir(d)


def conditions(depth):
    atoms = ["A", "B", "0", "1", "defined(A)", "defined B"]
    lv = [atoms]
    for _ in range(depth):
        prev = [e for l in lv for e in l]
        new = ["!" + (a if " " not in a or a.startswith("(") else "(%s)" % a) for a in prev] + ["(%s)" % a for a in prev[:6]]
        new += ["%s %s %s" % (a, op, b) for a in prev for b in (prev if len(prev) < 8 else atoms)
                for op in ("&&", "||", "==", "!=", ">", "<=")]
        lv.append(sorted(set(new) - set(prev)))
    return [e for l in lv for e in l]


SETTINGS = [dict(p for p in (("A", a), ("B", b)) if p[1] != "undef") for a in ("undef", None, "0", "2") for b in ("undef", "0", "1")]
DIRS = ["#ifdef A", "#ifndef A", "#if A == 1", "#elif defined(A)", "#elif 1", "#else", "#endif", "#define A 1", "#undef A", "x"]


def programs(n):
    for k in range(1, n + 1):
        for t in itertools.product(DIRS, repeat=k):
            if t[-1] == "x" and k > 1 and t[-2] == "x" or not any(c.startswith("#") for c in t):
                continue
            yield ["line%d = 1" % i if c == "x" else c for i, c in enumerate(t)] + ([] if t[-1] == "x" else ["line_end = 1"])


def well_formed(n):
    """All well formed programs of n directives, with a line after every directive."""
    op = ["#ifdef A", "#ifndef B", "#if A == 1 || defined B"]

    def rec(left, stack):
        if left == 0:
            if not stack:
                yield []
            return
        if len(stack) > left:
            return
        for o in op:
            for r in rec(left - 1, stack + [0]):
                yield [o] + r
        if stack:
            if stack[-1] == 0:
                for c in ("#elif defined(B)", "#elif ! defined(A) && B != 2"):
                    for r in rec(left - 1, stack):
                        yield [c] + r
                for r in rec(left - 1, stack[:-1] + [1]):
                    yield ["#else"] + r
            for r in rec(left - 1, stack[:-1]):
                yield ["#endif"] + r
        for c in ("#define B 2", "#undef A"):
            for r in rec(left - 1, stack):
                yield [c] + r
    for p in rec(n, []):
        yield ["l0 = 0"] + [x for i, c in enumerate(p) for x in (c, "l%d = 0" % (i + 1))]


def deep_nests(depth):
    """Nests of `depth` regions; every level has a condition, an optional second branch and the inner level in either."""
    op = ["#ifdef A", "#ifndef B", "#if A == 1"]
    shape = [(o, b, i) for o in op for b in ("", "#else", "#elif defined(B)") for i in (0, 1) if b or not i]
    for t in itertools.product(shape, repeat=depth):
        if depth > 3 and len({x[1:] for x in t}) > 2:
            continue
        body = ["x0 = 0"]
        for n, (o, b, i) in enumerate(t):
            a, z = ["a%d = 0" % n], ["z%d = 0" % n]
            body = [o] + a + ([] if i else body) + z + ([b, "b%d = 0" % n] + (body if i else []) if b else []) + ["#endif", "e%d = 0" % n]
        yield body


LAYOUT = [["#if(A == 1)", "l1 = 1", "#elif(B == 1)", "l2 = 1", "#else", "l3 = 1", "#endif"],
          ["# if A == 1", "l1 = 1", "#  elif B == 1", "l2 = 1", "# else", "l3 = 1", "# endif"],
          ["  #ifdef A", "l1 = 1", "  #else", "l2 = 1", "  #endif"],
          ["#ifdef A ! comment", "l1 = 1", "#else ! not A", "l2 = 1", "#endif ! A"],
          ["#ifdef A /* comment */", "l1 = 1", "#else /* not A */", "l2 = 1", "#endif /* A */"],
          ["#if defined(A) /* comment */", "l1 = 1", "#endif"],
          ["#ifdef\tA", "l1 = 1", "#endif"], ["#ifdef   A  ", "l1 = 1", "#endif"],
          ["#ifndef A", "#define A", "#endif", "#ifdef A", "l1 = 1", "#endif"],
          ["#define A", "#ifdef A", "l1 = 1", "#endif"],
          ["#define X(a) a", "#ifdef X", "l1 = 1", "#endif"],
          ["#define X (2)", "#if X == 2", "l1 = 1", "#endif"],
          ["#define X A", "#if X == 2", "l1 = 1", "#endif"],
          ["#define X 1 + 1", "#if X == 2", "l1 = 1", "#endif"],
          ["#define X 1 /* one */", "#if X == 1", "l1 = 1", "#endif"],
          ["#undef A", "#if defined A", "l1 = 1", "#else", "l2 = 1", "#endif"],
          ["#if defined ( A )", "l1 = 1", "#endif"], ["#if defined( A )&&!defined(B)", "l1 = 1", "#endif"],
          ["#if !A", "l1 = 1", "#endif"], ["#if ! A == 1", "l1 = 1", "#endif"], ["#if !(A == 1)", "l1 = 1", "#endif"],
          ["#if A", "l1 = 1", "#endif"], ["#if A && B", "l1 = 1", "#endif"],
          ["#if defined A && defined B || 0", "l1 = 1", "#endif"],
          ["#if defined(A) && defined(B) && 0", "l1 = 1", "#endif"],
          ["#if 0 || 0 || defined(A)", "l1 = 1", "#endif"],
          ["#if A == 2 == 1", "l1 = 1", "#endif"], ["#if 2 > 1 == 1", "l1 = 1", "#endif"], ["#if 1 == 2 > 1", "l1 = 1", "#endif"],
          ["#if 3 > 2 > 1", "l1 = 1", "#endif"], ["#if 1 + 1 == 2", "l1 = 1", "#endif"], ["#if -1 < 0", "l1 = 1", "#endif"],
          ["#if 2 * 2 - 4", "l1 = 1", "#else", "l2 = 1", "#endif"],
          ["#include <foo.h>".replace("#include <foo.h>", "#pragma foo"), "l1 = 1"],
          ["call s(a, &", "#ifdef A", "       b, &", "#else", "       c, &", "#endif", "       d)"]]


def main():
    deep = len(sys.argv) > 1 and sys.argv[1] == "thorough"
    ck = mc.Check("C17", "model_checking")
    jobs = []

    def add(kind, it, size=1500):
        it = iter(it)
        while True:
            c = list(itertools.islice(it, size))
            if not c:
                return
            jobs.append((kind, c))
    conds = conditions(2)
    if not deep:
        conds = [c for i, c in enumerate(conds) if len(c) < 22 or i % 2 == 0]
    sets = SETTINGS
    add("cond", ((["#if " + c, "l1 = 1", "#endif"] if i % 2 else ["#if 0", "l0 = 1", "#elif " + c, "l1 = 1", "#else", "l2 = 1", "#endif"], s)
                 for i, c in enumerate(conds) for s in (sets if len(c) < 14 or deep else sets[::2] if i % 3 else sets[1::2])))
    three = ["defined(A)", "A == 2", "B", "!defined(B)", "0", "1"]
    add("cond3", ((["#if %s %s %s %s %s" % (a, o, b, p, c), "l1 = 1", "#endif"], s) for a in three for b in three for c in three
                  for o in ("&&", "||") for p in ("&&", "||") for s in (sets if deep else sets[::2])))
    add("prog", ((p, s) for p in programs(6 if deep else 5) for s in ({}, {"A": "1"})))
    for k in (2, 4, 5) + ((6,) if deep else ()):
        add("nest", ((p, s) for p in well_formed(k) for s in ({}, {"A": "1"}, {"B": "2"}, {"A": "1", "B": None})))
    for k in (3, 4) if deep else (3,):
        add("deep", ((p, s) for p in deep_nests(k) for s in ({}, {"A": "1"}, {"B": "2"}, {"A": "1", "B": None})))
    add("layout", ((p, s) for p in LAYOUT[:-1] for s in SETTINGS if not any("X A" in x for x in p) or "A" in s))
    n = refs = 0
    states = set()
    for job, (k, bad, out, wf, dis) in zip(jobs, mc.pmap(run, jobs)):
        n += k
        refs += wf
        for o, c in out.items():
            ck.outcome(job[0] + " " + o, c)
        for key, lines, defs, b in bad:
            ck.violation("%s%s [%s]" % (key, " ; ".join(lines), defline(defs)), b)
        for x in dis:
            raise SystemExit("reference interpreter and cpp disagree: %s" % x)
    # a continued statement with a directive in the middle: the framework joins the pieces it keeps
    d = mc.newdir("c17")
    for defs in ({}, {"A": "1"}):
        g = framework(os.path.join(d, "x.F90"), LAYOUT[-1], defs)
        w = "call s(a, %s, d)" % ("b" if "A" in defs else "c")
        if g[0] != "kept" or "".join("".join(g[1]).split()) != "".join(w.split()):
            ck.violation("continued statement [%s]" % defline(defs), "read as %r instead of %r" % (g, w))
    mc.rmdir(d)
    ck.sample("#if 0 / #elif defined(A) / #else / #endif")
    ck.finish(states=n, transitions=sum(1 for j in jobs for p in j[1] for _ in p[0]), traces_validated_against_impl=n,
              reference_programs_validated_against_cpp=refs, exhaustive=True)


main()
