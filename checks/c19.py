"""C19: emitted Fortran lines keep the statement intact within the line limit.

Bounded exhaustive enumeration of statements (token sequences with names, strings, operators and comments of enumerated
lengths, and every short character sequence), indentations and limits, written by the real FortranWriter; the lines are
joined again by an independent implementation of the free-form continuation rules and compared token by token."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from fortran_tools import FortranWriter
from code_block import CodeBlock

OPS2 = ("//", "**", "=>", "::", "/=", "==", "<=", ">=", "(/", "/)")


def split_comment(line, quote):
    """(code, comment or None, context at the end)"""
    for i, c in enumerate(line):
        if quote:
            if c == quote:
                quote = ""
        elif c in "'\"":
            quote = c
        elif c == "!":
            return line[:i], line[i + 1:], ""
    return line, None, quote


def tokens(s):
    """Lexical tokens of a statement; \\0 separates tokens."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in " \0":
            i += 1
        elif c in "'\"":
            j = i + 1
            while j < len(s):
                if s[j] == c:
                    if s[j + 1:j + 2] == c:
                        j += 2
                        continue
                    break
                j += 1
            if j >= len(s):
                raise ValueError("unterminated string")
            out.append(s[i:j + 1])
            i = j + 1
        elif c.isalnum() or c == "_":
            j = i
            while j < len(s) and (s[j].isalnum() or s[j] == "_"):
                j += 1
            out.append(s[i:j])
            i = j
        elif s[i:i + 2] in OPS2:
            out.append(s[i:i + 2])
            i += 2
        else:
            out.append(c)
            i += 1
    return out


def join(lines):
    """Apply the continuation rules; returns (list of statement texts, comment text without blanks and exclamation marks)."""
    stmts, comm = [], ""
    cur, quote, cont = "", "", False
    for line in lines:
        s = line.strip()
        if not quote and (not s or s[0] == "!"):
            comm += s
            continue
        if not s or s == "&":
            raise ValueError("a line holds nothing but a continuation: %r" % line)
        if cont and s[0] == "&":
            body = line[line.index("&") + 1:]
        elif quote:
            raise ValueError("a string continues without '&' at the beginning of the line: %r" % line)
        else:
            if s[0] == "&":
                raise ValueError("'&' at the beginning of a line which continues nothing: %r" % line)
            body = ("\0" if cont else "") + line.lstrip()
        code, comment, q = split_comment(body, quote)
        if comment is not None:
            comm += comment
        r = code.rstrip()
        if r.endswith("&"):
            cont = True
            quote = split_comment(r[:-1], quote)[2]
            cur += r[:-1]
            if not r[:-1].strip(" \0") and not quote:
                raise ValueError("a line holds nothing but continuations: %r" % line)
        else:
            if q:
                raise ValueError("a string ends with the line: %r" % line)
            stmts.append(cur + code)
            cur, quote, cont = "", "", False
    if cont:
        raise ValueError("the last line asks for a continuation")
    return stmts, comm.replace(" ", "").replace("!", "")


def verdict(stmt, lines, lim):
    """None or what is wrong with the emitted lines."""
    try:
        stmts, comm = join(lines)
        code, comment, _ = split_comment(stmt.strip(), "")
        want = tokens(code)
        got = [tokens(s) for s in stmts if s.strip(" \0")]
        if got != ([want] if want else []):
            return "joins to %r" % (got,)
        if comm != (comment or "").replace(" ", "").replace("!", ""):
            return "comment becomes %r" % comm
    except ValueError as exc:
        return str(exc)
    for line in lines:
        if len(line) > lim:
            return "line of %d characters: %r" % (len(line), line)
    return None


MARK = "!@"


def batch(job):
    """One writer for many statements; returns (number, lines, problems)."""
    kw, level, stmts = job
    d = mc.newdir("c19")
    bad = []
    try:
        fn = os.path.join(d, "w.F90")
        done = []
        fw = FortranWriter(fn, "w", "mc", "mc", **kw)
        fw.write(MARK, 0)
        for s in stmts:
            try:
                fw.write(s, level)
            except Exception as exc:   # pylint: disable=broad-except
                bad.append((s, "%s: %s" % (type(exc).__name__, exc)))
                done.append(None)
                fw.write(MARK, 0)
                continue
            done.append(s)
            fw.write(MARK, 0)
        fw.__exit__()
        with open(fn) as f:
            parts = [[]]
            for line in f.read().split("\n"):
                if line == MARK:
                    parts.append([])
                else:
                    parts[-1].append(line)
        parts = parts[1:-1]
        n = 0
        for s, p in zip(done, parts):
            lines = p
            n += len(lines) > 1
            if s is not None:
                w = verdict(s, lines, kw.get("line_max", 130))
                if w:
                    bad.append((s, w))
        return len(done), n, bad
    finally:
        mc.rmdir(d)


def balanced(s):
    return split_comment(s, "")[2] == ""


def char_space(n):
    """All character sequences up to length n without '&' outside of strings (which is never part of a statement)."""
    for k in range(1, n + 1):
        for t in itertools.product("a ,'!/\"", repeat=k):
            s = "".join(t)
            if s.strip() and "///" not in s and balanced(s) and not (s.count('"') and s.count("'") and k > n - 1):
                yield s


def token_space(quick):
    u = lambda c, n: (c * n)
    items = [u("a", 1), u("b", 6), u("c", 11), u("d", 19), u("e", 40), "'" + u("f", 3) + "'", "'it''s, a! ''" + u("g", 8) + "'",
             '"x & y // \'' + u("h", 14) + '"', "' " + u("i ", 12) + "&'", "'" + u("j", 45) + "'", "(/" + "k, " * 6 + "k/)"]
    seps = [", ", ",", " ", " // ", "//", " = ", "(", "=>"]
    comm = ["", " ! " + u("l", 4), "! " + "m don't " * 5, " !" + u("n", 30)]
    if quick:
        seps = seps[:1] + seps[2:3] + seps[4:6]
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        for it in itertools.product(items if k < 4 else items[2:8], repeat=k):
            for sp in itertools.product(seps if k < 4 else seps[:5:2], repeat=k - 1):
                s = it[0] + "".join(a + b for a, b in zip(sp, it[1:]))
                for c in comm if k < 4 else comm[:3]:
                    yield s + c
    for n in range(0, 60):
        yield "!" + u("o", n)
        yield "! " + u("p ", n)
        yield "!" * n + " q"
        yield "! it's " + u("r", n)
        yield "call x(" + u("s", n) + ")"
        yield "'" + u("t", n) + "'"
        yield u("u", n) + " ! v"


def default_space():
    """Statements around the limits the tool really uses."""
    for n in list(range(30, 135)) + [140, 200, 262, 263, 264, 400]:
        yield "call x(" + "s" * n + ")"
        yield "t = '" + "u" * n + "'"
        yield "t = '" + "u " * (n // 2) + "' // v"
        yield "call endrun('it''s " + "w, " * (n // 3) + "', " + "y" * 40 + ")"
        yield "integer :: " + "z" * min(n, 63) + " = 1 ! " + "c " * (n // 2)
        yield "! " + "d " * (n // 2) + "don't"
        yield "a" * min(n, 63) + "=" + "b" * 63 + ",c=" + "d" * n
        yield "use m, only: " + ", ".join("%s%d" % ("e" * (n % 60 + 1), i) for i in range(n // 10))


def code_blocks(ck):
    """Every short template of literal text, {{ }} and variables, with each subset of variables provided."""
    parts = ["x", "{a}", "{b}", "{{", "}}", "{ a }"]
    n = 0
    for k in (1, 2, 3, 4):
        for t in itertools.product(parts, repeat=k):
            stmt = "".join(t)
            # str.format is the specification of the text; templates it rejects are not templates
            try:
                want = stmt.replace("{ a }", "{a}").format(a="AA", b="BB")
            except ValueError:
                continue
            need = {x.strip("{ }") for x in t if x not in ("x", "{{", "}}")}
            if "{ a }" in t:
                continue
            for have in ((), ("a",), ("b",), ("a", "b")):
                for lev, rel in ((1, 0), (0, 1), (2, 1), (2, -1)):
                    n += 1
                    w = Rec()
                    err = None
                    try:
                        CodeBlock([(stmt, rel), ("y", 0)]).write(w, lev, {x: x.upper() * 2 for x in have})
                    except Exception as exc:   # pylint: disable=broad-except
                        err = exc
                    key = "block %r with %s" % (stmt, ",".join(have))
                    if need - set(have):
                        if err is None or type(err).__name__ != "ParseInternalError":
                            ck.violation(key, "missing variable: %s" % (type(err).__name__ if err else "accepted"))
                        elif not all("'%s'" % v in str(err) for v in need - set(have)):
                            ck.violation(key, "the message does not name the missing variables: %s" % err)
                    elif err is not None:
                        ck.violation(key, "%s: %s" % (type(err).__name__, err))
                    elif w.out != [(want, lev + rel if rel >= 0 else 0), ("y", lev)]:
                        ck.violation(key, "writes %r" % (w.out,))
    return n


class Rec:
    def __init__(self):
        self.out = []

    def write(self, stmt, indent, *_):
        self.out.append((stmt, indent))


def main():
    ck = mc.Check("C19", "exploration")
    jobs = []

    def add(kw, level, it, size=20000):
        it = iter(it)
        while True:
            b = list(itertools.islice(it, size))
            if not b:
                break
            jobs.append((kw, level, b))
    q = ck.quick
    for fill, mx in ((4, 7), (5, 8)) if q else ((3, 6), (4, 7), (5, 8), (6, 9)):
        for level in (0, 1):
            add(dict(line_fill=fill, line_max=mx, indent=1, continue_indent=1), level, char_space(6 if q else 7))
    for fill, mx in ((24, 34), (30, 40)) if q else ((20, 26), (24, 34), (30, 40), (37, 41), (45, 70)):
        for level in (0, 2):
            add(dict(line_fill=fill, line_max=mx), level, token_space(q))
    for level in range(0, 8):
        add({}, level, default_space())
    n = m = 0
    for job, (a, b, bad) in zip(jobs, mc.pmap(batch, jobs)):
        n += a
        m += b
        for s, w in bad:
            ck.outcome("bad")
            ck.violation("fill %s max %s level %d: %s" % (job[0].get("line_fill", 97), job[0].get("line_max", 130), job[1], s), w)
    # several statements at once
    for t in itertools.product(("a = 1", "! c", "", "call f(x, &\n y)", "s = 'x'\nt = 2"), repeat=3):
        d = mc.newdir("c19")
        try:
            fn = os.path.join(d, "w.F90")
            for arg in (list(t), "\n".join(t)):
                with FortranWriter(fn, "w", "mc", "mc") as fw:
                    fw.write(MARK, 0)
                    fw.write(arg, 1)
                    fw.write(MARK, 0)
                with open(fn) as f:
                    got = [x.strip() for x in f.read().split(MARK)[1].split("\n")[1:-1]]
                n += 1
                if got != [x.strip() for x in "\n".join(t).split("\n")]:
                    ck.violation("lines %r" % (arg,), "writes %r" % got)
        finally:
            mc.rmdir(d)
    nb = code_blocks(ck)
    ck.sample("fill 24 max 34 level 2: %s" % jobs[len(jobs) // 2][2][77])
    ck.finish(evaluations=n + nb, distinct_nontrivial=m, code_block_templates=nb, exhaustive=True,
              rule="statements which need more than one line")


main()
