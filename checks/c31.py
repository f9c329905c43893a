#!/opt/venv/bin/python
"""C31: lists of input files name exactly the files stated, in the stated order.

Every list of up to three entries over a catalogue of ways to name files (relative, absolute, not normalised, directory, wildcards,
list files, missing files, other extensions), given as a comma-separated string and as a list, and every content of a list file of
up to three lines (entries, comments, blank lines, list files which name further list files, themselves and each other), is expanded by the
framework below directories with plain and unusual names.  The result is compared with a reference expansion made from the entries'
meaning.  A catalogue of lists is then given to the command-line tools, whose input files are observed as they are opened."""
import builtins
import itertools
import logging
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc  # noqa
import cg  # noqa

# the tree below the root directory R ('@' stands for R)
FILES = ["a.meta", "b.meta", "c.F90", "noext", "sub/s1.meta", "sub/s2.meta", "sub/t.F90", "q[1]/x.meta", "q[1]/y.meta", "q1/z.meta", "v w/k.meta"]
DIRS = ["empty"]
# entry -> what it names: files in order; "!" entries are missing files; None: ignored
ENT = {
    "a.meta": ["a.meta"], "./a.meta": ["a.meta"], "sub/../a.meta": ["a.meta"], "@/a.meta": ["a.meta"],
    "@/./sub/../a.meta": ["a.meta"], "@//a.meta": ["a.meta"], "b.meta": ["b.meta"], "sub": ["sub/s1.meta", "sub/s2.meta"],
    "sub/": ["sub/s1.meta", "sub/s2.meta"], "@/sub": ["sub/s1.meta", "sub/s2.meta"], "*.meta": ["a.meta", "b.meta"],
    "sub/s?.meta": ["sub/s1.meta", "sub/s2.meta"], "s*/s1.meta": ["sub/s1.meta"], "nomatch*.meta": [],
    "sub/s2.meta": ["sub/s2.meta"], "missing.meta": ["!missing.meta"], "sub/missing.meta": ["!sub/missing.meta"],
    "c.F90": [], "noext": [], "empty": [], "q[1]": ["q[1]/x.meta", "q[1]/y.meta"], "q[1]/x.meta": ["q[1]/x.meta"], "v w": ["v w/k.meta"],
    "v w/k.meta": ["v w/k.meta"], "missing.txt": ["!missing.txt"],
    "[ab].meta": ["a.meta", "b.meta"],
}
CORE = ["a.meta", "./a.meta", "@/./sub/../a.meta", "b.meta", "sub", "*.meta", "sub/s2.meta", "missing.meta", "c.F90", "q[1]", "q[1]/x.meta",
        "v w/k.meta", "l1.txt", "sub/l2.txt", "missing.txt"]
# lines of a list file in R (and, with the same spelling but another meaning, in R/sub)
LINES = ["a.meta", "  b.meta  ", "# a.meta", "! b.meta", "", "sub", "sub/s1.meta", "@/a.meta", "*.meta", "missing.meta", "l1.txt", "sub/l2.txt",
         "../r/b.meta", "c.F90"]
SUBLINES = ["s1.meta", "../b.meta", "s*.meta", "l2.txt", "../l1.txt", "# x", "@/a.meta", "missing.meta", "."]


class World:
    def __init__(self, l1, l2):
        self.l1, self.l2 = l1, l2

    def meaning(self, entry, base):
        """The files an entry means; base: '' for R, 'sub' for R/sub."""
        e = entry
        if e.startswith("@"):
            e, base = e[1:].lstrip("/"), ""
        e = os.path.normpath(os.path.join(base, e)) if e else "."
        if e.startswith("../"):                       # '../r/..' : R itself by its name
            p = e.split("/")
            e = "/".join(p[2:])
        if e in ("l1.txt", "sub/l2.txt"):
            return ("list", e)
        if e == "missing.txt":
            return ("files", ["!missing.txt"])
        if e == ".":
            return ("files", ["a.meta", "b.meta"])
        if e in FILES:
            return ("files", [e] if e.endswith(".meta") else [])
        for k, v in ENT.items():
            if os.path.normpath(k) == e:
                return ("files", v)
        if "*" in e or "?" in e:
            d, pat = os.path.split(e)
            if pat in ("s*.meta", "*.meta"):
                return ("files", sorted(f for f in FILES if os.path.dirname(f) == d and f.endswith(".meta")))
            raise AssertionError(e)
        return ("files", ["!" + e])

    def expand(self, entries):
        got, missing, seen = [], [], set()

        def go(ents, base):
            for e in ents:
                kind, v = self.meaning(e, base)
                if kind == "list":
                    if v in seen:
                        continue
                    seen.add(v)
                    lines = self.l1 if v == "l1.txt" else self.l2
                    go([x.strip() for x in lines if x.strip() and x.strip()[0] not in "#!"], os.path.dirname(v))
                else:
                    for f in v:
                        if f.startswith("!"):
                            missing.append(f[1:])
                        elif f not in got:
                            got.append(f)
        go(entries, "")
        return got, missing


def setup(top, rname):
    """A tree <top>/<rname>; a sibling link name 'r' is not used: '../r' is the tree itself only if rname is 'r'."""
    R = os.path.join(top, rname)
    os.makedirs(R)
    for f in FILES:
        os.makedirs(os.path.dirname(os.path.join(R, f)), exist_ok=True)
        open(os.path.join(R, f), "w").write("! %s\n" % f)
    for d in DIRS:
        os.makedirs(os.path.join(R, d))
    return R


def put(R, name, lines, eol=True):
    with open(os.path.join(R, name), "w") as f:
        f.write("\n".join(x.replace("@", R) for x in lines) + ("\n" if eol else ""))


def one(R, w, entries, form, rooted):
    """Run the real expansion."""
    import file_utils
    from parse_tools import CCPPError
    log = logging.getLogger("c31")
    ents = [e.replace("@", R) for e in entries]
    arg = {"list": list(ents), "str": ",".join(ents), "blanks": " , ".join([""] + ents + [" "])}[form]
    old = os.getcwd()
    os.chdir("/" if rooted else R)
    try:
        try:
            res = file_utils.create_file_list(arg, ["meta"], "Scheme", log, root_path=R if rooted else None)
            res = ("files", [os.path.relpath(os.path.realpath(f), os.path.realpath(R)) for f in res])
        except CCPPError as e:
            res = ("error", str(e))
        except Exception as e:  # noqa
            res = ("crash", "%s: %s" % (type(e).__name__, e))
    finally:
        os.chdir(old)
    if form == "list" and arg != ents:
        return ("changed", "the caller's list was changed to %s" % arg)
    return res


def judge(w, entries, res):
    got, missing = w.expand(entries)
    kind, v = res
    if missing:
        if kind != "error":
            return "%s is missing, but the list was accepted: %s" % (missing[0], res)
        for m in missing:
            if os.path.basename(m) not in v:
                return "the error does not name the missing file %s: %s" % (m, v)
        return None
    if kind != "files" or v != got:
        return "expected %s, seen %s" % (got, res)
    return None


def cases(deep):
    """(root name, l1 lines, l2 lines, entries, form, rooted)"""
    l1, l2 = ["b.meta", "sub/l2.txt"], ["s1.meta", "../a.meta"]
    for e in ENT:
        for form in ("list", "str", "blanks"):
            for rooted in (False, True):
                for rn in ("r", "r [1]*", "r.txt", "r.meta"):
                    yield rn, l1, l2, [e], form, rooted
    al = sorted(set(list(ENT) + CORE))
    for e in itertools.product(al, repeat=2):
        for form in ("list", "str"):
            yield "r", l1, l2, list(e), form, False
    for e in itertools.product(CORE, repeat=3 if not deep else 4):
        yield "r", l1, l2, list(e), "str", True
    for e in itertools.product(CORE, repeat=2):
        yield "r [1]*", l1, l2, list(e), "str", True
        yield "r [1]*", l1, l2, list(e), "blanks", False
    for n in range(0, 4 if not deep else 5):
        for ls in itertools.product(LINES, repeat=n):
            if n == 3 and not deep and len(set(ls)) < 2:
                continue
            yield "r", list(ls), l2, ["l1.txt"], "str", True
            if n <= 2:
                yield "r", list(ls), l2, ["b.meta", "l1.txt", "a.meta", "l1.txt"], "list", False
                yield "r", list(ls), l2, ["sub/l2.txt", "l1.txt"], "str", True
    for n in range(0, 3 if not deep else 4):
        for s in itertools.product(SUBLINES, repeat=n):
            for ls in ([], ["sub/l2.txt"], ["sub/l2.txt", "b.meta"], ["a.meta", "sub/l2.txt", "l1.txt"]):
                for top in (["sub/l2.txt"], ["l1.txt"], ["sub/l2.txt", "l1.txt", "a.meta"], ["*.txt"] if False else ["@/sub/l2.txt"]):
                    yield "r", ls, list(s), top, "str", True


def go(job):
    out = []
    logging.getLogger("c31").addHandler(logging.NullHandler())
    logging.getLogger("c31").propagate = False
    import file_utils  # noqa
    trees = {}
    for c in job:
        rn, l1, l2, ents, form, rooted = c
        if rn not in trees:
            trees[rn] = setup(mc.newdir("c31"), rn)
        R = trees[rn]
        w = World(l1, l2)
        put(R, "l1.txt", l1, eol=len(l1) % 2 == 0)
        put(R, "sub/l2.txt", l2)
        out.append(judge(w, ents, one(R, w, ents, form, rooted)))
    for R in trees.values():
        mc.rmdir(os.path.dirname(R))
    return out


# ---------------------------------------------------------------- the command-line tools
def host_meta(k):
    return "[ccpp-table-properties]\n  name = hm%s\n  type = module\n[ccpp-arg-table]\n  name = hm%s\n  type = module\n" \
        "[ v%s ]\n  standard_name = q_%s\n  units = 1\n  dimensions = ()\n  type = integer\n" % (k, k, k, k)


def host_f90(k):
    return "module hm%s\n!> \\section arg_table_hm%s Argument Table\n!! \\htmlinclude hm%s.html\ninteger :: v%s\nend module hm%s\n" % (k, k, k, k, k)


def tool_tree(R):
    names = {}
    for k, d in (("1", "."), ("2", "."), ("3", "sub"), ("4", "q[1]")):
        os.makedirs(os.path.join(R, d), exist_ok=True)
        for role, m, f in (("h", host_meta(k), host_f90(k)),):
            open(os.path.join(R, d, "hm%s.meta" % k), "w").write(m)
            open(os.path.join(R, d, "hm%s.F90" % k), "w").write(f)
        s = cg.Scheme("sch%s" % k, {"run": (cg.err_vars(), ["errmsg = ''", "errflg = 0"], [])})
        open(os.path.join(R, d, "sch%s.meta" % k), "w").write(s.meta())
        open(os.path.join(R, d, "sch%s.F90" % k), "w").write(s.fortran())
        open(os.path.join(R, d, "su%s.xml" % k), "w").write(cg.suite_xml("su%s" % k, '<group name="g%s"><scheme>sch1</scheme></group>' % k))
    h = cg.HostHeader("hst", cg.HOST_ARGS)
    open(os.path.join(R, "hst.meta"), "w").write(h.meta())
    open(os.path.join(R, "hst.F90"), "w").write(h.fortran())


TLISTS = {  # label -> (entries for prefix p and extension x, files)
    "one": (lambda p, x: [p + "1" + x], ["1"]),
    "two": (lambda p, x: [p + "2" + x, p + "1" + x], ["2", "1"]),
    "twice": (lambda p, x: [p + "1" + x, "./" + p + "1" + x], ["1"]),
    "subdirectory": (lambda p, x: [p + "1" + x, "sub/" + p + "3" + x], ["1", "3"]),
    "brackets": (lambda p, x: [p + "1" + x, "q[1]/" + p + "4" + x], ["1", "4"]),
    "wildcard": (lambda p, x: [p + "?" + x], ["1", "2"]),
    "missing": (lambda p, x: [p + "1" + x, p + "9" + x], None),
    "list file": (lambda p, x: ["in/" + p + ".txt"], ["1", "2"]),
    "list file and file": (lambda p, x: ["in/" + p + ".txt", "sub/" + p + "3" + x], ["1", "2", "3"]),
    "nested list files": (lambda p, x: ["in/" + p + "n.txt"], ["2", "1"]),
    "missing list file": (lambda p, x: [p + "1" + x, "in/none.txt"], None),
    "list file with missing file": (lambda p, x: ["in/" + p + "m.txt"], None),
}


def put_lists(R):
    os.makedirs(os.path.join(R, "in"), exist_ok=True)
    for p, x in (("hm", ".meta"), ("sch", ".meta"), ("su", ".xml")):
        w = lambda n, t: open(os.path.join(R, "in", n), "w").write(t)  # noqa
        w(p + ".txt", "# files\n../%s1%s\n\n! more\n  ../%s2%s\n" % (p, x, p, x))
        w(p + "n.txt", "../%s2%s\n%sn.txt\n%s.txt\n" % (p, x, p, p))
        w(p + "m.txt", "../%s1%s\n%s9%s\n" % (p, x, p, x))


def tool(job):
    """Run capgen with one list form per role and record which input files it opens."""
    h, s, u = job
    top = mc.newdir("c31t")
    R = os.path.join(top, "r")
    os.makedirs(R)
    tool_tree(R)
    put_lists(R)
    hosts = ["hst.meta"] + TLISTS[h][0]("hm", ".meta")
    schemes, suites = TLISTS[s][0]("sch", ".meta"), TLISTS[u][0]("su", ".xml")
    rec = os.path.join(top, "opened")
    args = ["--host-files", ",".join(hosts), "--scheme-files", ",".join(schemes), "--suites", ",".join(suites), "--host-name", "hst",
            "--output-root", os.path.join(top, "out"), "--kind-type", "kind_phys=REAL64"]

    real_open = builtins.open

    def spy(f, mode="r", *a, **k):
        if isinstance(f, (str, bytes, os.PathLike)) and "r" in mode and "+" not in mode:
            fd = os.open(rec, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.write(fd, (os.path.realpath(os.fsdecode(f)) + "\n").encode())
            os.close(fd)
        return real_open(f, mode, *a, **k)
    builtins.open = spy
    try:
        st, txt = cg.run_capgen(R, args, timeout=60)
    finally:
        builtins.open = real_open
    opened = [os.path.relpath(x, os.path.realpath(R)) for x in (real_open(rec).read().split("\n")[:-1] if os.path.exists(rec) else [])]
    exp, bad = set(["hst.meta"]), []
    for name, p, x in ((h, "hm", ".meta"), (s, "sch", ".meta"), (u, "su", ".xml")):
        ks = TLISTS[name][1]
        if ks is None:
            bad.append((p, name))
        else:
            exp |= {{"1": "", "2": "", "3": "sub/", "4": "q[1]/"}[k] + p + k + x for k in ks}
    gen = sorted(os.listdir(os.path.join(top, "out"))) if os.path.isdir(os.path.join(top, "out")) else []
    mc.rmdir(top)
    if bad:
        word = "none.txt" if bad[0][1] == "missing list file" else bad[0][0] + "9"
        if st == "ok":
            return "a list with a missing file was accepted"
        if st.startswith("crash") or st == "internal":
            return "the tool ended with %s %s" % (st, txt[-300:])
        if word not in txt:
            return "the error does not name %s: %s" % (word, txt[-300:])
        if any(g.endswith("_cap.F90") for g in gen):
            return "caps were generated although an input file is missing: %s" % gen
        return None
    if st != "ok":
        return "refused: %s %s" % (st, txt[-400:])
    seen = {o for o in opened if o.endswith((".meta", ".xml")) and not o.startswith("..")}
    if seen != exp:
        return "input files read: %s, expected: %s" % (sorted(seen), sorted(exp))
    want = {"ccpp_su%s_cap.F90" % k for k in TLISTS[u][1]}
    have = {g for g in gen if g.startswith("ccpp_su")}
    if want != have:
        return "caps written: %s, expected: %s" % (sorted(have), sorted(want))
    return None


def main():
    ck = mc.Check("C31", "model_checking")
    cg.preload()
    cs = list(cases(not ck.quick))
    jobs = list(mc.chunks(cs, 400))
    n = 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % (job[0],), "the expansion could not be run: %s" % res)
            continue
        for c, why in zip(job, res):
            n += 1
            g, m = World(c[1], c[2]).expand(c[3])
            ck.outcome("missing" if m else "files" if g else "nothing")
            if why:
                ck.violation("%s | l1=%s l2=%s | %s (%s, %s)" % (c[0], c[1], c[2], c[3], c[4], "root" if c[5] else "cwd"), why)
    names = list(TLISTS)
    if ck.quick:
        tj = [(a, "one", "one") for a in names] + [("one", a, "one") for a in names] + [("one", "one", a) for a in names] + \
            [(a, a, a) for a in names if TLISTS[a][1]]
    else:
        tj = list(itertools.product(names, repeat=3))
    for job, why in zip(tj, mc.pmap(tool, tj)):
        n += 1
        ck.outcome("tool")
        if why:
            ck.violation("capgen hosts=%s schemes=%s suites=%s" % job, str(why))
    ck.sample("l1.txt = ['sub/l2.txt', 'l1.txt', 'a.meta']; files l1.txt,a.meta")
    ck.finish(states=len(cs), transitions=n, traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
