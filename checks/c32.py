#!/opt/venv/bin/python
"""C32: the documentation written from metadata lists exactly the variables of the metadata.

Every combination of attribute values from catalogues (texts with characters that mean something in HTML, LaTeX or Python's
formatting, types, kinds, dimensions), every arrangement of small tables and every assignment of variables to requesting entry
points is documented by the real tools: metadata2html (one file, or a configuration) and prebuild's HTML and LaTeX tables. The
documents are read back (HTML parser; a small LaTeX reader that refuses unescaped special characters) and compared with the
metadata they were made from."""
import html.parser
import itertools
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc  # noqa
import cg  # noqa
import pb  # noqa
from cg import V  # noqa

TEXTS = [None, "plain words", "a < b", "a <b>bold</b> c", "p & q", "x&lt;y", "50% of it", "under_score", "set {x} of {}", "a{0}b", "100$ #3",
         "2^n ~ m", "back\\slash", "\"q\" and 'r'", "</td></tr>", "{", "}", "%s %d", "~", "a -> b (c, d)", "100 %", "x \\n y", "semi; colon"]
TYPES = [("real", "kind_phys"), ("real", ""), ("integer", ""), ("logical", ""), ("character", "len=32"), ("character", "len=*"),
         ("double precision", ""), ("complex", "kind_phys")]
DIMS = [(), ("d_one",), ("d_one", "d_two"), ("2:d_one",), ("d_one", "d_two", "d_one")]
UNITS = ["1", "m s-1", "kg m-2", "none"]
ATTS = ["local_name", "standard_name", "long_name", "units", "type", "dimensions", "kind", "intent"]


# ---------------------------------------------------------------- readers
class Rows(html.parser.HTMLParser):
    """Rows of cell texts; anything inside a cell that is a tag spoils the cell."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows, self.cell, self.bad = [], None, []

    def handle_starttag(self, tag, attrs):
        if tag == "tr":
            self.rows.append([])
        elif tag in ("td", "th"):
            self.cell = ""
        elif self.cell is not None:
            self.bad.append("tag <%s> in a cell" % tag)

    def handle_endtag(self, tag):
        if tag in ("td", "th"):
            if self.cell is None or not self.rows:
                self.bad.append("end of a cell outside of one")
            else:
                self.rows[-1].append(" ".join(self.cell.split()))
            self.cell = None
        elif self.cell is not None and tag != "tr":
            self.bad.append("end tag </%s> in a cell" % tag)

    def handle_comment(self, data):
        self.bad.append("comment")

    def handle_data(self, data):
        if self.cell is not None:
            self.cell += data


def read_html(text):
    p = Rows()
    p.feed(text)
    p.close()
    return p.rows, p.bad


SPEC = {"textbackslash": "\\", "textasciitilde": "~", "textasciicircum": "^", "textdollar": "$", "textunderscore": "_", "textbraceleft": "{",
        "textbraceright": "}", "textless": "<", "textgreater": ">", "textquotedbl": '"', "textbar": "|", "textasciigrave": "`"}


def untex(s):
    """The text a LaTeX fragment shows; None if it has an unescaped special character or an unknown command."""
    out, i = "", 0
    while i < len(s):
        c = s[i]
        if c == "\\":
            m = re.match(r"\\([A-Za-z]+)(\{\}| |(?=[^A-Za-z]|$))", s[i:])
            if m:
                if m.group(1) not in SPEC:
                    return None
                out += SPEC[m.group(1)]
                i += m.end()
                continue
            n = s[i + 1:i + 2]
            if n in ("^", "~") and s[i + 2:i + 4] == "{}":
                out += n
                i += 4
            elif n and n in "%_&#${}":
                out += n
                i += 2
            else:
                return None
        elif c == "$":
            m = re.match(r"\$([<>|])\$", s[i:])
            if not m:
                return None
            out += m.group(1)
            i += 3
        elif c in "%_&#{}^~":
            return None
        else:
            out += c
            i += 1
    return " ".join(out.split())


def group(s, i):
    """The text of the brace group that begins at s[i], and the position behind it; escaped braces do not count."""
    assert s[i] == "{", s[i:i + 20]
    depth, j = 0, i
    while j < len(s):
        if s[j] == "\\" and j + 1 < len(s) and s[j + 1] in "{}\\%":
            j += 2
            continue
        if s[j] == "%":
            raise ValueError("an unescaped percent sign")
        if s[j] == "{":
            depth += 1
        elif s[j] == "}":
            depth -= 1
            if depth == 0:
                return s[i + 1:j], j + 1
        j += 1
    raise ValueError("unbalanced braces")


def read_tex(text):
    """(names in the list, [(name, {field: text or requested list})])"""
    names, items = [], []
    body = text[text.index("\\begin{longtable}"):text.index("\\end{longtable}")]
    for m in re.finditer(r"\\hyperlink", body):
        ref, j = group(body, m.end())
        k = body.index("\\execout", j)
        shown, _ = group(body, k + len("\\execout"))
        names.append((ref, untex(shown)))
    rest = text[text.index("\\end{longtable}"):]
    for part in rest.split("\\begin{samepage}")[1:]:
        m = re.search(r"\\hypertarget", part)
        ref, j = group(part, m.end())
        k = part.index("\\exec", j)
        shown, _ = group(part, k + len("\\exec"))
        f = {"": untex(shown)}
        tab = part[part.index("\\begin{tabular}{ll}") + len("\\begin{tabular}{ll}"):]
        j = 0
        while True:
            m = re.match(r"\s*\\execout", tab[j:])
            if not m:
                break
            lab, j = group(tab, j + m.end())
            m = re.match(r"\s*&\s*\\execout", tab[j:])
            val, j = group(tab, j + m.end())
            m = re.match(r"\s*\\\\", tab[j:])
            j += m.end()
            lab = untex(lab)
            if lab == "requested":
                val = val.strip()
                assert val.startswith("\\vtop"), val
                val, _ = group(val, len("\\vtop"))
                f[lab] = [untex(x) for x in val.split("\\newline")]
            else:
                f[lab] = untex(val)
        items.append((ref, f))
    return names, items


# ---------------------------------------------------------------- metadata2html
def child(d, args):
    os.chdir(d)
    fd = os.open("log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.argv = ["metadata2html.py"] + args
    try:
        import metadata2html
        metadata2html.main()
        return "ok", ""
    except SystemExit as e:
        return ("ok", "") if e.code in (0, None) else ("exit", str(e.code))
    except BaseException as e:  # noqa
        return ("error" if type(e) is Exception or type(e).__name__ == "CCPPError" else "crash:" + type(e).__name__), \
            "%s %s" % (e, traceback.format_exc()[-600:])


def expect_row(v, intent):
    dims = [x if ":" in x else ("ccpp_constant_one:" + x) for x in v.dims]
    return {"local_name": [v.local], "standard_name": [v.std],
            "long_name": [" ".join(v.props["long_name"].split())] if "long_name" in v.props else None, "units": [v.units],
            "type": [v.typ], "dimensions": ["(" + ", ".join(x) + ")" for x in itertools.product(*[
                (y, y[len("ccpp_constant_one:"):]) if y.startswith("ccpp_constant_one:") else (y,) for y in dims])] or ["()"],
            "kind": [v.kind] if v.kind else ["", "n/a"] + ["kind_phys"] * (v.typ in ("real", "complex", "double precision")) + [v.typ], "intent": [v.intent] if intent else ["", "n/a"]}


def check_doc(text, vs, intent, title):
    rows, bad = read_html(text)
    if bad:
        return "not well formed: %s" % bad[0]
    if not rows or [x.lower() for x in rows[0]] != ATTS:
        return "header row %s" % (rows[:1],)
    if len(rows) != len(vs) + 1:
        return "%d rows for %d variables" % (len(rows) - 1, len(vs))
    for v, r in zip(vs, rows[1:]):
        e = expect_row(v, intent)
        if len(r) != len(ATTS):
            return "row with %d cells: %s" % (len(r), r)
        for a, c in zip(ATTS, r):
            if e[a] is not None and c not in e[a]:
                return "variable %s: %s is %r, expected %r" % (v.local, a, c, e[a][0])
            if e[a] is None and not c:
                return "variable %s: %s is empty" % (v.local, a)
    return None


class Doc:
    """Metadata files: [(file name, [(kind, table name, [(section, [V])])])]"""

    def __init__(self, label, files, mode="file", fresh=False):
        self.label, self.files, self.mode, self.fresh = label, files, mode, fresh

    def write(self, d):
        for fn, tables in self.files:
            t = ""
            for kind, name, secs in tables:
                t += cg.table_header(name, kind)
                for sec, vs in secs:
                    t += cg.arg_table(sec, kind, vs)
            os.makedirs(os.path.dirname(os.path.join(d, fn + ".meta")), exist_ok=True)
            open(os.path.join(d, fn + ".meta"), "w").write(t)
        os.makedirs(os.path.join(d, "html"))
        if self.mode == "config":
            names = [fn + ".F90" for fn, _ in self.files]
            k = len(names) // 2 + 1
            open(os.path.join(d, "mccfg.py"), "w").write(
                "VARIABLE_DEFINITION_FILES = %r\nSCHEME_FILES = %r\nDEFAULT_BUILD_DIR = 'build'\nMETADATA_HTML_OUTPUT_DIR = '{build_dir}/html'\n"
                % (names[:k] + ["nometa.F90"], names[k:]))

    def run(self):
        d = mc.newdir("c32")
        self.write(d)
        try:
            if self.mode == "config":
                args = [["-c", "mccfg.py"]]
            else:
                args = [["-m", fn + ".meta", "-o", "html"] for fn, _ in self.files]
            if self.fresh:           # as a user runs it, in its own interpreter
                env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
                r = [mc.run([sys.executable, os.path.join(mc.SCRIPTS, "metadata2html.py")] + a, cwd=d, env=env)[:2] for a in args]
                r = [("ok" if x[0] == 0 else "exit %d" % x[0], x[1][-400:]) for x in r]
            else:
                r = [mc.forked(child, d, a, timeout=60) for a in args]
        except mc.Crash as e:
            mc.rmdir(d)
            return "the tool ended abnormally: %s" % str(e)[-300:]
        try:
            for x in r:
                if x[0] != "ok":
                    return "refused: %s %s" % x
            want = {sec + ".html": (vs, kind == "scheme") for _, ts in self.files for kind, _, secs in ts for sec, vs in secs if vs}
            have = sorted(os.listdir(os.path.join(d, "html")))
            if sorted(want) != sorted(set(have) - (INTERNAL if self.mode == "config" else set())):
                return "documents %s, expected %s" % (have, sorted(want))
            for fn, (vs, intent) in want.items():
                why = check_doc(open(os.path.join(d, "html", fn)).read(), vs, intent, fn[:-5])
                if why:
                    return "%s: %s" % (fn, why)
        finally:
            mc.rmdir(d)
        return None


INTERNAL = {"ccpp_t.html", "ccpp_types.html"}    # documented with every configuration


def docs(deep):
    k = 0
    # every combination of the catalogues, as scheme arguments and as host variables
    for ti, txt in enumerate(TEXTS):
        for kind in ("scheme", "module", "host", "ddt"):
            vs = []
            for (typ, kd), dims, un in itertools.product(TYPES, DIMS, UNITS if deep else UNITS[:2]):
                k += 1
                if typ == "character" and kd == "len=*" and kind != "scheme":
                    continue
                v = V("v%d" % k, "std_%d" % k, typ, kd, un, dims, intent=["in", "out", "inout"][k % 3] if kind == "scheme" else None,
                      **({"long_name": txt} if txt is not None else {}))
                vs.append(v)
            name = "tab%d" % ti
            yield Doc("%s %r" % (kind, txt), [("m", [(kind, name, [(name + ("_run" if kind == "scheme" else ""), vs)])])])
    # arrangements of sections and tables
    small = [[], [V("a", "a_std", intent="in")], [V("b", "b_std", "integer", "", dims=("d_one",), intent="out"), V("a", "a_std", intent="inout")]]
    host = [[], [V("h1", "h1_std")], [V("h2", "h2_std", "logical", "", "flag"), V("h3", "h3_std", dims=("d_one",))]]
    for n in range(1, 4):
        for cont in itertools.product(range(3), repeat=n):
            yield Doc("sections %s" % (cont,), [("m", [("scheme", "sc", [("sc_" + p, small[c]) for p, c in zip(("init", "run", "finalize"), cont)])])])
            hs = [("module", "mod%d" % i, [("mod%d" % i, [v.copy(std=v.std + str(i)) for v in host[c]])]) for i, c in enumerate(cont)]
            yield Doc("tables %s" % (cont,), [("sub/m", hs)])
            for mode in ("file", "config"):
                yield Doc("%s files %s" % (mode, cont), [("d%d/m" % i, [t]) for i, t in enumerate(hs)] +
                          [("s%d" % i, [("scheme", "sc%d" % i, [("sc%d_run" % i, small[c])])]) for i, c in enumerate(cont)], mode)
    # derived types, used in the same file and in a later file of a configuration
    ddt = ("ddt", "my_t", [("my_t", [V("x", "x_std"), V("y", "y_std", dims=("d_one",))])])
    use = ("module", "hm", [("hm", [V("obj", "obj_std", "my_t", "", "DDT")])])
    sch = ("scheme", "sc", [("sc_run", [V("o", "obj_std", "my_t", "", "DDT", intent="in")])])
    yield Doc("type in the same file", [("m", [ddt, use])])
    for mode in ("config",):
        yield Doc("type in an earlier file", [("m", [ddt]), ("n", [use])], mode)
        yield Doc("type in the first of three files", [("m", [ddt]), ("n", [use]), ("s", [sch])], mode)
    for fresh in (False, True):
        for mode in ("file", "config"):
            for p in ("", "./", "sub/../", "v1.2/", "../up/", "./a.b/c.d/", "x.F90/"):
                for q in ("hm", "h.m", "Hm_2"):
                    yield Doc("path %s%s %s%s" % (p, q, mode, " fresh" * fresh), [(p + q, [("module", "HMod", [("HMod", [V("x", "x_std")])])]), (
                        "s", [("scheme", "Sc", [("Sc_Run", [V("y", "y_std", intent="in")])])])], mode, fresh)
    if deep:
        for a, b in itertools.product(TEXTS, repeat=2):
            yield Doc("pair %r %r" % (a, b), [("m", [("module", "mm", [("mm", [V("p", "p_std", **({"long_name": a} if a else {})), V(
                "q", "q_std", **({"long_name": b} if b else {}))])])])])


# ---------------------------------------------------------------- prebuild
ENTRIES = ["s1_init", "s1_run", "s2_run", "s2_finalize", "zSUBROUTINE_x_run"]


class PDoc:
    def __init__(self, label, vs, req, pool=False):
        """vs: [(V, place)], place 'module', 'ddt', 'nested'; req: per variable the entry points"""
        self.label, self.vs, self.req, self.pool = label, vs, req, pool

    def case(self):
        mod = [pb.CDATA, V("ncols", "horizontal_loop_extent", "integer", "", "count"), V("ncolt", "horizontal_dimension", "integer", "", "count"),
               V("d1", "d_one", "integer", "", "count"), V("d2", "d_two", "integer", "", "count"),
               V("obj", "obj_std", "my_t", "", "DDT")]
        inner, outer = [V("i0", "i0_std")], [V("o0", "o0_std"), V("in", "in_std", "in_t", "", "DDT")]
        for v, place in self.vs:
            {"module": mod, "ddt": outer, "nested": inner}[place].append(v)
        m = cg.HostMod("hm", mod, ddts=[("in_t", inner), ("my_t", outer)])
        sch = {}
        for (v, _), r in zip(self.vs, self.req):
            for e in r:
                sch.setdefault(e, []).append(v)
        scs = []
        for s in ("s1", "s2", "zSUBROUTINE_x"):
            ph = {}
            for p in ("init", "run", "finalize"):
                if s + "_" + p in sch or (p == "run"):
                    ph[p] = (cg.err_vars() + [x.copy(local="l_" + x.local, intent="in", long_name="scheme's text") for x in sch.get(s + "_" + p, [])],
                             ["errmsg = ''", "errflg = 0"], [])
            scs.append(cg.Scheme(s, ph))
        used = ["s1", "s2"] + ([] if self.pool else ["zSUBROUTINE_x"])
        return pb.PCase([m], scs, [("sa", pb.sdf("sa", [("g1", [(1, used)])]))], typedefs={"hm": {"my_t": "obj", "in_t": "obj%in", "hm": ""}})

    def expected(self):
        e = {"ccpp_error_message": None, "ccpp_error_code": None}
        for (v, place), r in zip(self.vs, self.req):
            e[v.std] = dict(v=v, local={"module": "", "ddt": "obj%", "nested": "obj%in%"}[place] + v.local,
                            source={"module": "MODULE hm", "ddt": "MODULE hm TYPE my_t", "nested": "MODULE hm TYPE in_t"}[place], req=sorted(r))
        return e

    def run(self):
        d = mc.newdir("c32p")
        c = self.case()
        c.write(d)
        st, txt = c.generate()
        try:
            try:
                h = open(os.path.join(d, "build", "CCPP_VARIABLES_MC.html")).read()
                t = open(os.path.join(d, "build", "CCPP_VARIABLES_MC.tex")).read()
            except OSError:
                return "no documentation: %s %s" % (st, txt[-500:])
            return self.judge_html(h) or self.judge_tex(t)
        finally:
            mc.rmdir(d)

    def judge_html(self, h):
        rows, bad = read_html(h)
        if bad:
            return "html: not well formed: %s" % bad[0]
        names = [r[0] for r in rows[1:]]
        if names != sorted(names) or len(set(names)) != len(names):
            return "html: rows are not in the order of the names, or repeated: %s" % names
        for std, e in self.expected().items():
            if e is None:
                continue
            if std not in names:
                return "html: %s is missing" % std
            r = rows[1 + names.index(std)]
            v = e["v"]
            w = [std, " ".join(v.props["long_name"].split()) if "long_name" in v.props else None, v.units, str(len(v.dims)), v.typ, v.kind or None, e["source"],
                 e["local"]]
            if len(r) != 8:
                return "html: row of %d cells: %s" % (len(r), r)
            for a, b in zip(w, r):
                if a is not None and a != b:
                    return "html: row of %s has %r, expected %r" % (std, b, a)
        extra = set(names) - set(self.expected()) - FIXED
        if extra:
            return "html: unexpected variables %s" % sorted(extra)
        return None

    def judge_tex(self, t):
        try:
            names, items = read_tex(t)
        except (ValueError, AssertionError, AttributeError, IndexError) as e:
            return "latex: cannot be read: %s" % (e or type(e).__name__)
        refs = [r for r, _ in names]
        if refs != sorted(refs) or len(set(refs)) != len(refs):
            return "latex: the list is not in the order of the names, or repeated: %s" % refs
        if [r for r, _ in items] != refs:
            return "latex: list %s, descriptions %s" % (refs, [r for r, _ in items])
        if any(s != r for r, s in names) or any(f[""] != r for r, f in items):
            return "latex: a name is shown differently: %s" % (names,)
        its = dict(items)
        for std, e in self.expected().items():
            if std not in its:
                return "latex: %s is missing" % std
            if e is None:
                continue
            f, v = its[std], e["v"]
            w = {"long_name": " ".join(v.props["long_name"].split()) if "long_name" in v.props else None, "units": v.units, "rank": str(len(v.dims)),
                 "type": v.typ, "kind": v.kind or None, "source": e["source"], "local_name": e["local"]}
            for a, b in w.items():
                if b is not None and f.get(a) != b:
                    return "latex: %s of %s is %r, expected %r" % (a, std, f.get(a), b)
            r = f["requested"]
            if self.pool:
                need = [x for x in e["req"] if not x.startswith("z")]
                if (need and not (set(need) <= set(r) <= set(e["req"]) and r == sorted(r))) or (not need and r not in (["NOT REQUESTED"], e["req"])):
                    return "latex: %s is requested by %s, expected %s" % (std, r, need)
            elif r != (e["req"] or ["NOT REQUESTED"]):
                return "latex: %s is requested by %s, expected %s" % (std, r, e["req"] or ["NOT REQUESTED"])
        return None


FIXED = {"ccpp_block_count", "ccpp_block_number", "ccpp_chunk_extent", "ccpp_error_code", "ccpp_error_message", "ccpp_loop_counter", "ccpp_loop_extent",
         "ccpp_t", "ccpp_t_instance", "ccpp_thread_count", "ccpp_thread_number", "ccpp_instance", "mpi_comm", "kind_phys", "kind_other",
         "horizontal_loop_extent", "horizontal_dimension", "d_one", "d_two", "obj_std", "in_std", "i0_std", "o0_std", "my_t", "in_t",
         "ccpp_scheme_number", "ccpp_constant_one", "number_of_openmp_threads", "number_of_physics_threads", "number_of_chunks", "ccpp_chunk_number",
         "ccpp_thread_count"}


def pdocs(deep):
    plain = [t for t in TEXTS]
    k = 0
    for txt in plain:
        for place in ("module", "ddt", "nested"):
            vs = []
            for (typ, kd), dims, un in itertools.product(TYPES, DIMS[:3], UNITS[:2]):
                if kd == "len=*":
                    continue
                k += 1
                v = V("w%d" % k, "std_%d" % k, typ, kd, un, dims, **({"long_name": txt} if txt is not None else {}))
                vs.append((v, place))
            yield PDoc("prebuild %s %r" % (place, txt), vs, [()] * len(vs))
    subsets = [c for n in range(len(ENTRIES) + 1) for c in itertools.combinations(ENTRIES, n)]
    a, b = V("qa", "qa_std", units="K", long_name="host text"), V("qb", "qb_std", "integer", "")
    for pool in (False, True):
        for s in subsets:
            for u in (subsets if deep else subsets[:7]):
                yield PDoc("requests %s %s%s" % (",".join(s), ",".join(u), " pool" * pool), [(a, "module"), (b, "ddt")], [s, u], pool)


def go(job):
    return [x.run() for x in job]


def main():
    ck = mc.Check("C32", "exploration")
    pb.preload()
    ds = list(docs(not ck.quick))
    ps = list(pdocs(not ck.quick))
    n = 0
    for what, lst, size in (("metadata2html", ds, 4), ("prebuild", ps, 4)):
        jobs = list(mc.chunks(lst, size))
        for job, res in zip(jobs, mc.pmap(go, jobs)):
            if isinstance(res, mc.Crash):
                ck.violation("machinery %s" % job[0].label, "the documents could not be made or read: %s" % res)
                continue
            for c, why in zip(job, res):
                n += 1
                ck.outcome(what)
                if why:
                    ck.violation("%s %s" % (what, c.label), why)
    ck.sample(ps[0].label)
    ck.finish(evaluations=n, distinct_nontrivial=len({x.label for x in ds + ps}), exhaustive=True)


if __name__ == "__main__":
    main()
