"""C07: metadata that disagrees with the Fortran source is refused, metadata that agrees is accepted.

Every pair (metadata, Fortran source) in which the two are derived from one list of variables by every single change and
every pair of changes of presence, order, type, kind, intent, rank, optionality and dimension, at every position, for
scheme entry points, derived types and modules, written in every style of a catalogue, is read by parse_scheme_files (or
parse_host_model_files). A comparison written here on the records the two texts were made from says which must be refused."""
import itertools
import logging
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

STD = {"nx": "size_of_x", "ny": "size_of_y", "n0": "first_of_x", "errmsg": "ccpp_error_message", "errflg": "ccpp_error_code"}


class R:
    """A variable: what both the metadata and the Fortran source say about it."""
    __slots__ = ("name", "typ", "kind", "dims", "intent", "opt", "bare")

    def __init__(self, name, typ="real", kind="kind_phys", dims=(), intent="in", opt=False):
        self.name, self.typ, self.kind, self.dims, self.intent, self.opt = name, typ, kind, tuple(dims), intent, opt

    def but(self, **kw):
        r = R(self.name, self.typ, self.kind, self.dims, self.intent, self.opt)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def key(self):
        return "%s:%s:%s:%s:%s:%s" % (self.name, self.typ, self.kind, ",".join(self.dims), self.intent, "opt" if self.opt else "")


# ------------------------------------------------------------------ reference comparison
def dim_ok(m, f):
    """m: metadata dimension in local names ('nx', '1:nx', 'n0:nx', '3'); f: Fortran dimension (':', 'nx', '0:nx', 'n0:')
    -> True, False, None (not comparable)"""
    mp = m.split(":") if ":" in m else ["1", m]
    fp = f.split(":") if ":" in f else ["1", f]
    res = True
    for a, b in zip(mp, fp):
        if not b or a == b:
            continue
        if b.lstrip("-").isdigit() and not a.lstrip("-").isdigit():
            res = None
            continue
        if a.isdigit() and not b.isdigit():
            res = None if res else res
            if not (a in "01" and len(a) == 1):
                continue
            return None
        return False
    return res


def same(m, f, intent):
    """-> True (agree), False (disagree) or None (not prescribed)"""
    if m.name.lower() != f.name.lower() or m.typ.lower() != f.typ.lower() or m.opt != f.opt:
        return False
    if intent and m.intent != f.intent:
        return False
    if len(m.dims) != len(f.dims):
        return False
    ds = [dim_ok(a, b) for a, b in zip(m.dims, f.dims)]
    if False in ds:
        return False
    res = None if None in ds else True
    if m.kind.lower() != f.kind.lower():
        # metadata without a kind stands for kind_phys
        if m.typ.lower() in ("real", "complex") and not m.kind and f.kind == "kind_phys":
            return res
        return False
    if m.typ.lower() in ("real", "complex") and not m.kind:
        return None
    return res


def agree(entry, ms, fs):
    """entry: scheme, ddt or module; ms, fs: lists of R -> True, False, None"""
    if entry == "scheme":
        extra = [f for f in fs if f.opt and all(f.name.lower() != m.name.lower() for m in ms)]
        if len(fs) - len(extra) == len(ms) and extra:
            rest = [f for f in fs if f not in extra]
            r = [same(m, f, True) for m, f in zip(ms, rest)]
            return False if False in r else None      # optional dummy arguments the framework never passes
        if len(ms) != len(fs):
            return False
        r = [same(m, f, True) for m, f in zip(ms, fs)]
    else:
        byname = {f.name.lower(): f for f in fs}
        ms = [m for m in ms if "(" not in m.name]     # parts of arrays are not declared
        if any(m.name.lower() not in byname for m in ms):
            return False
        r = [same(m, byname[m.name.lower()], False) for m in ms]
    return False if False in r else None if None in r else True


# ------------------------------------------------------------------ texts
def meta_table(name, typ, secs):
    out = ["[ccpp-table-properties]", "  name = %s" % name, "  type = %s" % typ]
    for title, ms in secs:
        out += ["[ccpp-arg-table]", "  name = %s" % title, "  type = %s" % typ]
        for m in ms:
            dims = ", ".join(":".join(STD.get(p.lower(), p) for p in d.split(":")) for d in m.dims)
            out += ["[ %s ]" % m.name, "  standard_name = %s" % STD.get(m.name.lower(), "quantity_" + re.sub(r"\W+", "_", m.name.lower())), "  units = 1",
                    "  dimensions = (%s)" % dims, "  type = %s" % m.typ]
            if m.kind and m.typ != m.kind:
                out.append("  kind = %s" % m.kind)
            if typ == "scheme":
                out.append("  intent = %s" % m.intent)
            if m.opt:
                out.append("  optional = True")
    return "\n".join(out) + "\n"


def ftype(f):
    if f.typ == "character":
        return "character(%s)" % f.kind
    if f.typ.lower() in ("real", "integer", "logical", "complex"):
        return f.typ + ("(kind=%s)" % f.kind if f.kind else "")
    return "type(%s)" % f.typ


def decl(f, entry, style):
    a = []
    dims = "(%s)" % ",".join(f.dims) if f.dims else ""
    if entry == "scheme":
        a.append("intent(%s)" % f.intent)
        if f.opt:
            a.append("optional")
    elif any(d.endswith(":") for d in f.dims):
        a.append("allocatable")
    elif f.opt:
        a.append("optional")
    nm = f.name
    if style == "attr" and dims:
        a.append("dimension%s" % dims)
        dims = ""
    if style == "order":
        a = list(reversed(a))
    t = ftype(f)
    if style == "upper":
        return "  %s :: %s" % (", ".join([t] + a).upper(), (nm + dims).upper())
    if style == "cont":
        return "  %s &\n    , %s :: &  ! comment\n    %s" % (t, ", ".join(a), nm + dims) if a else "  %s :: &\n    & %s" % (t, nm + dims)
    if style == "short" and f.kind and f.typ in ("real", "integer", "logical"):
        t = "%s(%s)" % (f.typ, f.kind)
    if style == "blank":
        return "  %s  ::  %s  ! remark, intent(out), optional" % (" , ".join([t] + a), nm + dims.replace("(", " ( ").replace(")", " ) ").replace(",", " , "))
    return "  %s :: %s" % (", ".join([t] + a), nm + dims)


def decls(fs, entry, style):
    if style == "joined":
        out, groups = [], []
        for f in fs:
            k = (ftype(f), f.intent, f.opt, any(d.endswith(":") for d in f.dims))
            if groups and groups[-1][0] == k:
                groups[-1][1].append(f)
            else:
                groups.append((k, [f]))
        for _, g in groups:
            first = decl(g[0], entry, "plain")
            out.append(", ".join([first] + [x.name + ("(%s)" % ",".join(x.dims) if x.dims else "") for x in g[1:]]))
        return out
    if style == "reversed":     # declarations need not follow the order of the dummy arguments
        return [decl(f, entry, "plain") for f in reversed(fs)] if entry == "scheme" else [decl(f, entry, "plain") for f in fs]
    return [decl(f, entry, style) for f in fs]


def sub(title, fs, style):
    t = title.upper() if style == "upper" else title
    names = [f.name for f in fs]
    args = ", ".join(names) if style != "cont" else ", &\n    ".join(names)
    return ["!> \\section arg_table_%s Argument Table" % title, "!! \\htmlinclude %s.html" % title, "subroutine %s(%s)" % (t, args)] + \
        decls(fs, "scheme", style) + ["end subroutine %s" % t]


def fort(entry, name, secs, style):
    head = ["module %s" % name, "  use ccpp_kinds, only: kind_phys, kind_r4", "  use tys, only: ty_a, ty_b", "  implicit none"]
    if entry == "scheme":
        out = head + ["contains"]
        for title, fs in secs:
            out += sub(title, fs, style)
    elif entry == "ddt":
        out = list(head)
        for title, fs in secs:
            out += ["!> \\section arg_table_%s Argument Table" % title, "!! \\htmlinclude %s.html" % title,
                    "type, public :: %s" % title] + decls(fs, entry, style) + ["end type %s" % title]
    else:
        title, fs = secs[0]
        out = head[:1] + head[1:] + ["!> \\section arg_table_%s Argument Table" % title, "!! \\htmlinclude %s.html" % title] + decls(fs, entry, style)
    return "\n".join(out + ["end module %s" % name]) + "\n"


# ------------------------------------------------------------------ changes
def base_lists(entry):
    nx, ny, n0 = R("nx", "integer", ""), R("ny", "integer", ""), R("n0", "integer", "")
    if entry == "scheme":
        return [
            [nx, R("a", dims=("nx",), intent="inout"), R("b", dims=("nx", "ny"), opt=True), ny],
            [R("o", dims=("nx",), opt=True), nx, R("c", "character", "len=*", intent="out"), R("t", "ty_a", "ty_a", intent="inout")],
            [R("p", dims=(), kind="kind_r4", intent="out"), R("q", "logical", "", dims=("3",)), R("w", dims=("n0:nx", "2"), intent="out"), n0, nx],
            [R("errmsg", "character", "len=512", intent="out"), R("errflg", "integer", "", intent="out"), R("z", "complex", "kind_r4", opt=True)],
        ]
    if entry == "ddt":
        return [[R("a", dims=("nx",)), R("k", "integer", ""), nx], [R("c", "character", "len=16"), R("t", "ty_a", "ty_a"), R("q", "logical", "", dims=("4",))]]
    return [[nx, R("a", dims=("nx",)), R("k", "integer", "", dims=("nx", "3"))],
            [R("c", "character", "len=16", dims=("2",)), R("t", "ty_a", "ty_a", dims=("nx",)), R("q", "logical", ""), nx]]


def to_fort(r, entry):
    """The Fortran declaration equivalent to a metadata variable"""
    return r.but(dims=tuple(d for d in r.dims))


TYPE_ALT = [("real", "kind_phys"), ("real", "kind_r4"), ("real", ""), ("integer", ""), ("integer", "kind_i8"), ("logical", ""), ("character", "len=*"),
            ("character", "len=16"), ("character", "len=17"), ("complex", "kind_r4"), ("ty_a", "ty_a"), ("ty_b", "ty_b")]


def changes(r, entry, rich):
    """Every changed record for one variable (label, record)"""
    for t, k in TYPE_ALT if rich else TYPE_ALT[:6]:
        if (t, k) != (r.typ, r.kind):
            yield "type", r.but(typ=t, kind=k)
    if entry == "scheme":
        for i in ("in", "out", "inout"):
            if i != r.intent:
                yield "intent", r.but(intent=i)
        yield "opt", r.but(opt=not r.opt)
    yield "rank", r.but(dims=r.dims + (":",) if r.dims else ("ny",))
    if r.dims:
        yield "rank", r.but(dims=r.dims[:-1])
        yield "rank", r.but(dims=())
    else:
        yield "rank", r.but(dims=(":",))
        yield "rank", r.but(dims=("3", "nx"))
    for p, d in enumerate(r.dims):
        alts = [":", "nx", "ny", "1:nx", "0:nx", "n0:nx", "n0:", "1:", "7", "2", "3", "1:3", "0:3", "nx:nx", "n0:ny"]
        for alt in alts if rich else alts[:6]:
            if alt != d:
                yield "dim", r.but(dims=r.dims[:p] + (alt,) + r.dims[p + 1:])
    if len(r.dims) == 2:
        yield "dim", r.but(dims=r.dims[::-1])
    yield "name", r.but(name=r.name + "2")


def list_changes(fs, entry, rich):
    """Every changed list: (label, list)"""
    n = len(fs)
    for i in range(n):
        yield "drop%d" % i, fs[:i] + fs[i + 1:]
        for lab, r in changes(fs[i], entry, rich):
            yield "%s%d" % (lab, i), fs[:i] + [r] + fs[i + 1:]
    for i in range(n + 1):
        yield "add%d" % i, fs[:i] + [R("extra", "integer", "", intent="in")] + fs[i:]
        if entry == "scheme":
            yield "addopt%d" % i, fs[:i] + [R("extra", "real", "kind_phys", intent="in", opt=True)] + fs[i:]
    for i, j in itertools.combinations(range(n), 2):
        l = list(fs)
        l[i], l[j] = l[j], l[i]
        yield "swap%d%d" % (i, j), l
    yield "rev", list(reversed(fs))
    yield "rot", fs[1:] + fs[:1]
    yield "empty", []


def valid_meta(ms, entry):
    """The metadata must itself be well formed: dimensions are described variables, no bare ':' etc."""
    names = {m.name.lower() for m in ms}
    for m in ms:
        for d in m.dims:
            for p in d.split(":"):
                if not p or (not p.isdigit() and p.lower() not in STD):
                    return False
        if m.name in ("errmsg", "errflg"):
            if m.intent != "out" or m.dims or m.opt:
                return False
    return True


def dims_known(ms, fs):
    """Fortran dimensions named in declarations are described by the metadata (otherwise a standard name cannot be found: refused)."""
    names = {m.name.lower() for m in ms}
    for m in fs:
        for d in m.dims:
            for p in d.split(":"):
                if p and not p.lstrip("-").isdigit() and p.lower() not in names:
                    return False
    return True


def space(quick):
    """(entry, ms, fs, style, which)"""
    for entry in ("scheme", "ddt", "module"):
        for bi, base in enumerate(base_lists(entry)):
            for st in ("plain", "attr", "order", "upper", "cont", "short", "blank", "joined", "reversed"):
                yield (entry, base, base, st, "same")
                for lab, l in list_changes(base, entry, True):
                    yield (entry, base, l, st, lab)
            for lab, l in list_changes(base, entry, True):
                if valid_meta(l, entry):
                    yield (entry, l, base, "plain", "m" + lab)
            if entry == "module":       # descriptions of parts of arrays among the variables
                for i in range(len(base) + 1):
                    ms = base[:i] + [R("big(:,n0)", dims=("nx",))] + base[i:]
                    for lab, l in itertools.chain([("same", base)], list_changes(base, entry, True)):
                        yield (entry, ms, l, "plain", "part%d " % i + lab)
            # two changes
            one = list(list_changes(base, entry, not quick))
            for lab, l in one:
                for lab2, l2 in list_changes(l, entry, not quick):
                    yield (entry, base, l2, "plain", lab + "+" + lab2)


# ------------------------------------------------------------------ running
def setup():
    sys.path.insert(0, os.path.join(mc.REPO, "scripts"))
    import ccpp_capgen
    from framework_env import CCPPFrameworkEnv
    log = logging.getLogger("c07")
    log.setLevel(logging.CRITICAL + 1)
    from parse_tools import register_fortran_ddt_name
    for t in ("ty_a", "ty_b"):
        register_fortran_ddt_name(t)
    env = CCPPFrameworkEnv(log, ndict={"host_files": "", "scheme_files": "", "suites": ""})
    return ccpp_capgen, env, log


def outcome(func):
    from parse_source import CCPPError
    try:
        func()
        return "accepted", ""
    except CCPPError as e:
        return "refused", str(e)
    except Exception as e:          # noqa
        return "crash", "%s: %s" % (type(e).__name__, e)


def read(cg, env, log, d, entry, metas, forts, host=False):
    files = []
    for n, (m, f) in enumerate(zip(metas, forts)):
        p = os.path.join(d, "f%d" % n)
        open(p + ".meta", "w").write(m)
        open(p + ".F90", "w").write(f)
        files.append(p + ".meta")
    if host:
        return outcome(lambda: cg.parse_host_model_files(files, "hst", env))
    return outcome(lambda: cg.parse_scheme_files(files, env, skip_ddt_check=True))


def texts(entry, ms, fs, style):
    if entry == "scheme":
        title = "sch_run"
        oth = [R("errmsg", "character", "len=512", intent="out"), R("errflg", "integer", "", intent="out")]
        return title, meta_table("sch", "scheme", [("sch_init", oth), (title, ms)]), fort("scheme", "sch", [("sch_init", oth), (title, fs)], style)
    if entry == "ddt":
        return "ty_c", meta_table("ty_c", "ddt", [("ty_c", ms)]), fort("ddt", "mod_c", [("ty_c", fs)], style)
    return "hmod", meta_table("hmod", "module", [("hmod", ms)]), fort("module", "hmod", [("hmod", fs)], style)


def run(cases):
    cg, env, log = setup()
    d = mc.newdir("c07")
    res = []
    for c in cases:
        entry, ms, fs, style, lab = c
        title, mt, ft = texts(entry, ms, fs, style)
        st, msg = read(cg, env, log, d, entry, [mt], [ft])
        want = agree(entry, ms, fs)
        if want is not False and not dims_known(ms, fs):
            want = None
        bad = None
        if st == "crash":
            bad = "ends with %s" % msg
        elif want is True and st != "accepted":
            bad = "agreeing metadata refused: %s" % msg
        elif want is False and st == "accepted":
            bad = "disagreeing metadata accepted"
        elif st == "refused" and not re.search(r"(?i)\b%s\b" % title, msg):
            bad = "the error does not name %s: %s" % (title, msg)
        key = "%s %s %s meta[%s] fortran[%s]" % (entry, lab, style, " ".join(m.key() for m in ms), " ".join(f.key() for f in fs))
        res.append((want, st, key, bad, {"meta": mt, "fortran": ft} if bad else None))
    mc.rmdir(d)
    return res


# several entries in several files
def multi(cases):
    cg, env, log = setup()
    d = mc.newdir("c07m")
    res = []
    good = [R("nx", "integer", ""), R("a", dims=("nx",), intent="inout")]
    bads = {"ok": good, "kind": [good[0], good[1].but(kind="kind_r4")], "intent": [good[0], good[1].but(intent="in")], "dim": [good[0], good[1].but(dims=("3", "nx"))],
            "drop": good[:1], "swap": good[::-1], "absent": None, "nometa": good}
    for combo, nfile in cases:
        titles, metas, forts, wrong = [], [], [], []
        per = [combo[:len(combo) // nfile], combo[len(combo) // nfile:]] if nfile == 2 else [combo]
        n = 0
        for fi, part in enumerate(per):
            ph = ("register", "init", "run", "final")
            ms, fs = [], []
            for j, what in enumerate(part):
                title = "s%d_%s" % (fi, ph[j])
                if what != "nometa":
                    ms.append((title, good))
                if what != "absent":
                    fs.append((title, bads[what]))
                if what != "ok":
                    wrong.append((fi, what, title))
            metas.append(meta_table("s%d" % fi, "scheme", ms))
            forts.append(fort("scheme", "s%d" % fi, fs, "plain"))
        if any(not m.count("[ccpp-arg") for m in metas):
            continue
        st, msg = read(cg, env, log, d, "scheme", metas, forts)
        bad = None
        if st == "crash":
            bad = "ends with " + msg
        elif wrong and st == "accepted":
            bad = "disagreeing metadata accepted"
        elif not wrong and st != "accepted":
            bad = "agreeing metadata refused: " + msg
        elif wrong:
            # files are read in turn: the first file with an error is the one reported; entries without a counterpart come first
            f0 = [w for w in wrong if w[0] == wrong[0][0]]
            for cls in ("absent", "nometa"):
                if any(w[1] == cls for w in f0):
                    f0 = [w for w in f0 if w[1] in ("absent", "nometa")]
            named = [w for w in f0 if re.search(r"\b%s\b" % w[2], msg)]
            need = f0 if all(w[1] not in ("absent", "nometa") for w in f0) else f0[:0]
            if not named or any(w not in named for w in need):
                bad = "the error does not name %s: %s" % ([w[2] for w in f0], msg)
        res.append((not wrong, st, "multi %s %d" % (" ".join(combo), nfile), bad, {"meta": metas, "fortran": forts} if bad else None))
    mc.rmdir(d)
    return res


def host(cases):
    """The same through parse_host_model_files, with the module and its types in one file"""
    cg, env, log = setup()
    d = mc.newdir("c07h")
    res = []
    for ms, fs, md, fd, order in cases:
        tables = [meta_table("ty_c", "ddt", [("ty_c", md)]), meta_table("hmod", "module", [("hmod", ms)]),
                  "[ccpp-table-properties]\n  name = hst\n  type = host\n[ccpp-arg-table]\n  name = hst\n  type = host\n[ ib ]\n  standard_name = horizontal_loop_begin\n"
                  "  units = count\n  dimensions = ()\n  type = integer\n[ ie ]\n  standard_name = horizontal_loop_end\n  units = count\n  dimensions = ()\n  type = integer\n"]
        body = ["module hmod", "  implicit none", "!> \\section arg_table_ty_c Argument Table", "!! \\htmlinclude ty_c.html", "type, public :: ty_c"] + decls(fd, "ddt", "plain") + \
            ["end type ty_c"]
        mod = ["!> \\section arg_table_hmod Argument Table", "!! \\htmlinclude hmod.html"] + decls(fs, "module", "plain")
        text = "\n".join(body + mod + ["end module hmod"]) + "\n"
        hostf = "module hst\n  implicit none\ncontains\n!> \\section arg_table_hst Argument Table\n!! \\htmlinclude hst.html\nsubroutine hst_sub(ib, ie)\n  integer, intent(in) :: ib, ie\n" \
                "end subroutine hst_sub\nend module hst\n"
        st, msg = read(cg, env, log, d, "host", ["".join(tables[:2])], [text], host=True)
        w1, w2 = agree("ddt", md, fd), agree("module", ms, fs)
        want = False if False in (w1, w2) else None if None in (w1, w2) or not (dims_known(md, fd) and dims_known(ms, fs)) else True
        bad = None
        if st == "crash":
            bad = "ends with " + msg
        elif want is True and st != "accepted":
            bad = "agreeing metadata refused: " + msg
        elif want is False and st == "accepted":
            bad = "disagreeing metadata accepted"
        elif want is False:
            for w, t in ((w1, "ty_c"), (w2, "hmod")):
                if w is False and not re.search(r"\b%s\b" % t, msg):
                    bad = "the error does not name %s: %s" % (t, msg)
        res.append((want, st, "host meta[%s | %s] fortran[%s | %s]" % tuple(" ".join(x.key() for x in l) for l in (md, ms, fd, fs)), bad,
                    {"meta": "".join(tables[:2]), "fortran": text} if bad else None))
    mc.rmdir(d)
    return res


def job(j):
    return {"one": run, "multi": multi, "host": host}[j[0]](j[1])


def main():
    ck = mc.Check("C07", "model_checking")
    q = ck.quick
    seen, C = set(), []
    for c in space(q):
        k = (c[0], c[3], tuple(m.key() for m in c[1]), tuple(f.key() for f in c[2]))
        names = [f.name.lower() for f in c[2]]
        if k not in seen and len(set(names)) == len(names) and (c[0] == "scheme" or c[2]):
            seen.add(k)
            C.append(c)
    jobs = [("one", part) for part in mc.chunks(C, 400)]
    kinds = ("ok", "kind", "intent", "dim", "drop", "swap", "absent", "nometa")
    M = [(c, 1) for n in (1, 2, 3) for c in itertools.product(kinds, repeat=n)]
    M += [(c, 2) for c in itertools.product(kinds, repeat=2)]
    M += [(c, 2) for c in itertools.product(kinds, repeat=4)]
    jobs += [("multi", part) for part in mc.chunks(M, 200)]
    H = []
    md, ms = base_lists("ddt")[0], base_lists("module")[0]
    dch = [md] + [l for _, l in list_changes(md, "ddt", False)]
    mch = [ms] + [l for _, l in list_changes(ms, "module", False)]
    for i, a in enumerate(dch):
        for j, b in enumerate(mch):
            if a and b and (i == 0 or j == 0 or not q or (i + j) % 3 == 0):
                if len({x.name for x in a}) == len(a) and len({x.name for x in b}) == len(b):
                    H.append((ms, b, md, a, 0))
    jobs += [("host", part) for part in mc.chunks(H, 200)]
    n = nw = 0
    for res in mc.pmap(job, jobs):
        if isinstance(res, mc.Crash):
            ck.violation("machinery", "the comparison could not be run: %s" % res, None)
            continue
        for want, st, key, bad, rep in res:
            n += 1
            nw += want is not None
            ck.outcome("%s %s" % ({True: "agree", False: "disagree", None: "free"}[want], st))
            if bad:
                ck.violation(key, bad, rep)
            elif want is False:
                ck.sample(key)
    ck.finish(states=n, transitions=n, traces_validated_against_impl=n, prescribed=nw, single_entry=len(C), several_entries=len(M), host_files=len(H), exhaustive=True)


if __name__ == "__main__":
    main()
