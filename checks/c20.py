"""C20: names, units, dimensions and types are validated by their stated grammar.

All strings up to a length over an alphabet with every character class of the grammar, and all token sequences up to a
length, are given to every checker (with and without error request) and to the attribute objects that use them, and
compared with recognisers written here character by character from the documented grammar (not from the patterns)."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

LET = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIG = set("0123456789")
WORD = LET | DIG | {"_"}


# ---------------------------------------------------------------- recognisers: True / False / None (not stated)
def is_id(s, max_len=0):
    return bool(s) and s[0] in LET and all(c in WORD for c in s) and not (max_len and len(s) > max_len)


def is_stdname(s):
    if not s:
        return None                      # blank: always an error
    return is_id(s)


def is_unit(s):
    t = s.strip(" ")
    if any(c in "\t\n\r\f\v" for c in s):
        return None
    if t == "1":
        return True
    if t == "":
        return False
    if "_" in t:                          # words joined by underscores
        w = t.split("_")
        if not all(x and all(c in LET for c in x) for x in w):
            return False
        return True if len(w) == 2 or all(len(x) > 1 for x in w) else None
    parts = t.split(" ")
    for p in parts:
        i = 0
        while i < len(p) and p[i] in LET:
            i += 1
        if i == 0:
            return False
        e = p[i:]
        if e:
            d = e[1:] if e[0] == "-" else e
            if not d or d[0] == "0" or not all(c in DIG for c in d):
                return False
    return True


def is_ref(s, max_len=0):
    if "\n" in s or "\t" in s:
        return False if s[-1] in "\n\t" else None
    if is_id(s, max_len):
        return True
    if "(" not in s:
        return False
    name, rest = s.split("(", 1)
    if not rest.endswith(")"):
        return False
    items = [x.strip(" ") for x in rest[:-1].split(",")]
    name = name.rstrip(" ")
    if not is_id(name) or len(items) > 7:
        return False
    for it in items:
        if not (it == ":" or is_id(it) or (it and all(c in DIG for c in it))):
            return False
    if max_len:
        if len(name) > max_len or any(is_id(x) and len(x) > max_len for x in items):
            return False
        if any(len(x) > max_len for x in items):
            return None
    return True


def is_int(s, sign=True):
    if sign and s[:1] in ("+", "-"):
        s = s[1:]
    return bool(s) and all(c in DIG for c in s)


def is_dim(s, max_len=0):
    if "\n" in s:
        return None
    parts = s.split(":")
    res = True
    if len(parts) > 3:
        return False
    for p in parts:
        if p == "":
            continue
        q = p.strip(" ")
        if q == "":
            res = None                    # blanks between colons: not stated
            continue
        if is_int(q):
            continue
        if is_id(q, max_len):
            continue
        if q[:4].lower() == "size":
            r = q[4:].lstrip(" ")
            if r[:1] == "(":
                depth = 0
                end = None
                for i, c in enumerate(r):
                    depth += (c == "(") - (c == ")")
                    if depth == 0:
                        end = i
                        break
                if end is None:
                    return False
                if end == len(r) - 1:
                    inner = [x.strip(" ") for x in r[1:-1].split(",")]
                    if not all(is_ref(x) or is_int(x) for x in inner) or len(inner) > 2:
                        res = None        # argument of size is not stated
                    continue
                res = None
                continue
            if "(" in r:
                res = None
                continue
            return False
        return False
    return res


def split_kind(s):
    i = s.find("_")
    return (s, "") if i < 0 else (s[:i], s[i + 1:])


def lit_num(s, kind, real):
    s = s.strip(" ")
    if "_" in s:
        v, k = split_kind(s)
        if k == "" or kind == "" or k.lower() != kind.lower():
            return False
    else:
        v = s
        if kind:
            return False
    if v[:1] in ("+", "-"):
        v = v[1:]
    if not real:
        return bool(v) and all(c in DIG for c in v)
    i = 0
    nd = npt = 0
    while i < len(v) and (v[i] in DIG or v[i] == "."):
        nd += v[i] in DIG
        npt += v[i] == "."
        i += 1
    if npt != 1 or nd == 0:
        return False
    e = v[i:]
    if not e:
        return True
    return e[0] in "eE" and is_int(e[1:])


def lit_logical(s, kind):
    s = s.strip(" ")
    for t in (".true.", ".false."):
        if s.lower().startswith(t):
            r = s[len(t):]
            if kind == "":
                return r == ""
            return r[:1] == "_" and r[1:].lower() == kind.lower()
    return False


def lit_char(s, kind):
    s = s.strip(" ")
    if kind.lower().startswith("len="):
        kind = ""                          # a length is no kind
    if kind:
        if s[:len(kind) + 1].lower() != kind.lower() + "_":
            return False
        s = s[len(kind) + 1:]
    if len(s) < 2 or s[0] not in "'\"" or s[-1] != s[0]:
        return False
    return "".join(s[1:-1].split(s[0] * 2)).count(s[0]) == 0


def lit_complex(s, kind):
    s = s.strip(" ")
    if len(s) < 2 or s[0] != "(" or s[-1] != ")":
        return False
    p = s[1:-1].split(",")
    if len(p) != 2:
        return False
    return all(lit_num(x, kind, True) for x in p) or all(lit_num(x, kind, False) for x in p)


def literal(s, typ, kind):
    t = "".join(typ.lower().split())
    if "\n" in s or "\t" in s:
        return None
    if t in ("real", "doubleprecision", "integer"):
        return lit_num(s, kind, t != "integer")
    return {"logical": lit_logical, "character": lit_char, "complex": lit_complex}[t](s, kind)


def is_type(s):
    if "\n" in s:
        return None
    return "".join(s.strip(" ").lower().split(" ")) in ("integer", "real", "logical", "complex", "character", "doubleprecision") and \
        (s.strip(" ").lower() in ("integer", "real", "logical", "complex", "character") or "".join(s.lower().split(" ")) == "doubleprecision"
         and s.strip(" ").lower().startswith("double") and s.strip(" ").lower().endswith("precision"))


def is_diag(s):
    if s == "":
        return None
    for sub in ("${process}", "${scheme_name}"):
        if sub in s:
            pre, suf = s.split(sub, 1)
            return (pre == "" or is_id(pre)) and all(c in WORD for c in suf)
    return is_id(s)


def is_mass(s):
    t = s.strip(" ")
    if not t or any(c not in "0123456789+-.eE" for c in t):
        return False if not any(c in "\t\n" for c in t) else None
    b = t[1:] if t[0] in "+-" else t
    i = nd = npt = 0
    while i < len(b) and (b[i] in DIG or b[i] == "."):
        nd += b[i] in DIG
        npt += b[i] == "."
        i += 1
    e = b[i:]
    if nd == 0 or npt > 1 or (e and not (e[0] in "eE" and is_int(e[1:]))):
        return False
    from fractions import Fraction
    m, x = b[:i], int(e[1:]) if e else 0
    if abs(x) > 400:
        return None
    v = Fraction(m if m[0] != "." else "0" + m) * Fraction(10) ** x * (-1 if t[0] == "-" else 1)
    return 0 <= v <= 10000


def list_items(s):
    """Parenthesised list split at top-level commas, or None when it is no such list."""
    t = s.strip(" ")
    if len(t) < 2 or t[0] != "(" or t[-1] != ")":
        return None
    depth, items, cur = 0, [], ""
    for c in t[1:-1]:
        if c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if depth < 0:
                return None
        if c == "," and depth == 0:
            items.append(cur.strip(" "))
            cur = ""
        else:
            cur += c
    if depth:
        return None
    items.append(cur.strip(" "))
    if len(items) > 1 and "" in items:
        return None
    return items


# ---------------------------------------------------------------- the checkers
_P = {}


def P():
    if not _P:
        from parse_tools import parse_checkers as pc
        from parse_tools import CCPPError
        import var_props
        _P.update(pc=pc, CCPPError=CCPPError, vp=var_props)
    return _P


def call(fn, *a, **k):
    """('value', v) | ('refused', text) | ('crash', text)"""
    p = P()
    try:
        return "value", fn(*a, **k)
    except p["CCPPError"] as exc:
        return "refused", str(exc)
    except Exception as exc:     # pylint: disable=broad-except
        return "crash", "%s: %s" % (type(exc).__name__, exc)


def verdict(want, norm, got0, got1, val):
    """want: oracle; got0/got1: outcome without/with error request."""
    for g, w in ((got0, "without"), (got1, "with")):
        if g[0] == "crash":
            return "%s error request: %s" % (w, g[1])
    if want is None:
        # not stated: only consistency
        if (got0[0] == "value" and got0[1] is not None) != (got1[0] == "value" and got1[1] is not None) and val != "":
            return "the answer depends on whether an error is requested: %r / %r" % (got0, got1)
        return None
    if want:
        for g, w in ((got0, "without"), (got1, "with")):
            if g != ("value", norm):
                return "conforms, but %s error request the outcome is %r instead of %r" % (w, g, norm)
    else:
        if got0 != ("value", None):
            return "does not conform, but without error request the outcome is %r" % (got0,)
        if got1[0] != "refused":
            return "does not conform, but with error request the outcome is %r" % (got1,)
    return None


def one(kind, s):
    """-> (outcome, problem or None)"""
    pc = P()["pc"]
    name, *par = kind
    if name == "units":
        w, n = is_unit(s), s
        r = [call(pc.check_units, s, None, e) for e in (False, True)]
    elif name == "stdname":
        w, n = is_stdname(s), s.lower()
        r = [call(pc.check_cf_standard_name, s, None, e) for e in (False, True)]
        if s == "":
            return "blank", None if r[0][0] == r[1][0] == "refused" else "a blank name is not refused: %r" % (r,)
    elif name == "id":
        w, n = is_id(s, par[0]), s
        r = [call(pc.check_fortran_id, s, None, e, max_len=par[0]) for e in (False, True)]
    elif name == "ref":
        w, n = is_ref(s, par[0]), s
        r = [call(pc.check_fortran_ref, s, None, e, max_len=par[0]) for e in (False, True)]
    elif name == "local":
        prot, typ, k = par
        pd = {"protected": prot, "type": typ, "kind": k}
        w, n = is_ref(s), s
        if prot and typ and typ != "mc_ddt":
            lw = literal(s, typ, k)
            w = True if w or lw else (None if lw is None or w is None else False)
        r = [call(pc.check_local_name, s, pd, e) for e in (False, True)]
    elif name == "dims":
        items = list(s)
        ws = [is_dim(x, par[0]) for x in items]
        w, n = (False if False in ws else None if None in ws else True), items
        r = [call(pc.check_dimensions, list(items), None, e, max_len=par[0]) for e in (False, True)]
        if w is not True and r[0][0] == "refused" and any(y.count("(") > y.count(")") and "size" in y.lower() for x in items for y in x.split(":")):
            r[0] = ("value", None)       # documented: an unbalanced size entry is always an error
    elif name == "literal":
        typ, k = par
        w = literal(s, typ, k)
        g = call(pc.check_fortran_literal, s, typ, k)
        if w is None:
            return "literal", None if g[0] == "value" else "crash: %r" % (g,)
        return "literal %s" % w, None if g[0] == "value" and g[1] == w else "%s, but the outcome is %r" % (
            "conforms" if w else "does not conform", g)
    elif name == "default":
        typ, k = par
        w, n = literal(s, typ, k), s
        pd = {"type": typ, "kind": k, "local_name": "x"} if k else {"type": typ, "local_name": "x"}
        r = [call(pc.check_default_value, s, pd, e) for e in (False, True)]
    elif name == "type":
        w, n = is_type(s), s
        r = [call(pc.check_fortran_type, s, {}, e) for e in (False, True)]
        q = [call(pc.check_fortran_intrinsic, s, error=e) for e in (False, True)]
        bad = verdict(w, n, q[0], q[1], s)
        if bad:
            return "type", "intrinsic: " + bad
    elif name == "diag":
        other = par[0]
        w, n = (False if other else is_diag(s)), s
        pd = {"diagnostic_name_fixed": other, "local_name": "x", "standard_name": "y"} if other is not None else {}
        r = [call(pc.check_diagnostic_id, s, pd, e) for e in (False, True)]
    elif name == "fixed":
        other = par[0]
        w, n = (False if other else is_id(s)), s
        pd = {"diagnostic_name": other, "local_name": "x", "standard_name": "y"} if other is not None else {}
        r = [call(pc.check_diagnostic_fixed, s, pd, e) for e in (False, True)]
    elif name == "mass":
        w = is_mass(s)
        n = float(s) if w else None
        r = [call(pc.check_molar_mass, s, None, e) for e in (False, True)]
    elif name == "list":
        w = list_items(s)
        g = call(pc.fortran_list_match, s)
        if "'" in s or '"' in s:
            return "list", None
        return "list", None if g == ("value", w) else "the items are %r instead of %r" % (g, w)
    elif name == "prop":
        return prop(par[0], s)
    else:
        raise AssertionError(kind)
    return "%s %s" % (name, w), verdict(w, n, r[0], r[1], s)


def prop(which, s):
    """The attribute objects of the metadata: text -> value."""
    vp = P()["vp"]
    pc = P()["pc"]
    VP = vp.VariableProperty
    t = s.strip(" ")
    if which == "bool":
        o = VP("protected", bool, optional_in=True, default_in=False)
        w = s.lower() in ("t", "true", ".true.", "f", "false", ".false.")
        n = s.lower() in ("t", "true", ".true.")
    elif which == "intent":
        o = VP("intent", str, valid_values_in=["in", "out", "inout"])
        w, n = s in ("in", "out", "inout"), s
        if s.lower() in ("in", "out", "inout") and not w:
            w = None
    elif which == "dimensions":
        o = VP("dimensions", list, check_fn_in=pc.check_dimensions)
        n = list_items(s)
        ws = [is_dim(x) for x in n] if n is not None else [False]
        w = False if False in ws else None if None in ws else True
        if n == [""]:
            n = []
    elif which == "molar_mass":
        o = VP("molar_mass", float, optional_in=True, default_in=0.0, check_fn_in=pc.check_molar_mass)
        w = is_mass(s)
        n = float(s) if w else None
    elif which == "int":
        o = VP("rank", int, optional_in=True, default_in=1, valid_values_in=[0, 1, 10])
        w = is_int(t) and abs(int(t)) < 100 and int(t) in (0, 1, 10)
        n = int(t) if w else None
    elif which in ("units", "standard_name", "type", "local_name"):
        o = VP(which, str, check_fn_in={"units": pc.check_units, "standard_name": pc.check_cf_standard_name,
                                        "type": pc.check_fortran_type, "local_name": pc.check_local_name}[which])
        w = {"units": is_unit, "standard_name": is_id, "type": is_type, "local_name": is_ref}[which](s)
        n = s.lower() if which == "standard_name" else s
    else:
        raise AssertionError(which)
    if s == "":
        w = None                          # an empty attribute is a matter of the table reader (C15)
    r = [call(o.valid_value, s, {}, e) for e in (False, True)]
    if which == "standard_name" and s == "" and r[0][0] == "refused":
        r[0] = ("value", None)
    return "prop %s %s" % (which, w), verdict(w, n, r[0], r[1], s)


def run(job):
    kind, items = job
    bad, out = [], {}
    for s in items:
        o, b = one(kind, s)
        out[o] = out.get(o, 0) + 1
        if b and len(bad) < 4:
            bad.append((s, b))
    return len(items), bad, out


def strings(alpha, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def main():
    deep = mc.TIER == "thorough" if hasattr(mc, "TIER") else (len(sys.argv) > 1 and sys.argv[1] == "thorough")
    x = 1 if deep else 0
    ck = mc.Check("C20", "exploration")
    P()
    jobs = []

    def add(kind, it, size=20000):
        it = iter(it)
        while True:
            c = list(itertools.islice(it, size))
            if not c:
                return
            jobs.append((kind, c))
    add(("units",), strings("a_10- +.", 5 + x))
    add(("units",), strings(["kg", "m", "s-1", "-1", "10", "0", "_", " ", "1", "K2", "a", "per", "\u0663", "\u212a", "\t", "/", "**2", "^2", "\n"], 4 + x))
    add(("stdname",), strings(["a", "Z", "0", "_", "-", " ", "$", "(", "\u00e9", "\u212a", "\u017f", "\u0663", "\n"], 4 + x))
    for ml in (0, 2, 3):
        add(("id", ml), strings(["a", "Z", "0", "_", "-", " ", "%", "\u00e9", "\u212a", "\n"], 4 + x))
        add(("ref", ml), strings("a1(),: _", 5 + x))
        add(("ref", ml), strings(["ab", "abc", "(", ")", ",", ":", "12", " ", "_x", "%", "\n"], 5 + x))
    add(("ref", 0), ("q(" + ",".join(t) + ")" for n in (6, 7, 8) for t in itertools.product([":", "i1"], repeat=n)))
    for prot in (True, False):
        for typ, k in (("integer", ""), ("integer", "k"), ("real", ""), ("real", "k"), ("logical", ""), ("character", ""), ("", ""),
                       ("mc_ddt", "")):
            add(("local", prot, typ, k), strings(["1", "-", ".", "a", "_k", "(", ")", ":", ",", "'", ".true.", "e"], 4))
    for ml in (0, 3):
        add(("dims", ml), ((s,) for s in strings("a1:- _()", 5 + x)))
        add(("dims", ml), ((s,) for s in strings(["abcd", "ab", "size", "(", ")", ":", "1", "1_0", ",", " ", "SIZE(x)", "size(x,1)", "\n", "\u0663"], 4 + x)))
        add(("dims", ml), itertools.product(["ab", ":", "1:ab", "8", "::", "size(x)", "size(x", "2y", "a:b:c:d", "abcd", "-1:2", "a b", "1_0"], repeat=2 + x))
    kinds = ("", "k", "kind_phys", "K")
    for k in kinds:
        for typ in ("real", "REAL", "double precision", "doubleprecision"):
            add(("literal", typ, k), strings(["1", "0", ".", "+", "-", "_", "e", "E", "k", "d"] if typ == "real" else "1._e-", 5 + x))
            add(("literal", typ, k), strings(["1", ".", "_kind_phys", "_k", "_K", "_KIND_PHYS", "e5", "E-5", " ", "_", "inf", "nan", "_x"], 3 + x))
        add(("literal", "integer", k), strings(["1", "0", "+", "-", "_", "k", "K", " ", ".", "_kind_phys", "\u0663"], 4 + x))
        add(("literal", "logical", k), strings([".true.", ".FALSE.", "T", "true", ".", "_k", "_K", "_", " ", "_kind_phys", "k_"], 4))
        add(("literal", "complex", k), strings(["(", ")", ",", "1.", "2", "_k", " ", "_kind_phys", "-", "e1"], 5 + x))
    for k in kinds + ("len=*", "len=5", "len=len_var", "LEN=8"):
        add(("literal", "character", k), strings("'\"a_k", 5 + x))
        add(("literal", "character", k), strings(["'", '"', "a b", "_", "k_", "K_", "kind_phys_", "len=5_", " ", "len=*_"], 4 + x))
    for typ, k in itertools.product(("integer", "real", "logical", "character", "complex"), ("", "k", "len=5")):
        add(("default", typ, k), strings(["1", ".", "'", "a", "_k", ".true.", "(", ",", ")", "-", " "], 4))
    add(("type",), strings(["real", "INTEGER", "double", "precision", "Precision", " ", "_", "x", "(", ")", "complex", "char", "acter", "type", "logical", "\n"], 4))
    for other in (None, "", "foo"):
        add(("diag", other), strings(["a", "_", "1", "${process}", "${scheme_name}", "${", "}", "$", "process", "{process}", "-", " ", "\n"], 4))
        add(("fixed", other), strings(["a", "_", "1", "${process}", "-", " ", "Z", "\n"], 4))
    add(("mass",), strings(["1", "0", ".", "-", "+", "e", "_", " ", "9999", "10000", "nan", "inf", "a"], 5))
    add(("list",), strings(["a", "b", ",", "(", ")", " ", ":", "size(x,1)", "1"], 5 + x))
    add(("prop", "bool"), strings(["t", "T", "true", ".", "f", "False", "1", "0", " ", "yes", "x"], 4))
    add(("prop", "intent"), strings(["in", "out", "IN", "i", " ", "none"], 3))
    add(("prop", "dimensions"), strings(["a", "(", ")", ",", ":", "size(x,1)", "2", " ", "1_0", "b-"], 5))
    add(("prop", "molar_mass"), strings(["1", "0", ".", "-", "e", "_", "10000", "nan", "inf", "a", " "], 4))
    add(("prop", "int"), strings(["1", "0", ".", "-", "_", "a", " "], 4))
    for w in ("units", "standard_name", "type", "local_name"):
        add(("prop", w), strings(["a", "m", "s-1", " ", "_", "1", "real", "(", ")", ":"], 3))
    n = 0
    for job, (k, bad, out) in zip(jobs, mc.pmap(run, jobs)):
        n += k
        for o, c in out.items():
            ck.outcome(o, c)
        for s, b in bad:
            ck.violation("%s %r" % (" ".join(repr(p) if i else p for i, p in enumerate(job[0])), s), b)
    ck.sample("units 'm s-1'")
    ck.finish(evaluations=n, distinct_nontrivial=n, exhaustive=True,
              rule="all strings/token sequences up to the bound per checker, with and without error request")


if __name__ == "__main__":
    main()
