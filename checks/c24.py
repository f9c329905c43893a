"""C24: suite definition files are accepted exactly when they satisfy the schema.

Every document of a bounded grammar (element trees, attribute assignments, version strings), every single-character edit and every
truncation of a valid document, and the semantic variants (unknown schemes, repeated groups and suites) are given to capgen; the
verdict is compared with an independent implementation of the published schema.  What is refused must be refused with an
error that names the file, before anything is generated."""
import itertools
import os
import re
import sys
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, err_vars

BODY = {"time_split", "process_split", "subcycle", "subcol", "scheme"}
VERSION = re.compile(r"[1-9][0-9]*[.][0-9]+")
LOOP = re.compile(r"[a-z][a-z0-9_]*|[1-9][0-9]*")
FID = re.compile(r"[A-Za-z][A-Za-z0-9_]{0,63}")
NAME = re.compile(r"[A-Za-z][A-Za-z0-9_]{0,30}")
SCHEMES = {"s1", "s2"}
KNOWN = "number_of_things"
ATTRS = {"scheme": ({}, {"lib": None, "version": None}), "time_split": ({}, {}), "process_split": ({}, {}),
         "subcycle": ({}, {"loop": LOOP, "name": None}), "subcol": ({"gen": FID, "avg": FID}, {}), "group": ({"name": None}, {}),
         "suite": ({"name": None, "version": VERSION}, {"lib": None})}


def schema(e, typ=None):
    """does the element satisfy the schema"""
    typ = typ or e.tag
    if typ not in ATTRS:
        return False
    req, opt = ATTRS[typ]
    for a in req:
        if a not in e.attrib:
            return False
    for a, v in e.attrib.items():
        if a not in req and a not in opt:
            return False
        p = req.get(a) or opt.get(a)
        if p is not None and not p.fullmatch(v):
            return False
    kids = list(e)
    if typ == "scheme":
        return not kids
    if any(t and t.strip(" \t\r\n") for t in [e.text] + [k.tail for k in kids]):
        return False
    if typ == "suite":
        ks = list(kids)
        if ks and ks[0].tag in ("init", "initialize"):
            if not schema(ks.pop(0), "scheme"):
                return False
        if ks and ks[-1].tag in ("final", "finalize"):
            if not schema(ks.pop(), "scheme"):
                return False
        return bool(ks) and all(k.tag == "group" and schema(k) for k in ks)
    return all(k.tag in BODY and schema(k) for k in kids)


def judge(data):
    """-> 'ok', 'bad' (must be refused; the file must be named), 'sem' (must be refused), 'free'"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError:
        return "bad"
    except (ValueError, LookupError):
        return "bad"
    if root.tag != "suite" or not schema(root):
        return "bad"
    major, minor = root.get("version").split(".")
    if (int(major), int(minor)) != (1, 0):
        return "bad"
    free = root.get("version") != "1.0"
    sem = False
    groups = [g.get("name") for g in root.iter("group")]
    if len({g.lower() for g in groups}) < len(groups):
        sem = True
    if b"CDATA" in data:
        free = True             # character data where only elements are allowed, yet only blanks
    if b"<!ENTITY" in data:
        free = True             # the validator does not support entities
    names = groups + [root.get("name")] + [x.get("name") for x in root.iter("subcycle") if x.get("name") is not None]
    if any(g in ("register", "initialize", "finalize", "timestep_initial", "timestep_final") for g in groups):
        free = True
    if any(not NAME.fullmatch(n) for n in names):
        free = True
    for x in root.iter():
        if x.tag in ("scheme", "init", "initialize", "final", "finalize"):
            t = x.text or ""
            if t.strip(" \t\r\n") not in SCHEMES:
                if t.strip(" \t\r\n").lower() in SCHEMES:
                    free = True
                else:
                    sem = True
            elif t not in SCHEMES:
                free = True
        elif x.tag in ("process_split", "subcol"):
            free = True         # documented, not implemented: refusing is fine
        elif x.tag == "subcycle":
            lp = x.get("loop", "1")
            if not lp[0].isdigit() and lp != KNOWN:
                sem = True
            if x.get("name") in ("errmsg", "errflg", "s1", "s2"):
                free = True
    depth = max_split(root)
    return "sem" if sem else "free" if free or depth else "ok"


def max_split(root):
    """a time_split mixed with siblings in a group, or inside another: the meaning is not documented"""
    for g in root.iter():
        if g.tag in ("group", "time_split", "subcycle") and any(k.tag == "time_split" for k in g) and (len(g) > 1 or g.tag != "group"):
            return True
    return False


def case():
    sch = [Scheme(n, {"init": (err_vars(), []), "run": (err_vars(), []), "final": (err_vars(), [])}) for n in sorted(SCHEMES)]
    mod = HostMod("hm", [V("ncols", "horizontal_dimension", "integer", "", "count", protected="True"), V("nth", KNOWN, "integer", "", "count", protected="True")])
    return Case(mods=[mod], schemes=sch, suites=[])


def work(docs):
    """docs: list of (label, [file contents])"""
    d = mc.newdir("c24")
    out = []
    try:
        c = case()
        c.write(d)
        for n, (label, files) in enumerate(docs):
            fns = []
            for k, data in enumerate(files):
                fns.append("sdf_%d_%d.xml" % (n, k))
                if data is not None:
                    with open(os.path.join(d, fns[-1]), "wb") as f:
                        f.write(data)
            o = "out%d" % n
            args = c.args(o)
            args[args.index("--suites") + 1] = ",".join(fns)
            st, txt = cg.run_capgen(d, args)
            left = os.listdir(os.path.join(d, o)) if os.path.isdir(os.path.join(d, o)) else []
            # the log echoes the command line: only the lines after it are the message
            out.append((label, st, txt, [x for x in left if x.endswith(".F90") or x.endswith(".xml")], fns))
    finally:
        mc.rmdir(d)
    return out


# ------------------------------------------------------------------ documents
BASE = b'<?xml version="1.0" encoding="UTF-8"?>\n<suite name="su" version="1.0">\n<init>s1</init>\n<group name="g1"><subcycle loop="2"><scheme>s1</scheme></subcycle></group>\n' \
       b'<group name="g2"><scheme>s2</scheme></group>\n</suite>\n'
SMALL = b'<suite name="su" version="1.0"><group name="g"><scheme>s1</scheme></group></suite>'


def el(tag, kids="", text="", **at):
    return "<%s%s>%s%s</%s>" % (tag, "".join(' %s="%s"' % (k, v) for k, v in at.items()), text, kids, tag)


def suite(kids, **at):
    at = at or {"name": "su", "version": "1.0"}
    return ('<?xml version="1.0" encoding="UTF-8"?>' + el("suite", kids, **at)).encode()


def space(deep):
    S1 = el("scheme", text="s1")
    S2 = el("scheme", text="s2")
    # children of a suite
    kinds = {"group": None, "init": el("init", text="s1"), "initialize": el("initialize", text="s1"), "final": el("final", text="s2"), "finalize": el("finalize", text="s2"),
             "scheme": S1, "subcycle": el("subcycle", S1, loop="2"), "Group": el("Group", S1, name="gx"), "time_split": el("time_split", S1)}
    if deep:
        kinds.update({"run": el("run", text="s1"), "timestep_init": el("timestep_init", text="s1"), "register": el("register", text="s1"), "suite": el("suite", el("group", S1, name="q"), name="x", version="1.0")})
    for n in range(0, 4 if deep else 4):
        for combo in itertools.product(sorted(kinds), repeat=n):
            if n == 3 and not deep and combo.count("group") == 0:
                continue
            if n == 3 and not deep and set(combo) & {"time_split", "Group"} and combo.count("group") < 2:
                continue
            yield "suite children " + " ".join(combo), [suite("".join(kinds[k] or el("group", S1, name="g%d" % i) for i, k in enumerate(combo)))]
    # children of group-like elements, nested
    at = {"subcycle": {"loop": "2"}, "subcol": {"gen": "g", "avg": "a"}, "group": {"name": "gz"}}
    inner = [("-", "")] + [(t, S1 if t == "scheme" else el(t, "", **at.get(t, {}))) for t in sorted(BODY) + ["group", "init", "bogus"]] + \
        [("%s(s1)" % t, el(t, S1, **at.get(t, {}))) for t in sorted(BODY - {"scheme"}) + ["group", "init", "suite"]] + \
        [("%s(%s(s1))" % (a, b), el(a, el(b, S1, **at.get(b, {})), **at.get(a, {}))) for a in sorted(BODY) for b in sorted(BODY | {"group", "bogus"})]
    for (la, a), (lb, b) in itertools.product(inner, inner if deep else inner[:7]):
        yield "group children %s %s" % (la, lb), [suite(el("group", a + b, name="g1"))]
    # attributes
    val = {"name": ["x", "", "a b", "1x", "x" * 70, "X", "su", "x-y"], "version": ["1.0", "", "1", "2.0", "1.1", "x"], "lib": ["l", ""],
           "loop": ["1", "2", "0", "-1", "01", "1.5", "", KNOWN, "unknown_name", "Number_of_things", " 2", "2 ", "10", "a b", "9x"],
           "gen": ["g", "", "1g", "g" * 64, "g" * 65], "avg": ["a", ""], "bogus": ["x"]}
    holder = {"suite": lambda x: None, "group": lambda x: x, "scheme": lambda x: el("group", x, name="g"), "subcycle": lambda x: el("group", x, name="g"), "subcol": lambda x: el("group", x, name="g"),
              "time_split": lambda x: el("group", x, name="g"), "process_split": lambda x: el("group", x, name="g"), "init": lambda x: x + el("group", S1, name="g"), "finalize": lambda x: el("group", S1, name="g") + x}
    for t in holder:
        names = sorted(val)
        for k in range(0, 4 if deep else 3):
            for sel in itertools.combinations(names, k):
                full = t in ("suite", "subcol", "subcycle", "group") or k < 2
                vals = [val[a] if full and (k < 3 or a in ("name", "version")) else val[a][:1] for a in sel]
                if k == 2 and not deep and not (set(sel) <= set(ATTRS.get(t, ATTRS["scheme"])[0]) | set(ATTRS.get(t, ATTRS["scheme"])[1])):
                    vals = [v[:1] for v in vals]
                for combo in itertools.product(*vals):
                    a = dict(zip(sel, combo))
                    if t == "suite":
                        doc = ('<suite%s>%s</suite>' % ("".join(' %s="%s"' % x for x in a.items()), el("group", S1, name="g"))).encode()
                    else:
                        x = el(t, S1 if t in ("group", "subcycle", "subcol", "time_split", "process_split") else "", "s1" if t in ("scheme", "init", "finalize") else "", **a)
                        doc = suite(holder[t](x))
                    yield "attributes %s %s" % (t, " ".join("%s=%s" % x for x in a.items())), [doc]
    # versions
    ch = "019.-+ a"
    vs = set()
    for n in range(0, 5 if deep else 4):
        vs.update("".join(x) for x in itertools.product(ch, repeat=n))
    vs |= {"1.0.0", "1.00", "01.0", "10.0", "1.0\n", "1,0", "v1.0", "1.0 ", " 1.0", "1.-0", "1.+0", "1_0.0", "1.0_0", "\u0661.0", "1.\u0660", "99999999999999999999.0"}
    for v in sorted(vs):
        yield "version '%s'" % v, [suite(el("group", S1, name="g"), name="su", version=v.replace("\n", "&#10;"))]
    # text
    for t in ("", "s1", "s2", "s3", "S1", " s1 ", "\n s1\n", "s1 s2", "s1_run", "<!-- c -->s1", "s<!-- c -->1", "&#115;1", "<![CDATA[s1]]>", "&amp;", "s1<x/>", "sx<?pi x?>", "s", "s11", "su", "g"):
        for tag in ("scheme", "init", "final"):
            x = el(tag, text=t)
            yield "text %s '%s'" % (tag, t), [suite(el("group", x, name="g") if tag == "scheme" else x + el("group", S1, name="g") if tag == "init" else el("group", S1, name="g") + x)]
    for t in ("x", "  \n\t", "&#160;", "<!-- c -->", "&#32;", "<?pi?>", "<![CDATA[ ]]>", "<![CDATA[x]]>"):
        for tag in ("suite", "group", "subcycle", "time_split"):
            g = {"suite": lambda: suite(t + el("group", S1, name="g")), "group": lambda: suite(el("group", S1 + t, name="g")),
                 "subcycle": lambda: suite(el("group", el("subcycle", t + S1), name="g")), "time_split": lambda: suite(el("group", el("time_split", S1 + t), name="g"))}[tag]()
            yield "text in %s '%s'" % (tag, t), [g]
    # groups and suites
    gn = ["a", "b", "A", "su", "g_1", "ab"]
    for n in (2, 3):
        for combo in itertools.product(gn if deep or n == 2 else gn[:3], repeat=n):
            yield "group names " + " ".join(combo), [suite("".join(el("group", S1, name=g) for g in combo))]
    one = lambda n, b=S1: suite(el("group", b, name="g"), name=n, version="1.0")
    bad = suite(S1)
    for combo in itertools.product([("su", one("su")), ("sv", one("sv")), ("bad", bad), ("missing", None), ("sem", one("sw", el("scheme", text="nosuch")))], repeat=2):
        yield "two files " + " ".join(x for x, _ in combo), [x for _, x in combo]
    # encodings
    b = SMALL.decode()
    for enc in ("utf-8", "utf-16", "iso-8859-1", "us-ascii", "utf-8-sig"):
        for decl in (None, "UTF-8", "UTF-16", "ISO-8859-1", "US-ASCII", "bogus", "utf8"):
            for c in ("", "\u00e9"):
                t = ('<?xml version="1.0" encoding="%s"?>' % decl if decl else "") + b.replace("<group", "<!-- %s --><group" % c if c else "<group")
                try:
                    yield "encoding %s declared %s%s" % (enc, decl, " accent" if c else ""), [t.encode(enc)]
                except UnicodeEncodeError:
                    pass
    for lab, data in (("empty", b""), ("blank", b" \n"), ("text", b"hello"), ("two roots", SMALL + SMALL), ("nul", SMALL[:20] + b"\0" + SMALL[20:]), ("doctype", b"<!DOCTYPE suite>" + SMALL),
                      ("entity", b'<!DOCTYPE suite [<!ENTITY e "s1">]>' + SMALL.replace(b"s1", b"&e;")), ("undefined entity", SMALL.replace(b"s1", b"&nosuch;")), ("xml 1.1", b'<?xml version="1.1"?>' + SMALL),
                      ("namespace", SMALL.replace(b"<suite", b'<suite xmlns="urn:x"')), ("prefix", SMALL.replace(b"suite", b"p:suite").replace(b"<p:suite", b'<p:suite xmlns:p="urn:x"')),
                      ("root group", b'<group name="g"><scheme>s1</scheme></group>'), ("root model", SMALL.replace(b"suite", b"model"))):
        yield "file " + lab, [data]
    # every truncation and every edit of one character
    for doc, lab in ((BASE, "base"), (SMALL, "small")):
        if doc is BASE and not deep:
            continue
        for k in range(len(doc)):
            if not deep and doc[k:k + 1].isalnum() and doc[k - 1:k].isalnum() and doc[k + 1:k + 2].isalnum():
                continue        # inside a word
            yield "%s cut at %d" % (lab, k), [doc[:k]]
            yield "%s without character %d" % (lab, k), [doc[:k] + doc[k + 1:]]
            for c in b'<>/"& x1\xff' if deep else b'<"x':
                yield "%s with %r at %d" % (lab, chr(c), k), [doc[:k] + bytes([c]) + doc[k:]]
            for c in b'<>X' if deep else b'X':
                yield "%s %r for %d" % (lab, chr(c), k), [doc[:k] + bytes([c]) + doc[k + 1:]]


def main():
    ck = mc.Check("C24", "model_checking")
    cg.preload()
    docs = list(space(not ck.quick))
    want = {}
    for label, files in docs:
        vs = [judge(x) if x is not None else "bad" for x in files]
        if len(files) == 2 and vs == ["ok", "ok"] and files[0] == files[1]:
            vs = ["sem"]       # the same suite twice
        want[label] = vs
    jobs = list(mc.chunks(docs, 12))
    n = 0
    for job, res in zip(jobs, mc.pmap(work, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % job[0][0], "capgen could not be run: %s" % res, None)
            continue
        for (label, st, txt, left, fns), (_, files) in zip(res, job):
            n += 1
            vs = want[label]
            w = "bad" if "bad" in vs else "sem" if "sem" in vs else "free" if "free" in vs else "ok"
            ck.outcome("%s: %s" % (w, "accepted" if st == "ok" else "refused"))
            p = None
            if st not in ("ok", "CCPPError", "exit", "internal"):
                p = "capgen crashes (%s): %s" % (st, txt[-300:])
            elif w in ("bad", "sem") and st == "ok":
                p = "a document that must be refused is accepted"
            elif w == "ok" and st != "ok":
                p = "a valid suite definition is refused: %s %s" % (st, txt[-300:])
            elif st != "ok" and left:
                p = "refused, but %s generated" % left
            elif w == "bad" and "sem" not in vs and not any(f in txt.split("\n--suites")[0] for f, v in zip(fns, vs) if v == "bad"):
                p = "the error does not name the file: %s" % txt[:300]
            if p:
                ck.violation(label, p, {"document": label, "files": [f.decode("latin-1") if f is not None else None for f in files]})
    ck.sample(docs[len(docs) // 2][0])
    ck.finish(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
