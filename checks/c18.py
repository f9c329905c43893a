#!/opt/venv/bin/python
"""C18: the metadata skeleton written for a Fortran source describes that source.

Every Fortran source of the C07 catalogue (argument lists and member lists with every single change, thorough: every
pair of changes, in every declaration style, for scheme entry points, derived types and modules) is converted with
ccpp_fortran_to_metadata. The skeleton is compared field by field with the records the source was made from, its
free-text fields (standard names, units, dimension names) are then filled in, and the framework's own consistency check
is run on the completed metadata and the same source."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import c07
from c07 import R

ERR = [R("errmsg", "character", "len=512", intent="out"), R("errflg", "integer", "", intent="out")]


def source(entry, fs, style, many):
    if entry == "scheme":
        secs = [("sch_init", ERR), ("sch_run", fs)]
        if many:
            secs = [("sch_timestep_init", fs[-1:] + [e for e in ERR if e.name != fs[-1].name])] + secs + [("sch_final", ERR[::-1])]
        return secs, c07.fort("scheme", "sch", secs, style)
    if entry == "ddt":
        secs = [("ty_c", fs)] + ([("ty_d", fs[:1]), ("ty_e", fs[1:])] if many else [])
        return secs, c07.fort("ddt", "mod_c", secs, style)
    return [("hmod", fs)], c07.fort("module", "hmod", [("hmod", fs)], style)


def read_skeleton(txt):
    """-> list of (table name, table type, [(title, type, [(local name, {field: text}, line numbers)])])"""
    tables, cur = [], None
    for n, line in enumerate(txt.split("\n")):
        s = line.strip()
        if not s or s[0] in "#;":
            continue
        if s == "[ccpp-table-properties]":
            tables.append([{}, []])
            cur = tables[-1][0]
        elif s == "[ccpp-arg-table]":
            tables[-1][1].append(({}, []))
            cur = tables[-1][1][-1][0]
        elif re.match(r"\[.*\]$", s):
            v = [s[1:-1].strip(), {}, {}]
            tables[-1][1][-1][1].append(v)
            cur = v
        else:
            for part in s.split("|"):
                k, _, t = part.partition("=")
                if isinstance(cur, list):
                    cur[1][k.strip()] = t.strip()
                    cur[2][k.strip()] = n
                else:
                    cur[k.strip()] = t.strip()
    return tables


def compare(secs, entry, tables):
    """Differences between the skeleton and the records"""
    # a section without variables for the module around the derived types may be written
    got = [(t, s) for t, ss in tables for s in ss if not (entry == "ddt" and s[0].get("name", "").lower() == "mod_c" and not s[1])]
    titles = [s[0].get("name") for _, s in got]
    if sorted(x.lower() for x in titles) != sorted(t for t, _ in secs):
        return "the skeleton has the tables %s, the source %s" % (titles, [t for t, _ in secs])
    for t, s in got:
        want = {"scheme": ("sch", "scheme"), "ddt": (s[0]["name"], "ddt"), "module": ("hmod", "module")}[entry]
        if (t.get("name", "").lower(), t.get("type")) != want or s[0].get("type") != want[1]:
            return "table properties %s and section properties %s for %s" % (t, s[0], want)
        fs = dict(secs)[s[0]["name"].lower()]
        if [v[0].lower() for v in s[1]] != [f.name.lower() for f in fs]:
            return "%s lists %s, the source has %s" % (s[0]["name"], [v[0] for v in s[1]], [f.name for f in fs])
        for v, f in zip(s[1], fs):
            g = v[1]
            bad = None
            rank = len([x for x in g.get("dimensions", "()").strip("() ").split(",") if x.strip()])
            ddt = f.typ not in ("real", "integer", "logical", "character", "complex")
            kind = g.get("kind", "").lower() or (g.get("type", "").lower() if ddt else "")
            if g.get("type", "").lower() != f.typ.lower():
                bad = "type"
            elif kind != f.kind.lower() and (f.kind or f.typ not in ("real", "complex") or kind != "kind_phys"):
                bad = "kind"
            elif rank != len(f.dims):
                bad = "rank"
            elif entry == "scheme" and g.get("intent", "").lower() != f.intent:
                bad = "intent"
            elif (g.get("optional", "").lower().strip(".") in ("true", "t")) != (f.opt and entry == "scheme"):
                bad = "optional"
            if bad:
                return "%s of %s in %s: the skeleton says %s, the source %s" % (bad, f.name, s[0]["name"], g, f.key())
    return None


def complete(txt, secs, tables):
    """Fill in the free-text fields: standard names, units, names of dimensions"""
    lines = txt.split("\n")
    for t, ss in tables:
        for s in ss:
            fs = dict(secs).get(s[0]["name"].lower(), [])
            for v, f in zip(s[1], fs):
                for k, n in v[2].items():
                    if k == "standard_name":
                        lines[n] = "  standard_name = " + c07.STD.get(f.name.lower(), "quantity_" + f.name.lower())
                    elif k == "units":
                        lines[n] = "  units = 1"
                    elif k == "dimensions" and f.dims:
                        new = []
                        old = v[1]["dimensions"].strip().strip("()").split(",")
                        for x, d in zip(old, f.dims):
                            ps = x.strip().split(":")
                            ds = d.split(":") if ":" in d else [d]
                            if len(ps) != len(ds):
                                new.append(x.strip())       # not what the source says; the framework's check decides
                                continue
                            new.append(":".join(c07.STD.get(b.lower(), b) if b else ("ccpp_constant_one" if j == 0 and len(ds) > 1 else "some_extent")
                                                for j, (a, b) in enumerate(zip(ps, ds))))
                        lines[n] = "  dimensions = (%s)" % ", ".join(new)
    return "\n".join(lines)


def convert(work):
    """In a fresh process: the conversion tool on every source -> status per case"""
    import runpy
    res = []
    os.chdir(work[0])
    fd = os.open("log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    for name, opts in work[1]:
        sys.argv = ["ccpp_fortran_to_metadata.py"] + opts + ["--output-root", "out", name]
        st = "no exit"
        try:
            runpy.run_path(os.path.join(mc.REPO, "scripts", "ccpp_fortran_to_metadata.py"), run_name="__main__")
        except SystemExit as e:
            st = "ok" if e.code in (0, None) else "exit %s" % e.code
        except BaseException as e:  # noqa
            st = "%s: %s" % (type(e).__name__, str(e)[:300])
        res.append(st)
    return res


def run(cases):
    d = mc.newdir("c18")
    sys.path.insert(0, os.path.join(mc.REPO, "scripts"))
    import ccpp_fortran_to_metadata  # noqa  (cached for the forked children)
    work = []
    with open(os.path.join(d, "tys.F90"), "w") as f:
        f.write(c07.fort("ddt", "tys", [("ty_a", [R("i", "integer", "")]), ("ty_b", [R("i", "integer", "")])], "plain").replace("  use tys, only: ty_a, ty_b\n", ""))
    for k, (entry, fs, style, many, lab, opts) in enumerate(cases):
        secs, src = source(entry, fs, style, many)
        with open(os.path.join(d, "f%d.F90" % k), "w") as f:
            f.write(src)
        work.append(("tys.F90,f%d.F90" % k if any(f.typ in ("ty_a", "ty_b") for _, l in secs for f in l) else "f%d.F90" % k, opts))
    sts = mc.forked(convert, (d, work), timeout=600)
    cg, env, log = c07.setup()
    res = []
    for k, (c, st) in enumerate(zip(cases, sts)):
        entry, fs, style, many, lab, opts = c
        secs, src = source(entry, fs, style, many)
        key = "%s %s %s%s %s[%s]" % (entry, lab, style, " many" if many else "", " ".join(opts) + " " if opts else "", " ".join(f.key() for f in fs))
        mf = os.path.join(d, "out", "f%d.meta" % k)
        why, txt = None, ""
        if st != "ok":
            why = "the conversion ends with %s" % st
        elif not os.path.exists(mf):
            why = "no metadata file is written"
        else:
            txt = open(mf).read()
            try:
                tables = read_skeleton(txt)
                why = compare(secs, entry, tables)
                if not why:
                    done = complete(txt, secs, tables)
                    got, msg = c07.read(cg, env, log, d, entry, [done], [src])
                    if got != "accepted":
                        why = "the completed skeleton is refused (%s): %s" % (got, msg)
            except (KeyError, IndexError, TypeError, AttributeError) as e:
                why = "the skeleton cannot be read: %r" % e
        res.append((key, why, {"fortran": src, "skeleton": txt} if why else None))
    mc.rmdir(d)
    return res


def space(quick):
    seen = set()

    def fine(fs):
        names = [f.name.lower() for f in fs]
        return fs and len(set(names)) == len(names) and c07.dims_known(fs, fs) and not any(
            f.name in ("errmsg", "errflg") and (f.intent != "out" or f.dims or f.opt) for f in fs) and all(
            f.typ == "integer" and not f.dims and f.intent == "in" and not f.opt for f in fs if f.name in ("nx", "ny", "n0"))

    def emit(entry, fs, st, many, lab, opts=()):
        if not fine(fs):
            return
        if any(f.typ in ("real", "complex") and not f.kind for f in fs):
            return                          # metadata without kind is kind_phys: cannot describe a real of default kind
        if many and (not c07.dims_known(fs[-1:], fs[-1:]) if entry == "scheme" else not c07.dims_known(fs[:1], fs[:1]) or not c07.dims_known(fs[1:], fs[1:])):
            return
        if entry != "scheme":
            fs = [f.but(opt=False) for f in fs]
            if any(0 < sum(d.endswith(":") for d in f.dims) < len(f.dims) for f in fs):
                return                      # not Fortran: deferred and explicit shape mixed
            if entry == "ddt" and any(p and not p.lstrip("-").isdigit() for f in fs for d in f.dims for p in d.split(":")):
                return                      # the extent of a member is not another member
        k = (entry, st, many, tuple(opts), tuple(f.key() for f in fs))
        if k not in seen:
            seen.add(k)
            yield (entry, fs, st, many, lab, list(opts))
    styles = ("plain", "attr", "order", "upper", "cont", "short", "blank", "joined", "reversed")
    for entry in ("scheme", "ddt", "module"):
        for base in c07.base_lists(entry) + ([[R("x"), R("s", "character", "len=8", dims=(":",)), R("y", dims=(":", ":"))]] if entry != "scheme" else
                                             [[R("v", dims=(":",)), R("s", "character", "len=*", dims=(":", ":"), intent="inout"), R("k", "integer", "kind_i8", intent="out", opt=True)]]):
            for st in styles:
                for many in (False, True):
                    yield from emit(entry, base, st, many, "same")
                    yield from emit(entry, base, st, many, "same", ["--section-separator", "########"])
                for lab, l in c07.list_changes(base, entry, True):
                    yield from emit(entry, l, st, len(lab) % 2 == 0, lab)
            one = list(c07.list_changes(base, entry, not quick))
            for lab, l in one:
                for lab2, l2 in c07.list_changes(l, entry, not quick):
                    if quick and hash_(lab + lab2) % 5:
                        continue
                    yield from emit(entry, l2, "plain", False, lab + "+" + lab2)


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def main():
    ck = mc.Check("C18", "exploration")
    cases = list(space(ck.quick))
    jobs = list(mc.chunks(cases, 100))
    n = 0
    for job, res in zip(jobs, mc.pmap(run, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % job[0][4], "the conversion could not be run: %s" % res)
            continue
        for (key, why, rep), c in zip(res, job):
            n += 1
            ck.outcome(c[0])
            if why:
                ck.violation(key, why, rep)
    ck.sample(str(cases[len(cases) // 2][4]))
    ck.finish(evaluations=n, distinct_nontrivial=len(cases), exhaustive=True)


if __name__ == "__main__":
    main()
