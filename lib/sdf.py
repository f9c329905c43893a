"""Suite-definition trees: enumeration, XML, the reference trace, and batched execution."""
import itertools
import os

import cg
import mc
from cg import V, Scheme, HostMod, Case, suite_xml, driver, err_vars, PHASES

# node: ('s', scheme) | ('c', loop, items, name) | ('t', items)
LOOPVAR = "number_of_mc_subcycles"


def forests(n, depth, kinds=("c", "t"), _memo={}):
    """All item lists with exactly n scheme leaves (labelled None) and nesting depth <= depth."""
    key = (n, depth, kinds)
    if key in _memo:
        return _memo[key]
    res = []
    if n == 0:
        res.append(())
    else:
        for k in range(1, n + 1):
            for first in items(k, depth, kinds):
                for rest in forests(n - k, depth, kinds):
                    res.append((first,) + rest)
    _memo[key] = res
    return res


def items(n, depth, kinds):
    res = []
    if n == 1:
        res.append(("s", None))
    if depth > 0:
        for f in forests(n, depth - 1, kinds):
            for k in kinds:
                res.append(("c", None, f, None) if k == "c" else ("t", f))
    return res


def leaves(forest):
    out = 0
    for it in forest:
        out += 1 if it[0] == "s" else leaves(it[2] if it[0] == "c" else it[1])
    return out


def ncycles(forest):
    out = 0
    for it in forest:
        if it[0] == "c":
            out += 1 + ncycles(it[2])
        elif it[0] == "t":
            out += ncycles(it[1])
    return out


def label(forest, names, loops):
    """Fill leaves from iterator names and cycles from iterator loops."""
    out = []
    for it in forest:
        if it[0] == "s":
            out.append(("s", next(names)))
        elif it[0] == "c":
            lp = next(loops)
            out.append(("c", lp, label(it[2], names, loops), it[3]))
        else:
            out.append(("t", label(it[1], names, loops)))
    return tuple(out)


def xml(forest, ind="    "):
    out = ""
    for it in forest:
        if it[0] == "s":
            out += ind + "<scheme>%s</scheme>\n" % it[1]
        elif it[0] == "c":
            a = (' loop="%s"' % it[1] if it[1] is not None else "") + \
                (' name="%s"' % it[3] if it[3] else "")
            out += ind + "<subcycle%s>\n%s%s</subcycle>\n" % (a, xml(it[2], ind + "  "), ind)
        else:
            out += ind + "<time_split>\n%s%s</time_split>\n" % (xml(it[1], ind + "  "), ind)
    return out


def suite_body(groups):
    # a part "@tag" is a suite-wide init or final scheme
    return "\n".join("  <%s>%s</%s>" % (g[1:], f[0][1], g[1:]) if g.startswith("@") else
                     '  <group name="%s">\n%s  </group>' % (g, xml(f)) for g, f in groups)


def flat(forest, loopvals, out=None):
    """Run-phase sequence of schemes."""
    out = [] if out is None else out
    for it in forest:
        if it[0] == "s":
            out.append(it[1])
        elif it[0] == "c":
            n = 1 if it[1] is None else (int(it[1]) if str(it[1]).isdigit() else loopvals[it[1]])
            for _ in range(n):
                flat(it[2], loopvals, out)
        else:
            flat(it[1], loopvals, out)
    return out


def scheme_order(groups):
    """Schemes in order of first appearance."""
    seen = []

    def walk(forest):
        for it in forest:
            if it[0] == "s":
                if it[1] not in seen:
                    seen.append(it[1])
            else:
                walk(it[2] if it[0] == "c" else it[1])
    for _, f in groups:
        walk(f)
    return seen


def expected(groups, profiles, phase, part, loopvals):
    if phase == "run":
        f = dict(groups)[part]
        return ["%s_run" % s for s in flat(f, loopvals) if "run" in profiles[s]]
    order = scheme_order([x for x in groups if not x[0].startswith("@")])
    for g, f in groups:
        if g.startswith("@"):
            s = f[0][1]
            if phase == "init" and g.startswith("@init"):
                order = [s] + [x for x in order if x != s]
            elif phase == "final" and g.startswith("@final"):
                order += [s] * (s not in order)
    return ["%s_%s" % (s, phase) for s in order if phase in profiles[s]]


def trace_scheme(n, phases):
    return Scheme(n, {p: (err_vars(), ["call tr('%s_%s', errmsg, errflg)" % (n, p)])
                      for p in phases}, uses=["mc_tr"])


HOSTVARS = [V("ncols", "horizontal_dimension", "integer", "", "count", protected="True"),
            V("pver", "vertical_layer_dimension", "integer", "", "count", protected="True"),
            V("nsub", LOOPVAR, "integer", "", "count")]

OPS = """    case('setn')
      read(line,*) op, nsub
"""


class Batch:
    """suites: list of (name, groups); profiles: scheme -> phases (in metadata order)."""

    def __init__(self, suites, profiles, tag="b", host="hst"):
        self.suites, self.profiles, self.host = suites, profiles, host
        used = set()
        for _, g in suites:
            used.update(scheme_order(g))
        self.case = Case(host=host, mods=[HostMod("hmod", HOSTVARS)],
                         schemes=[trace_scheme(s, profiles[s]) for s in sorted(used)],
                         suites=[(n, suite_xml(n, suite_body(g))) for n, g in suites])
        self.tag = tag

    def build(self):
        d = mc.newdir(self.tag)
        self.case.write(d)
        st, txt = self.case.generate()
        if st != "ok":
            return "generation " + st, txt
        ok, txt = self.case.compile(driver(self.host, uses="  use hmod, only: nsub", ops=OPS))
        if not ok:
            return "compile", txt
        return "ok", ""

    def run(self, script, timeout=120):
        rc, txt = self.case.execute("\n".join(script) + "\n", timeout)
        return rc, parse_out(txt)

    def close(self):
        mc.rmdir(self.case.dir)


def parse_out(txt):
    """[(command, [trace], errflg, msg)]"""
    res = []
    for ln in txt.splitlines():
        if ln.startswith("C "):
            res.append([ln[2:], [], None, None])
        elif not res:
            res.append(["", [ln], None, None])
        elif ln.startswith("T "):
            res[-1][1].append(ln[2:].strip())
        elif ln.startswith("R "):
            p = ln[2:].split(" ", 1)
            res[-1][2] = int(p[0])
            res[-1][3] = p[1].strip() if len(p) > 1 else ""
        else:
            res[-1][1].append("??" + ln)
    return res


def build_batches(suites, profiles, size=30, tag="b"):
    """Yield built batches; a batch that does not build is bisected and single failing suites are
    returned as (suite, status, text)."""
    bad, good = [], []

    def rec(part):
        b = Batch(part, profiles, tag)
        st, txt = b.build()
        if st == "ok":
            good.append(b)
            return
        b.close()
        if len(part) == 1:
            bad.append((part[0], st, txt))
            return
        h = len(part) // 2
        rec(part[:h])
        rec(part[h:])
    for c in mc.chunks(suites, size):
        rec(c)
    return good, bad
