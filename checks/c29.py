#!/opt/venv/bin/python
"""C29: the variable tracker lists exactly the entry points that use a variable.

Exhaustive enumeration of (what each entry point declares) x (suite layout) x (metadata file layout) x (variable
asked for); every configuration is written out and run through ccpp_track_variables' command-line interface in a
forked child; the printed listing is compared with one computed directly from the configuration."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V

Q = "air_temp"
# what an entry point declares: list of (standard name, intent)
DECL = [
    [],
    [("air_temp_of_ground", "in")],
    [(Q, "in")],
    [("air_temp_of_ground", "out"), (Q, "inout")],
    [(Q, "out"), ("max_air_temp", "in"), ("other_thing", "in")],
    [("surface_air_temp", "inout"), ("air_temp_two", "in"), ("air_tem", "in")],
]
# suite layouts: list of (group, [(loop, [schemes])])
SUITES = [
    [("g1", [(1, "A B")])],
    [("g1", [(1, "B A")])],
    [("g2", [(1, "A")]), ("g1", [(1, "B")])],
    [("g1", [(2, "A B")])],
    [("g1", [(1, "A"), (3, "B"), (1, "A")])],
    [("g1", [(2, "A"), (1, "B")]), ("g2", [(1, "B B")])],
    [("g1", [(1, "B")])],
    [("g1", [(1, "A")]), ("g2", [(1, "A")]), ("g3", [(1, "B A B")])],
]
LAYOUTS = ["own", "one", "ddt", "unused"]


class Case:
    def __init__(self, decls, suite, layout, ask=Q, query_has=None):
        # {(scheme, phase): [(std, intent)]} in file order
        self.own = decls
        self.decls = {k: d + [("ccpp_error_message", "out"), ("ccpp_error_code", "out")] for k, d in decls.items()}
        self.suite, self.layout, self.ask = suite, layout, ask
        self.label = "%s|%s|%s|%s" % (
            ";".join("%s_%s:%s" % (s, p, ",".join("%s/%s" % x for x in d)) for (s, p), d in decls.items()),
            ";".join("%s:%s" % (g, "+".join("%dx(%s)" % x for x in subs)) for g, subs in suite), layout, ask)

    def expected(self):
        groups = []
        for g, subs in self.suite:
            runs = []
            for loop, names in subs:
                for _ in range(loop):
                    for s in names.split():
                        runs.append(sorted((sc.lower() + "_" + ph, i) for (sc, ph), d in self.decls.items() if sc == s
                                           for std, i in d if std.lower() == self.ask.lower()))
            runs = [r for r in runs if r]
            if runs:
                groups.append((g, runs))
        if groups:
            return groups, None
        used = set(" ".join(n for _, subs in self.suite for _, n in subs).split())
        part = {}
        for (sc, ph), d in self.decls.items():
            m = sorted(std for std, i in d if self.ask in std)
            if sc in used and m:
                part[sc.lower() + "_" + ph] = m
        return [], part

    def write(self, d):
        def w(fn, t):
            with open(os.path.join(d, fn), "w") as f:
                f.write(t)
        metas = {}
        for s in "ABC":
            ph = [(p, dd) for (sc, p), dd in self.own.items() if sc == s]
            if not ph:
                continue
            sch = cg.Scheme(s.lower(), {p: ([V("v%d" % k, std, intent=i) for k, (std, i) in enumerate(dd)] +
                                            cg.err_vars(), []) for p, dd in ph},
                            ddts=[("ty_" + s.lower(), [V("q", "air_temp_member_" + s.lower())])]
                            if self.layout == "ddt" else ())
            metas[s] = sch.meta()
        if self.layout == "unused":
            metas["U"] = cg.Scheme("u", {"run": ([V("v", self.ask, intent="in"), V("w", self.ask + "_x", intent="in")] +
                                                 cg.err_vars(), [])}).meta()
        if self.layout == "one":
            w("all.meta", "\n".join(metas[s] for s in sorted(metas, reverse=True)))
        else:
            for s, t in metas.items():
                w("m_%s.meta" % s.lower(), t)
        w("suite_st.xml", pb.sdf("st", [(g, [(str(l), n.lower().split()) for l, n in subs]) for g, subs in self.suite]))
        hm = cg.HostMod("hostm", [V("host_t", "host_" + self.ask)])
        os.makedirs(os.path.join(d, "h"), exist_ok=True)
        w("h/hostm.F90", hm.fortran().replace("\\htmlinclude arg_table_", "\\htmlinclude "))
        w("h/hostm.meta", hm.meta())
        w("cfg.py", "HOST_MODEL_IDENTIFIER = 'MC'\n" + pb.CONFIG.split("\n", 1)[1] % dict(
            vardefs=["h/hostm.F90"], typedefs={"hostm": {"hostm": ""}}, schemes=[], caps=".", api=".", suites="."))

    def run(self):
        d = mc.newdir("c29")
        self.write(d)
        st, txt = mc.forked(child, d, ["-s", "suite_st.xml", "-m", ".", "-c", "cfg.py", "-v", self.ask], timeout=60)
        mc.rmdir(d)
        return st, txt


def child(d, args):
    import runpy
    os.chdir(d)
    out = os.path.join(d, "out.txt")
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(os.open(out + "2", os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 2)
    sys.argv = ["ccpp_track_variables.py"] + args
    st = "ok"
    try:
        runpy.run_path(os.path.join(mc.REPO, "scripts", "ccpp_track_variables.py"), run_name="__main__")
    except SystemExit as e:
        st = "ok" if e.code in (0, None) else "exit"
    except BaseException as e:  # noqa
        st = "error %s: %s" % (type(e).__name__, str(e)[:300])
    sys.stdout.flush()
    return st, open(out).read(), open(out + "2").read()


def parse(txt):
    """printed listing -> (list of (group, [(entry, intent)]) , {entry: [names]})"""
    groups, part = [], {}
    for line in txt.split("\n"):
        m = re.match(r"In group (\S+)\s*$", line)
        if m:
            groups.append((m.group(1), []))
            continue
        m = re.match(r"\s+(\S+) \(intent (\S*)\)\s*$", line)
        if m and groups:
            groups[-1][1].append((m.group(1), m.group(2)))
            continue
        m = re.match(r"In (\S+) found variable\(s\) (.*)$", line)
        if m:
            part.setdefault(m.group(1), []).extend(re.findall(r"[A-Za-z_]\w*", m.group(2)))
    return groups, part


def judge(c, st, out, err):
    if st != "ok":
        return "the tool fails: %s" % st
    groups, part = parse(out)
    want, wpart = c.expected()
    if want:
        if "not found" in out + err:
            return "reported as not found, although used: %s" % want
        if part:
            return "partial matches offered although the variable is used: %s" % part
        if [g for g, _ in groups] != [g for g, _ in want]:
            return "groups listed %s, expected %s" % ([g for g, _ in groups], [g for g, _ in want])
        for (g, got), (_, runs) in zip(groups, want):
            pos = 0
            for r in runs:
                if sorted(got[pos:pos + len(r)]) != r:
                    return "group %s lists %s, expected in this order %s" % (g, got, runs)
                pos += len(r)
            if pos != len(got):
                return "group %s lists %s, expected %s" % (g, got, runs)
        return None
    if groups:
        return "entry points listed although none uses the variable: %s" % groups
    if "not found" not in out + err:
        return "nothing is said although no entry point uses the variable"
    part = {k: sorted(v) for k, v in part.items()}
    if part != wpart:
        return "partial matches %s, expected %s" % (part, wpart)
    return None


def space(deep):
    res = []
    for a1, a2, b in itertools.product(range(6), repeat=3):
        for si, s in enumerate(SUITES):
            if not deep and (a1 + a2 + b + si) % 4:
                # quick keeps a covering quarter of the product
                continue
            for lay in (LAYOUTS if deep else LAYOUTS[(a1 + a2 + 3 * b + si // 4) % 4:][:1]):
                res.append(Case({("A", "init"): DECL[a1], ("A", "run"): DECL[a2], ("B", "run"): DECL[b]}, s, lay))
    # every entry-point kind
    for ph, d, s in itertools.product(pb.STAGES, range(1, 6), (SUITES[0], SUITES[5])):
        res.append(Case({("A", ph): DECL[d], ("B", "run"): []}, s, "own"))
    full = {("A", p): DECL[1 + k] for k, p in enumerate(pb.STAGES)}
    for s, lay in itertools.product(SUITES, LAYOUTS):
        res.append(Case(dict(full, **{}), [(g, [(l, n.replace("B", "A")) for l, n in subs]) for g, subs in s], lay))
    # questions other than the declared name: substrings, superstrings, unrelated
    base = {("A", "init"): DECL[3], ("A", "run"): DECL[4], ("B", "run"): DECL[5], ("B", "finalize"): DECL[1]}
    for ask in ("air", "air_temp", "air_temp_of_ground", "surface", "temp", "air_temp_t", "nothing_like_it", "air_tem",
                "max_air_temp", "other_thing", "a", "ccpp_error_code", "error_code"):
        for s, lay in itertools.product(SUITES, LAYOUTS if ask != "air_temp" else LAYOUTS[:1]):
            res.append(Case(base, s, lay, ask))
    # names that contain one another, entry points sharing a prefix
    return res


CASES = []


def go(ks):
    return [CASES[k].run_safe() for k in ks]


def run_safe(self):
    try:
        d = mc.newdir("c29")
        self.write(d)
        r = mc.forked(child, d, ["-s", "suite_st.xml", "-m", ".", "-c", "cfg.py", "-v", self.ask], timeout=60)
        mc.rmdir(d)
        return r
    except mc.Crash as e:
        return "error " + str(e)[-300:], "", ""


Case.run_safe = run_safe
del Case.run


def main():
    ck = mc.Check("C29", "exploration")
    pb.preload()
    CASES.extend(space(not ck.quick))
    jobs = list(mc.chunks(list(range(len(CASES))), 16))
    n = 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s" % CASES[job[0]].label, "the tool could not be run: %s" % res)
            continue
        for k, (st, out, err) in zip(job, res):
            n += 1
            c = CASES[k]
            ck.outcome("listed" if c.expected()[0] else "partial" if c.expected()[1] else "nothing")
            why = judge(c, st, out, err)
            if why:
                ck.violation(c.label, why)
    ck.sample(CASES[len(CASES) // 2].label)
    ck.finish(evaluations=n, distinct_nontrivial=len({c.label for c in CASES}), exhaustive=True)


if __name__ == "__main__":
    main()
