#!/opt/venv/bin/python
"""C28: prebuild's caps and build lists are complete, and current after every history.

Model: the state is (content of the build directory, version of the inputs); the operations are "run prebuild on
input version v", the same run cut off or failing at every file operation below the build directory, and damage to a
single generated file.  Every history up to the stated depth is executed with the real tool and must end, after a
complete run on version v, with every file a fresh run of v writes, byte for byte; a list whose content is unchanged
must keep its time stamp.  The lists of every version are also compared with sets computed from the configuration."""
import itertools
import os
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V

LISTS = ["CCPP_%s.%s" % (k, e) for k in ("TYPEDEFS", "SCHEMES", "CAPS") for e in ("mk", "cmake", "sh")]
OLD = 10**18                                     # the time stamp given to restored files, in ns

XML = [
    [("sa", [("g1", [(1, ["s1"])])])],
    [("sa", [("g1", [(1, ["s1", "s2"])])])],
    [("sa", [("g1", [(1, ["s2", "s1"])]), ("g2", [(1, ["s2"])])])],
    [("sa", [("g2", [(2, ["s1"])])])],
    [("sa", [("g1", [(1, ["s1"])])]), ("sb", [("g1", [(1, ["s2"])])])],
    [("sb", [("g1", [(1, ["s2", "s3"])]), ("g3", [(1, ["s1"])])])],
]
DEPS = [{}, {"s1": ("", "d1.F90")}, {"s1": ("", "d1.F90, d2.f"), "s2": ("", "d1.F90")},
        {"s1": ("sub", "d3.F,d4.f90"), "s3": ("sub", "d4.f90")}, {"hostd": ("sub", "d4.f90"), "s1": ("", "d5.F90")}]
BAD = "bad"


class Ver:
    """One version of the inputs."""

    def __init__(self, xml=0, deps=0, units=0, types=1, bad="", caps="{build_dir}", order=0, where=0):
        self.xml, self.deps, self.units, self.types, self.bad = xml, deps, units, types, bad
        self.caps, self.order, self.where = caps, order, where
        self.label = "x%dd%du%dt%d%s%s%s%s" % (xml, deps, units, types, bad and "!" + bad, "" if caps == "{build_dir}"
                                               else "c", "o" * order, "w" * where)

    def suites(self):
        return XML[self.xml]

    def write(self, d):
        build = os.path.join(d, "build")
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if p != build and not f.endswith(".log"):
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        mods = [cg.HostMod("hm", [
            pb.CDATA, V("ncols", "horizontal_loop_extent", "integer", "", "count"),
            V("ncolt", "horizontal_dimension", "integer", "", "count"), 
            V("q", "mc_quantity", units="K", dims=["horizontal_dimension"])])]
        td = {"ccpp_types": {"ccpp_t": "cdata", "ccpp_types": ""}}
        if self.types:
            mods += [cg.HostMod("ty", [V("the_t", "the_t", "the_t", "", "DDT")] if self.types == 1 else [
                V("the_t", "the_t", "the_t", "", "DDT"), V("kind_mine", "kind_mine", "integer", "", "none", fattr="parameter")],
                ddts=[("the_t", [V("w", "mc_inner")])])]
            td["ty"] = {"ty": "", "the_t": "thing"}
        td.setdefault("hm", {"hm": ""})
        un = ["K", "C"][self.units]
        if self.bad == "units":
            un = "kg"
        schemes = [cg.Scheme("s1", {"run": ([V("x", "mc_quantity", units=un, dims=["horizontal_loop_extent"], intent="inout")] + cg.err_vars(), [])}),
                   cg.Scheme("s2", {"init": (cg.err_vars(), []), "run": (cg.err_vars(), [])}),
                   cg.Scheme("s3", {"run": (cg.err_vars(), []), "finalize": (cg.err_vars(), [])}),
                   cg.Scheme("s4", {"run": (cg.err_vars(), [])})]
        suites = [(n, pb.sdf(n, [(g, [(str(l), s) for l, s in subs]) for g, subs in gs])) for n, gs in self.suites()]
        c = pb.PCase(mods, schemes, suites, td, caps=self.caps)
        c.write(d)

        def sub(fn, a, b):
            t = open(os.path.join(d, fn)).read()
            assert a in t, (fn, a)
            open(os.path.join(d, fn), "w").write(t.replace(a, b, 1))
        for s, (path, dep) in DEPS[self.deps].items():
            fn, tab = ("hm.meta", "hm") if s == "hostd" else (s + ".meta", s)
            sub(fn, "  name = %s\n" % tab, "  name = %s\n%s  dependencies = %s\n" % (
                tab, "  %s = %s\n" % ("relative_path", path) if path else "", dep))
        for x in ("d1.F90", "d2.f", "sub/d3.F", "sub/d4.f90", "d5.F90"):
            for base in ("", "schemes/deep/"):
                p = os.path.join(d, base + x)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").close()
        if self.bad == "scheme":
            sub(self.suites()[0][0] + ".xml", "<scheme>", "<scheme>no_such_")
        if self.bad == "xml":
            sub(self.suites()[0][0] + ".xml", "</suite>", "")
        if self.where:
            for s in ("s1", "s2"):
                for e in (".F90", ".meta"):
                    os.rename(os.path.join(d, s + e), os.path.join(d, "schemes", "deep", s + e))
            sub("mcconfig.py", "'s1.F90', 's2.F90'", "'schemes/deep/s1.F90', './schemes/deep/s2.F90'")
        if self.order:
            sub("mcconfig.py", "'s4.F90']", "'s4.F90'][::-1]")
        self.dir = d

    def run(self, d, fault=None):
        """run prebuild on this version (already written to d); -> (status, text, file operations)"""
        names = [n for n, _ in self.suites()]
        args = ["--config=mcconfig.py", "--builddir=build", "--suites=" + ",".join(names)]
        os.makedirs(os.path.join(d, self.caps.format(build_dir="build")), exist_ok=True)
        pb.preload()
        ops = os.path.join(d, "ops.log")
        try:
            st, txt = mc.forked(hooked, d, args, fault, ops, timeout=60)
        except mc.Crash as e:
            st, txt = "died", str(e)
        return st, txt, open(ops).read().splitlines() if os.path.exists(ops) else []

    def used(self):
        return sorted({s for _, gs in self.suites() for _, subs in gs for _, ss in subs for s in ss})

    def expected(self, d):
        """file sets the lists must name"""
        path = {s: "schemes/deep/" + s if self.where and s in ("s1", "s2") else s for s in ("s1", "s2", "s3")}
        src = [os.path.join(d, path[s] + ".F90") for s in self.used()]
        src += [os.path.join(d, x) for x in ("ccpp_kinds.F90", "hm.F90")] + [os.path.join(mc.REPO, "src", "ccpp_types.F90")]
        if self.types:
            src.append(os.path.join(d, "ty.F90"))
        for s, (p, dep) in DEPS[self.deps].items():
            if s in self.used() or s == "hostd":
                base = os.path.dirname(path.get(s, s))
                src += [os.path.normpath(os.path.join(d, base, p, x.strip())) for x in dep.split(",")]
        cdir = os.path.normpath(os.path.join(d, self.caps.format(build_dir="build")))
        caps = []
        for n, gs in self.suites():
            caps.append(os.path.join(cdir, "ccpp_%s_cap.F90" % n))
            caps += [os.path.join(cdir, "ccpp_%s_%s_cap.F90" % (n, g)) for g, _ in gs]
        types = {"ccpp_types.mod", "ccpp_kinds.mod"}
        if self.types:
            types.add("ty.mod")
        return {"SCHEMES": set(src), "CAPS": set(caps), "TYPEDEFS": types}


def hooked(d, args, fault, opsfile):
    """In the forked child: count file operations below the build directory and act at the chosen one."""
    o = os.path.join(d, "build")
    st = {"n": 0, "on": True}
    fd = os.open(opsfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)

    def hook(ev, a):
        if not st["on"] or ev not in ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate",
                                      "os.link", "os.symlink"):
            return
        if ev == "open":
            if not isinstance(a[0], (str, bytes)) or not a[2] & (os.O_WRONLY | os.O_RDWR):
                return
        st["on"] = False
        try:
            ps = [os.path.abspath(os.fsdecode(x)) for x in a[:2 if ev in ("os.rename", "os.link") else 1]
                  if isinstance(x, (str, bytes))]
            if not any(p == o or p.startswith(o + os.sep) for p in ps):
                return
            st["n"] += 1
            os.write(fd, ("%s %s\n" % (ev, os.path.relpath(ps[-1], o))).encode())
            if fault and fault[1] == st["n"]:
                if fault[0] == "error":
                    raise OSError(28, "No space left on device (injected)")
                if fault[0] in ("empty", "half") and ev == "open":
                    ref = fault[2].get(re.sub(r"\.(tmp|test)$", "", os.path.relpath(ps[0], o)), b"")
                    with open(ps[0], "wb") as fh:
                        fh.write(b"" if fault[0] == "empty" else ref[:len(ref) // 2])
                os._exit(77)
        finally:
            st["on"] = True
    sys.addaudithook(hook)
    return pb._child(d, args, os.path.join(d, "prebuild.log"))


def snap(d):
    r = {}
    b = os.path.join(d, "build")
    for dp, _, fs in os.walk(b):
        for f in fs:
            p = os.path.join(dp, f)
            r[os.path.relpath(p, b)] = (open(p, "rb").read().replace(d.encode() + b"/", b"@D@/"), os.stat(p).st_mtime_ns)
    return r


def restore(d, content):
    b = os.path.join(d, "build")
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b)
    for f, t in content.items():
        p = os.path.join(b, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(t.replace(b"@D@/", d.encode() + b"/"))
        os.utime(p, ns=(OLD, OLD))


def names(fn, txt):
    """the files a list names"""
    t = "\n".join(l for l in txt.split("\n") if not l.lstrip().startswith("#"))
    if fn.endswith(".cmake"):
        return {w for m in re.findall(r"set\(\w+\s([^)]*)\)", t) for w in m.split()}
    if fn.endswith(".sh"):
        return {w for m in re.findall(r'="([^"]*)"', t) for w in re.split(r"[;\s]+", m) if w}
    t = t.replace("\\\n", " ")
    r = set()
    for line in t.split("\n"):
        if "=" in line:
            lhs, rhs = line.split("=", 1)
            ext = lhs.strip().split("_")[-1] if lhs.strip().startswith("SCHEMES") else None
            for w in rhs.split():
                r.add(w)
                if ext and not w.endswith("." + ext):
                    r.add("%s listed as %s" % (w, lhs.strip()))
        elif line.strip():
            r.add("stray line " + line)
    return r


def differs(got, want):
    for k in sorted(want):
        if k not in got:
            return "%s is missing" % k
        if got[k] != want[k]:
            a, b = got[k].decode(errors="replace").splitlines(), want[k].decode().splitlines()
            for i in range(max(len(a), len(b))):
                x, y = (a[i] if i < len(a) else "<end>"), (b[i] if i < len(b) else "<end>")
                if x != y:
                    return "%s line %d: '%s' instead of '%s'" % (k, i + 1, x.strip()[:90], y.strip()[:90])
            return "%s differs" % k
    return None


VERS, FRESH = [], {}


def fresh(k):
    """fresh run of version k -> (status text or None, content, op lines, list problem)"""
    d = mc.newdir("c28")
    v = VERS[k]
    v.write(d)
    st, txt, ops = v.run(d)
    got = {f: t for f, (t, _) in snap(d).items()}
    why = None
    if not v.bad:
        if st != "ok":
            why = "prebuild fails on version %s: %s %s" % (v.label, st, txt[:700])
        else:
            want = v.expected(d)
            for fn in LISTS:
                if fn not in got:
                    why = why or "%s is not written" % fn
                    continue
                w = want[fn.split("_")[1].split(".")[0]]
                n = {x.replace("@D@/", d + "/") for x in names(fn, got[fn].decode())}
                if n != w:
                    why = why or "%s names too few %s, too many %s" % (fn, sorted(w - n), sorted(n - w))
            for c in want["CAPS"]:
                rel = os.path.relpath(c, os.path.join(d, "build"))
                if not rel.startswith("..") and rel not in got:
                    why = why or "cap %s is listed but not written" % rel
            for g in got:
                if g.endswith("_cap.F90") and os.path.join(d, "build", g) not in want["CAPS"]:
                    why = why or "unexpected cap %s" % g
    mc.rmdir(d)
    return st, got, len(ops), why


def hist(job):
    """job = (start version or None, [(op, ...)]) -> list of problems per final run"""
    start, opss = job
    out = []
    for ops in opss:
        d = mc.newdir("c28")
        try:
            if start is not None:
                restore(d, FRESH[start][1])
            else:
                os.makedirs(os.path.join(d, "build"))
            why = None
            for op in ops:
                if op[0] == "damage":
                    p = os.path.join(d, "build", op[2])
                    if op[1] == "delete":
                        os.remove(p)
                    else:
                        t = open(p, "rb").read()
                        t = {"empty": b"", "half": t[:len(t) // 2], "more": t + b"\n! more\n"}.get(op[1], t)
                        if op[1] in ("tmp", "test"):
                            p, t = p + "." + op[1], b"left over\n"
                        with open(p, "wb") as fh:
                            fh.write(t)
                        os.utime(p, ns=(OLD, OLD))
                    continue
                v = VERS[op[1]]
                v.write(d)
                if op[0] == "fault":
                    f = op[2]
                    if f[0] == "half":
                        f = f + ({k: t.replace(b"@D@/", d.encode() + b"/") for k, t in FRESH[op[1]][1].items()},)
                    else:
                        f = f + ({},)
                    v.run(d, f)
                    continue
                before = snap(d)
                for f in before:
                    os.utime(os.path.join(d, "build", f), ns=(OLD, OLD))
                st, txt, _ = v.run(d)
                if v.bad:
                    continue
                if st != "ok":
                    why = "prebuild fails: %s %s" % (st, txt[:700])
                    break
                after = snap(d)
                why = differs({f: t for f, (t, _) in after.items()}, FRESH[op[1]][1])
                if why:
                    why = "after the run on %s: %s" % (v.label, why)
                    break
                for f in LISTS:
                    if f in before and before[f][0] == after[f][0] and after[f][1] != OLD:
                        why = "%s has the same content as before and is written all the same" % f
                if why:
                    break
            out.append(why)
        except Exception as e:  # noqa
            out.append("harness: %r" % e)
        mc.rmdir(d)
    return out


def name(start, ops):
    r = ["empty" if start is None else VERS[start].label]
    for op in ops:
        r.append("%s %s" % (op[1], op[2]) if op[0] == "damage" else
                 VERS[op[1]].label + ("" if op[0] == "run" else " cut by %s@%d" % op[2]))
    return " > ".join(r)


def main():
    ck = mc.Check("C28", "model_checking")
    pb.preload()
    deep = not ck.quick
    # versions
    base = [Ver(x, dp, 0, t) for x in range(len(XML)) for dp in range(len(DEPS)) for t in (1,)]
    base += [Ver(x, dp, 0, t) for x in (0, 1) for dp in (0, 3) for t in (0, 2)]
    base += [Ver(x, dp, 1, 1) for x in (0, 2, 5) for dp in (0, 2)] + [Ver(0, 1, 0, 1, caps="{build_dir}/caps")]
    base += [Ver(2, 2, 0, 1, order=1), Ver(4, 1, 0, 1, order=1), Ver(2, 3, 0, 1, where=1), Ver(5, 4, 0, 1, where=1), Ver(2, 2, 0, 1, where=1, order=1)]
    bad = [Ver(x, dp, 0, 1, b) for b in ("scheme", "units", "xml") for x, dp in ((0, 0), (2, 2))]
    VERS.extend(base + bad)
    nb = len(base)
    res = mc.pmap(fresh, list(range(len(VERS))))
    for k, r in enumerate(res):
        if isinstance(r, mc.Crash):
            ck.violation("machinery " + VERS[k].label, "prebuild could not be run: %s" % r)
            FRESH[k] = ("died", {}, 0, None)
            continue
        FRESH[k] = r
        ck.outcome("list contents")
        if r[3]:
            ck.violation("lists of " + VERS[k].label, r[3])
    jobs = []
    # all pairs of versions (quick: all pairs among the versions a single edit apart, and a fixed set of others)
    def near(a, b):
        return sum(getattr(a, x) != getattr(b, x) for x in ("xml", "deps", "units", "types", "caps", "order", "where")) <= 1
    pairs = [(a, b) for a in range(nb) for b in range(nb) if deep or near(VERS[a], VERS[b]) and (a + b) % 2 == 0 or a == b]
    for a, b in pairs:
        jobs.append((a, (("run", b), ("run", b)) if deep else (("run", b),)))
    ck.outcome("pairs", len(pairs))
    # triples through a failing run, or through another version
    for a in (0, 7, 12, 22) if deep else (0, 12):
        for x in range(nb, len(VERS)):
            for b in (0, 12, 21, 7) if deep else (12,):
                jobs.append((a, (("run", x), ("run", b))))
    if deep:
        some = [0, 2, 8, 12, 18, 24, 27, 33, 36, 40, 45]
        for a, b, c in itertools.product([s for s in some if s < nb], repeat=3):
            jobs.append((a, (("run", b), ("run", c))))
    n3 = len(jobs)
    # interruption at every file operation
    cuts = [(None, 12), (0, 12), (12, 0), (12, 5), (5, 23)] if deep else [(None, 2), (0, 12)]
    for a, b in cuts:
        for kind in ("before", "empty", "half", "error"):
            for n in range(1, (FRESH[b][2] if a is None else FRESH[b][2] + 30) + 1):
                f = ("fault", b, (kind, n))
                jobs.append((a, (f, ("run", b))))
                if deep and a is not None:
                    jobs.append((a, (f, ("run", a))))
                    jobs.append((a, (f, ("fault", b, ("before", n + 3)), ("run", b))))
    # damage to one generated file
    for a in (0, 12, 22) if deep else (12,):
        for fn in sorted(FRESH[a][1]):
            for kind in ("delete", "empty", "half", "more", "tmp", "test"):
                jobs.append((a, (("damage", kind, fn), ("run", a))))
                if deep:
                    jobs.append((a, (("damage", kind, fn), ("run", (a + 5) % nb))))
    groups = {}
    for a, ops in jobs:
        groups.setdefault(a, []).append(ops)
    work = [(a, part) for a, ops in groups.items() for part in mc.chunks(ops, 6)]
    n = nt = 0
    for (a, opss), res in zip(work, mc.pmap(hist, work)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery " + name(a, opss[0]), str(res))
            continue
        for ops, why in zip(opss, res):
            n += 1
            nt += len(ops)
            ck.outcome({"run": "versions", "fault": "interrupted", "damage": "damaged"}[ops[0][0]])
            if why:
                ck.violation(name(a, ops), why)
    ck.sample(name(*jobs[len(jobs) // 2]))
    ck.finish(states=len(VERS) + n, transitions=nt, traces_validated_against_impl=n, versions=len(VERS), exhaustive=True)


if __name__ == "__main__":
    main()
