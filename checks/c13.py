"""C13: cleaning removes the generated files and nothing else.

Explicit enumeration of histories of generator runs, clean runs and foreign files (also ones whose names imitate
generated files or stand where the tool's own files are expected) for both tools and several output layouts; after
every clean the whole directory tree is compared: everything the last run generated is gone, everything the tool
never generated is unchanged, and no path outside the scratch directory was touched (such calls are blocked and
recorded)."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
from cg import V, Scheme, HostMod, Case, err_vars, suite_xml

HOR = ("horizontal_loop_extent",)


def guarded(func, d, *args):
    """Run func in this (forked) process as an unprivileged user, with removals and writes outside d blocked and
    recorded."""
    rec = []
    top = os.path.realpath(d)

    def hook(ev, a):
        if ev in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn"):
            rec.append("external command: %s" % (a,))
            return
        if ev == "open":
            if not isinstance(a[0], (str, bytes)) or not a[2] & (os.O_WRONLY | os.O_RDWR):
                return
        elif ev not in ("os.remove", "os.rename", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.mkdir",
                        "shutil.rmtree", "os.chmod", "os.chown"):
            return
        n = 2 if ev in ("os.rename", "os.link", "os.symlink") else 1
        for x in a[:n]:
            if not isinstance(x, (str, bytes)):
                continue
            p = os.path.realpath(os.path.abspath(os.fsdecode(x)))
            if not p.startswith(top + os.sep) and not p.startswith("/dev/"):
                rec.append("%s %s" % (ev, p))
                raise PermissionError(13, "outside the scratch directory (blocked by the check)", p)
    if os.getuid() == 0:
        for root, dirs, files in os.walk(d):
            for x in [root] + [os.path.join(root, f) for f in files]:
                os.lchown(x, 65534, 65534)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    sys.addaudithook(hook)
    r = func(*args)
    return r, rec


def call(func, d, *args):
    try:
        (st, txt), rec = mc.forked(guarded, func, d, *args, timeout=100)
    except mc.Crash as e:
        st, txt, rec = "crash:died", str(e), []
    return st, txt, rec


def tree(d, skip=("log",)):
    r = {}
    for root, dirs, files in os.walk(d):
        for x in files:
            p = os.path.join(root, x)
            rel = os.path.relpath(p, d)
            if rel in skip:
                continue
            with open(p, "rb") as fh:
                r[rel] = fh.read()
        for x in dirs:
            if not os.listdir(os.path.join(root, x)):
                r[os.path.relpath(os.path.join(root, x), d) + "/"] = b""
    return r


# ---------------------------------------------------------------- the two tools
def schemes(names, bare=False):
    r = []
    for n in names:
        r.append(Scheme(n, {"init": (err_vars(), []),
                            "run": (err_vars() + [V("t", "temp", "real", "kind_phys", "K", HOR, "inout")], ["t = t + 1"])}))
    return r


class Capgen:
    name = "capgen"
    # layout: (output root, datatable argument, cwd of the clean run)
    layouts = {"abs": ("ABS/out", None, "."), "rel": ("out", None, "."), "deep": ("a b/c/out", None, "."),
               "dt": ("out", "ABS/tables/dt.xml", "."), "dtrel": ("out", "dt.xml", ".")}
    foreign = ["out/notes.txt", "out/ccpp_user_cap.F90", "out/ccpp_kinds.F90.orig", "out/sub/ccpp_s1_cap.F90",
               "out/ccpp_s1_cap.F90.bak", "ccpp_kinds.F90", "datatable.xml", "ccpp_datatable.xml",
               "hst_ccpp_cap.F90", "out/ccpp_s9_cap.F90", "out/x.meta"]

    def __init__(self, layout):
        self.layout = layout
        root, dt, self.cwd = self.layouts[layout]
        m = HostMod("hd", [V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                           V("temp", "temp", "real", "kind_phys", "K", ("horizontal_dimension",))])
        ss = [("s%d" % i, suite_xml("s%d" % i, "<group name='g'><scheme>sa</scheme></group>")) for i in (1, 2)]
        self.case = Case(mods=[m], schemes=schemes(["sa"]), suites=ss)
        self.root, self.dt = root, dt

    def write(self, d):
        self.case.write(d)
        self.d = d
        self.out = os.path.relpath(self.sub(self.root), d) if self.root.startswith("ABS") else self.root
        if self.dt and self.dt.startswith("ABS"):
            os.makedirs(os.path.dirname(self.sub(self.dt)), exist_ok=True)

    def sub(self, x):
        return x.replace("ABS", self.d)

    def args(self, v):
        a = self.case.args("out")
        a[a.index("--output-root") + 1] = self.sub(self.root)
        a[a.index("--suites") + 1] = "s1.xml" if v == 0 else "s1.xml,s2.xml" if v == 1 else "s2.xml"
        if self.dt:
            a += ["--ccpp-datafile", self.sub(self.dt)]
        return a

    def gen(self, v):
        return call(cg._capgen_child, self.d, self.d, self.args(v), os.path.join(self.d, "log"))

    def clean(self, v):
        return call(cg._capgen_child, self.d, self.d, self.args(v) + ["--clean"], os.path.join(self.d, "log"))


class Prebuild:
    name = "prebuild"
    layouts = {"one": ("build", "{build_dir}", "{build_dir}", ""), "ns": ("build", "{build_dir}", "{build_dir}", "ns1"),
               "split": ("build", "{build_dir}/caps", "{build_dir}/api", ""),
               "abs": ("ABS/build", "{build_dir}", "{build_dir}", ""),
               "space": ("my build", "{build_dir}/the caps", "{build_dir}", "x")}
    foreign = ["out/notes.txt", "out/ccpp_user_cap.F90", "out/ccpp_static_api_other.F90", "out/CCPP_CAPS.mk.orig",
               "out/ccpp_types.F90", "out/sub/ccpp_s1_cap.F90", "out/ccpp_s1_cap.F90.bak", "CCPP_CAPS.mk",
               "ccpp_static_api.F90", "out/CCPP_LOCAL.cmake", "build2/CCPP_CAPS.sh"]

    def __init__(self, layout):
        self.layout = layout
        b, caps, api, self.ns = self.layouts[layout]
        self.b = b
        m = HostMod("hd", [pb.CDATA, V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                           V("cs", "horizontal_loop_begin", "integer", "", "count"),
                           V("ce", "horizontal_loop_end", "integer", "", "count"),
                           V("cext", "ccpp_chunk_extent", "integer", "", "count"),
                           V("temp", "temp", "real", "kind_phys", "K", ("horizontal_dimension",))])
        self.case = pb.PCase([m], schemes(["sa"]), [(n, pb.sdf(n, [("g", [(1, ["sa"])])])) for n in ("s1", "s2")],
                             caps=caps, api=api)
        self.caps = caps

    def write(self, d):
        self.case.write(d)
        self.d = d
        self.out = self.b.replace("ABS/", "")
        os.makedirs(os.path.join(d, self.out), exist_ok=True)
        cd = os.path.join(d, self.caps.replace("{build_dir}", self.out))
        os.makedirs(cd, exist_ok=True)

    def args(self, v):
        a = ["--config=mcconfig.py", "--builddir=" + self.b.replace("ABS", self.d),
             "--suites=" + ("s1" if v == 0 else "s1,s2" if v == 1 else "s2")]
        return a + (["--namespace=" + self.ns] if self.ns else [])

    def gen(self, v):
        return call(pb._child, self.d, self.d, self.args(v), os.path.join(self.d, "log"))

    def clean(self, v):
        return call(pb._child, self.d, self.d, self.args(v) + ["--clean"], os.path.join(self.d, "log"))


TOOLS = {"capgen": Capgen, "prebuild": Prebuild}


def history(job):
    """Run one history; returns list of (step index, problem), number of runs."""
    tool, layout, hist = job
    cg.preload()
    pb.preload()
    d = mc.newdir("c13")
    probs, n = [], 0
    try:
        t = TOOLS[tool](layout)
        t.write(d)
        gen_ever, last, lastv = set(), None, None
        foreign = {}
        for i, step in enumerate(hist):
            if step[0] == "foreign":
                for f in (t.foreign if step[1] is None else [t.foreign[step[1]]]):
                    f = f.replace("out/", t.out + "/") if f.startswith("out/") else f
                    p = os.path.join(d, f)
                    if os.path.exists(p) or f in gen_ever:
                        continue
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as fh:
                        fh.write("! written by the user of %s\n%s\n%s\n" % (
                            f, os.path.join(d, "sa.F90"), os.path.join(t.out, "notes.txt")))
                    foreign[f] = 1
                continue
            if step[0] == "fakedt":
                # a foreign file where the datatable would stand (capgen): a list of paths
                p = os.path.join(d, t.out, "datatable.xml")
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.exists(p):
                    with open(p, "w") as fh:
                        fh.write({0: "sa.F90\n../sa.F90\n%s/sa.meta\n" % d,
                                  1: "<mytable><ccpp_files><host_files><file>%s/sa.F90</file></host_files></ccpp_files>"
                                     "</mytable>\n" % d}[step[1]])
                continue
            before = tree(d)
            n += 1
            if step[0] == "gen":
                st, txt, rec = t.gen(step[1])
                if st != "ok":
                    if not any(s[0] == "fakedt" for s in hist):
                        probs.append((i, "generation failed: %s %s" % (st, txt[-400:])))
                    break
                after = tree(d)
                new = {k for k in after if after[k] != before.get(k) and not k.endswith("/")}
                if last is None or not foreign:
                    gen_ever |= new
                else:
                    gen_ever |= {k for k in new if k not in foreign}
                for f in foreign:
                    if after.get(f) != before.get(f) and f not in gen_ever:
                        probs.append((i, "generation changed the foreign file %s" % f))
                last, lastv = FRESH.get((tool, layout, step[1])), step[1]
                if last is None:
                    last = new
            else:
                v = lastv if lastv is not None else 0
                st, txt, rec = t.clean(v)
                after = tree(d)
                if rec:
                    probs.append((i, "clean acted outside the directories of the run: %s" % rec[:3]))
                if last is not None:
                    if st != "ok":
                        probs.append((i, "clean failed: %s %s" % (st, txt[-400:])))
                    left = sorted(k for k in last if k in after)
                    if left:
                        probs.append((i, "clean left generated files: %s" % left))
                touched = sorted(k for k in before if k not in gen_ever and after.get(k) != before[k]
                                 and not k.endswith("/"))
                if touched:
                    probs.append((i, "clean removed or altered files the tool did not generate: %s" % touched))
                new = sorted(k for k in after if k not in before and not k.endswith("/"))
                if new:
                    probs.append((i, "clean created files: %s" % new))
                last = None
            if probs:
                break
    finally:
        mc.rmdir(d)
    return probs, n


FRESH = {}


def fresh(job):
    tool, layout, v = job
    cg.preload()
    pb.preload()
    d = mc.newdir("c13f")
    try:
        t = TOOLS[tool](layout)
        t.write(d)
        before = tree(d)
        st, txt, rec = t.gen(v)
        after = tree(d)
        if st != "ok":
            return "generation failed: %s %s" % (st, txt[-800:])
        return sorted(k for k in after if after[k] != before.get(k) and not k.endswith("/"))
    finally:
        mc.rmdir(d)


def label(h):
    return " > ".join(" ".join(str(x) for x in s) for s in h)


def main():
    ck = mc.Check("C13", "exploration")
    os.chmod(mc.scratch(), 0o711)
    q = ck.quick
    fj = [(t, l, v) for t in TOOLS for l in TOOLS[t].layouts for v in (0, 1, 2)]
    for j, r in zip(fj, mc.pmap(fresh, fj)):
        if isinstance(r, str):
            ck.violation("%s layout %s version %d" % j, r)
        else:
            FRESH[j] = set(r)
    steps = [("gen", 0), ("gen", 1), ("clean",), ("foreign", None)]
    jobs = []
    for t in TOOLS:
        for l in TOOLS[t].layouts:
            for k in range(1, 4 if q else 6):
                for h in itertools.product(steps, repeat=k):
                    if h[-1] != ("clean",):
                        continue
                    jobs.append((t, l, h))
            for i in range(len(TOOLS[t].foreign)):
                jobs.append((t, l, (("foreign", i), ("gen", 1), ("clean",))))
                jobs.append((t, l, (("gen", 2), ("foreign", i), ("clean",), ("clean",))))
            jobs.append((t, l, (("gen", 1), ("gen", 0), ("clean",), ("gen", 1), ("clean",))))
            jobs.append((t, l, (("gen", 1), ("foreign", None), ("gen", 2), ("clean",), ("gen", 0), ("clean",))))
        if t == "capgen":
            for l in ("abs", "rel", "deep"):
                for k in (0, 1):
                    jobs.append((t, l, (("fakedt", k), ("clean",))))
                    jobs.append((t, l, (("fakedt", k), ("foreign", None), ("clean",), ("clean",))))
                    jobs.append((t, l, (("gen", 0), ("clean",), ("fakedt", k), ("clean",))))
    jobs = list(dict.fromkeys(jobs))
    runs = 0
    for (t, l, h), (probs, n) in zip(jobs, mc.pmap(history, jobs)):
        runs += n
        ck.outcome(t)
        for i, p in probs:
            ck.violation("%s layout %s: %s" % (t, l, label(h[:i + 1])), p)
    ck.sample("prebuild layout split: gen 1 > foreign > clean")
    ck.finish(evaluations=len(jobs), distinct_nontrivial=len(jobs), tool_runs=runs, exhaustive=True,
              rule="histories over {gen s1, gen s1+s2, foreign files, clean} ending in clean up to length %d for every "
                   "tool and output layout, plus every single foreign file before and after generation" % (3 if q else 5))


main()
