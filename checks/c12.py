"""C12: regeneration leaves exactly the output of a fresh generation.

Explicit-state exploration: a state is the content of the output directory.  From every state reached, the
real generator is run with several versions of the inputs (with and without forced overwriting), interrupted
before every file operation it performs (also with the file being written left empty or half written), made
to fail by an I/O error at every file operation, and generated files are damaged or removed; after every run
that reports success each generated file must equal the one a run into an empty directory gives, and
unchanged Fortran files must not have been touched."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
from cg import V, Scheme, HostMod, Case, err_vars, suite_xml

HOR = ("horizontal_loop_extent",)


def case(v):
    """Input versions: 0 base, 1 the suite calls the scheme twice and the units differ, 2 a second suite,
    3 another kind, 9 a suite with an unknown scheme."""
    s = Scheme("sa", {"init": (err_vars(), ["call tr('sai',errmsg,errflg)"]),
                      "run": (err_vars() + [V("t", "temp", "real", "kind_phys", "C" if v == 1 else "K", HOR, "inout")],
                              ["call tr('sa',errmsg,errflg)"])}, uses=["mc_tr"])
    m = HostMod("hd", [V("ncols", "horizontal_dimension", "integer", "", "count", fattr="parameter"),
                       V("temp", "temp", "real", "kind_phys", "K", ("horizontal_dimension",))])
    b = "<group name='g'>" + "<scheme>sa</scheme>" * (2 if v == 1 else 1) + "</group>"
    if v == 9:
        b = "<group name='g'><scheme>sa</scheme><scheme>nosuch</scheme></group>"
    suites = [("s1", suite_xml("s1", b))]
    if v == 2:
        suites.append(("s2", suite_xml("s2", "<group name='h'><scheme>sa</scheme></group>")))
    return Case(mods=[m], schemes=[s], suites=suites, kinds=("kind_phys=REAL%d" % (32 if v == 3 else 64),))


VERS = (0, 1, 2, 3)
_W = {}


def workdir():
    """Per process: a directory with every input version and the fresh output of each."""
    if _W.get("pid") != os.getpid():
        d = mc.newdir("c12")
        _W.clear()
        _W.update(pid=os.getpid(), d=d, cases={}, fresh={})
        for v in VERS + (9,):
            c = case(v)
            c.write(os.path.join(d, "in%d" % v))
            _W["cases"][v] = c
            if v != 9:
                mc.rmdir(os.path.join(d, "out"))
                st, txt, _ = generate(v, False, None)
                if st != "ok":
                    _W.clear()
                    raise RuntimeError("fresh generation of version %d: %s %s" % (v, st, txt[:500]))
                _W["fresh"][v] = snapshot()
    return _W


def snapshot():
    """Output directory as {relative path: content}, machine paths normalised; None if it is absent."""
    d = _W["d"]
    o = os.path.join(d, "out")
    if not os.path.isdir(o):
        return None
    r = {}
    for root, dirs, files in os.walk(o):
        rel = os.path.relpath(root, o)
        if not dirs and not files and rel != ".":
            r[rel + "/"] = ""
        for x in files:
            with open(os.path.join(root, x), "rb") as fh:
                r[os.path.normpath(os.path.join(rel, x))] = fh.read().replace(d.encode(), b"@D@")
    return r


def materialise(state):
    d = _W["d"]
    o = os.path.join(d, "out")
    mc.rmdir(o)
    if state is None:
        return {}
    os.makedirs(o)
    sig = {}
    for x, txt in state.items():
        p = os.path.join(o, x)
        if x.endswith("/"):
            os.makedirs(p)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(txt.replace(b"@D@", d.encode()))
        os.utime(p, ns=(10 ** 18, 10 ** 18))
        s = os.stat(p)
        sig[x] = (s.st_ino, s.st_mtime_ns)
    return sig


class Die(BaseException):
    pass


def hooked(d, args, log, fault, opsfile):
    """In the forked child: count file operations below the output directory and act at the chosen one."""
    o = os.path.join(d, "out")
    st = {"n": 0, "on": True}
    fd = os.open(opsfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)

    def hook(ev, a):
        if not st["on"] or ev not in ("open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate",
                                      "os.link", "os.symlink"):
            return
        if ev == "open":
            if not isinstance(a[0], (str, bytes)) or not a[2] & (os.O_WRONLY | os.O_RDWR):
                return
        st["on"] = False
        try:
            ps = [os.path.abspath(os.fsdecode(x)) for x in a[:2 if ev in ("os.rename", "os.link") else 1]
                  if isinstance(x, (str, bytes))]
            if not any(p == o or p.startswith(o + os.sep) for p in ps):
                return
            st["n"] += 1
            os.write(fd, ("%s %s\n" % (ev, os.path.relpath(ps[-1], o))).encode())
            if fault and fault[1] == st["n"]:
                if fault[0] == "error":
                    raise OSError(28, "No space left on device (injected)")
                if fault[0] in ("empty", "half") and ev == "open":
                    ref = fault[2].get(os.path.basename(ps[0]), b"")
                    with open(ps[0], "wb") as fh:
                        fh.write(b"" if fault[0] == "empty" else ref[:len(ref) // 2])
                os._exit(77)
        finally:
            st["on"] = True
    sys.addaudithook(hook)
    return cg._capgen_child(d, args, log)


def generate(v, force, fault):
    """Run the generator on version v; returns (status, text, file operations)."""
    w = _W
    c = w["cases"][v]
    out = os.path.join(w["d"], "out")
    args = c.args("", ["--force-overwrite"] if force else [])
    args[args.index("--output-root") + 1] = out
    args = [os.path.join(w["d"], "in%d" % v, a) if a.endswith((".meta", ".xml")) and "," not in a else
            ",".join(os.path.join(w["d"], "in%d" % v, x) for x in a.split(",")) if a.endswith((".meta", ".xml")) else a
            for a in args]
    cg.preload()
    log, ops = os.path.join(w["d"], "log"), os.path.join(w["d"], "ops")
    if fault and fault[0] == "half":
        fault = fault + ({k: t.replace(b"@D@", w["d"].encode()) for k, t in w["fresh"][v].items()},)
    elif fault:
        fault = fault + ({},)
    try:
        st, txt = mc.forked(hooked, w["d"], args, log, fault, ops, timeout=60)
    except mc.Crash as e:
        st, txt = "died", str(e)
    with open(ops) as fh:
        lines = fh.read().splitlines()
    return st, txt, lines


def diff(got, want):
    for k in sorted(want):
        if k not in got:
            return "%s is missing" % k
        if got[k] != want[k]:
            a, b = got[k].decode().splitlines(), want[k].decode().splitlines()
            for i in range(max(len(a), len(b))):
                x, y = (a[i] if i < len(a) else "<end>"), (b[i] if i < len(b) else "<end>")
                if x != y:
                    return "%s line %d: '%s' instead of '%s'" % (k, i + 1, x.strip()[:80], y.strip()[:80])
    return None


def work(job):
    """One transition: returns (new state or 'skip', violation or None, number of file operations)."""
    state, op = job
    try:
        w = workdir()
    except RuntimeError as e:
        return "skip", str(e), 0
    if op[0] in ("tamper", "empty", "drop", "foreign"):
        new = dict(state or {})
        if op[0] == "foreign":
            new["notes.txt"] = b"not generated\n"
            new["ccpp_other_cap.F90"] = b"! written by somebody else\n"
        elif op[0] == "drop":
            del new[op[1]]
        elif op[0] == "empty":
            new[op[1]] = b""
        else:
            t = new[op[1]]
            new[op[1]] = t.replace(b"ccpp", b"cpcp", 1) if op[2] == "swap" else t + b"! edited\n"
        return new, None, 0
    sig = materialise(state)
    v, force = op[1], op[2]
    fault = op[3] if len(op) > 3 else None
    st, txt, ops = generate(v, force, fault)
    got = snapshot()
    if fault and fault[0] != "error":
        if st != "died":
            return "skip", None, len(ops)         # the chosen operation does not occur
        return got, None, len(ops)
    if v == 9:
        return got, None if st != "ok" else "generation of an invalid input reported success", len(ops)
    want = w["fresh"][v]
    if fault:
        if len(ops) < fault[1]:
            return "skip", None, len(ops)
        if st == "ok":
            bad = diff(got or {}, want)
            return got, bad and "success reported although an I/O error occurred: %s" % bad, len(ops)
        return got, None, len(ops)
    if st != "ok":
        return got, "generation failed: %s %s" % (st, txt[-300:]), len(ops)
    bad = diff(got, want)
    if bad is None:
        for k, s in sig.items():
            if k in want and k.endswith(".F90") and not force and state[k] == want[k]:
                z = os.stat(os.path.join(w["d"], "out", k))
                if (z.st_ino, z.st_mtime_ns) != s:
                    bad = "%s was touched although its content did not change" % k
        extra = sorted(set(got) - set(want) - set(k for k in (state or {}) if not k.startswith("ccpp_temp")))
        if bad is None and extra:
            bad = "additional files %s" % extra
        for k in (state or {}):
            if bad is None and k not in want and "/" not in k and got.get(k) != state[k]:
                bad = "%s, which this run does not generate, was changed or removed" % k
    return got, bad, len(ops)


def canon(s):
    return None if s is None else tuple(sorted(s.items()))


def name(op):
    if op[0] != "gen":
        return " ".join(map(str, op))
    return "gen v%d%s%s" % (op[1], " forced" if op[2] else "",
                            "" if len(op) < 4 else " %s at file operation %d" % op[3])


def cli(ck):
    """Exit status of the command itself."""
    w = workdir()
    n = 0
    for v, expect in ((0, True), (9, False)):
        c = w["cases"][v]
        d = os.path.join(w["d"], "in%d" % v)
        args = c.args("out")
        rc, txt = mc.run([sys.executable, "-W", "ignore", os.path.join(mc.SCRIPTS, "ccpp_capgen.py")] + args, cwd=d,
                         timeout=100)
        n += 1
        if (rc == 0) != expect:
            ck.violation("command line: version %d" % v, "exit status %d: %s" % (rc, txt[-400:]))
        # output root that is a file
        with open(os.path.join(d, "afile"), "w") as fh:
            fh.write("x")
        a = list(args)
        a[a.index("--output-root") + 1] = os.path.join(d, "afile")
        rc, txt = mc.run([sys.executable, "-W", "ignore", os.path.join(mc.SCRIPTS, "ccpp_capgen.py")] + a, cwd=d,
                         timeout=100)
        n += 1
        if rc == 0:
            ck.violation("command line: output root is a file", "exit status 0")
    return n


def main():
    ck = mc.Check("C12", "model_checking")
    q = ck.quick
    cg.preload()
    seen, paths, edges, nruns = {}, {}, set(), 0

    def run(jobs):
        """jobs: (state key, op); returns the new state keys."""
        nonlocal nruns
        new = []
        jobs = [(k, op) for k, op in dict.fromkeys(jobs) if (k, op) not in edges]
        for (k, op), (st, bad, nops) in zip(jobs, mc.pmap(work, [(seen[k], op) for k, op in jobs])):
            edges.add((k, op))
            nruns += 1
            p = paths[k] + (name(op),)
            ck.outcome(op[0] if len(op) < 4 else "gen with " + op[3][0])
            if bad:
                ck.violation(" > ".join(p), bad)
                continue
            if st == "skip":
                continue
            c = canon(st)
            if c not in seen:
                seen[c], paths[c] = st, p
                new.append(c)
        return new
    for s, p in ((None, ("absent",)), ({}, ("empty directory",)),
                 ({"notes.txt": b"mine\n"}, ("directory with a foreign file",))):
        seen[canon(s)], paths[canon(s)] = s, p
    init = list(seen)
    full = [("gen", v, f) for v in VERS for f in (False, True)] + [("gen", 9, False)]
    l1 = run([(k, op) for k in init for op in full])
    gens = [k for k in l1 if seen[k] and "datatable.xml" in seen[k]]
    fresh0 = [k for k in gens if paths[k][0] == "absent"]
    # damage
    dam = []
    for k in fresh0:
        for f in sorted(seen[k]):
            dam += [(k, ("tamper", f, "swap")), (k, ("tamper", f, "append")), (k, ("empty", f)), (k, ("drop", f))]
    dam += [(k, ("foreign",)) for k in gens]
    l2 = run(dam)
    # interruptions and I/O errors at every file operation
    base = [canon(None)] + fresh0 if not q else [canon(None)] + fresh0[:2]
    jobs = []
    w0 = [(k, ("gen", v, f)) for k in base for v in (VERS if not q else (0, 1, 2)) for f in (False, True)
          if not (q and f and v == 2)]
    nops = [r[2] for r in mc.pmap(work, [(seen[k], op) for k, op in w0])]
    for (k, op), n in zip(w0, nops):
        for i in range(1, n + 1):
            for kind in ("kill", "empty", "half", "error"):
                if q and op[2] and kind in ("empty", "half"):
                    continue
                jobs.append((k, op + ((kind, i),)))
    l3 = run(jobs)
    # recovery from everything reached so far, in every version
    cur = gens + l2 + l3
    l4 = run([(k, ("gen", v, f)) for k in cur for v in VERS for f in (False, True)
              if not q or (not f and v in (0, 1, 2)) or (f and v == 1 and k not in l3)])
    l5 = run([(k, ("gen", v, False)) for k in l4 for v in VERS])
    if not q:
        # a second interruption during recovery
        sub = l3
        w0 = [(k, ("gen", v, False)) for k in sub for v in (0, 1)]
        nops = [r[2] for r in mc.pmap(work, [(seen[k], op) for k, op in w0])]
        jobs = [(k, op + ((kind, i),)) for (k, op), n in zip(w0, nops) for i in range(1, n + 1)
                for kind in ("kill", "half")]
        l6 = run(jobs)
        run([(k, ("gen", v, False)) for k in l6 for v in (0, 2)])
    else:
        run([(k, ("gen", 0, False)) for k in l5])
    nruns += cli(ck)
    ck.sample("absent > gen v0 > gen v1 half at file operation 3 > gen v2")
    ck.finish(states=len(seen), transitions=len(edges), exhaustive=True, traces_validated_against_impl=nruns)


main()
