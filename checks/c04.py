"""C04: suite phases are accepted only in their legal order.

Explicit-state exploration of the real generated code: every sequence of phase calls (several suites,
several parts, unknown suite and part names) up to a depth is executed from every reachable state of the
suites' state machine, by forking the compiled host program before each call.  The oracle is the state
machine  uninitialized -register-> uninitialized -initialize-> initialized -timestep_initial->
in_time_step -run*-> in_time_step -timestep_final-> initialized -finalize-> uninitialized."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import forkdfs
from cg import V, Scheme, HostMod, Case, suite_xml, err_vars

PH = cg.PHASES
TRANS = {"register": ("U", "U"), "init": ("U", "I"), "timestep_init": ("I", "T"), "run": ("T", "T"),
         "timestep_final": ("T", "I"), "final": ("I", "U")}


def scheme(name, phases):
    sp = {}
    for ph in phases:
        vs = err_vars()
        if ph == "run":
            vs = [V("ncol", "horizontal_loop_extent", "integer", "", "count", intent="in")] + vs
        sp[ph] = (vs, ["call tr('%s_%s', errmsg, errflg)" % (name, ph)])
    return Scheme(name, sp, uses=["mc_tr, only: tr"])


class Config:
    """suites: {name: [(group, [scheme names])]}; schemes {name: phases}; names: extra bad names."""

    def __init__(self, label, suites, schemes, ops, debug=False):
        self.label, self.suites, self.schemes, self.ops, self.debug = label, suites, schemes, ops, debug


def driver(cfg):
    hst = "hst"
    L = ["program drv", "  use, intrinsic :: iso_c_binding", "  use mc_tr", "  use hst_ccpp_cap",
         "  implicit none", forkdfs.INTERFACES, "  character(len=512) :: errmsg", "  integer :: errflg",
         "  integer :: npre, i, dmax, nthr, opx", "  integer :: pre(64)",
         "  read(5,*) npre, (pre(i),i=1,npre), dmax, nthr",
         "  do i=1,npre", "    call do_op(pre(i))", "  end do", "  write(6,'(a)') 'P end'",
         "  if (nthr > 0) then",
         "    do opx = 1, %d" % len(cfg.ops), "      call thr_op(opx)", "    end do",
         "  else", "    call dfs(1, dmax, %d)" % len(cfg.ops), "  end if", "  flush(6)", "contains",
         forkdfs.BODY, "  subroutine do_op(op)", "    integer, intent(in) :: op",
         "    errflg = -77", "    errmsg = 'unset'", "    select case(op)"]
    for i, (ph, sn, pn) in enumerate(cfg.ops):
        a = "'%s'" % sn
        if ph == "run":
            a += ", '%s', col_start=1, col_end=2" % pn
        L += ["    case(%d)" % (i + 1),
              "      call %s_ccpp_physics_%s(%s, errmsg=errmsg, errflg=errflg)" % (hst, cg.HOST_PHASE[ph], a)]
    L += ["    end select", "    write(6,'(a,i0,2a)') 'R ', errflg, ' ', trim(errmsg)", "  end subroutine do_op",
          "  subroutine thr_op(op)", "    use omp_lib", "    integer, intent(in) :: op",
          "    !$omp parallel num_threads(2)",
          "    if (omp_get_thread_num() == 1) then",
          "      write(6,'(a,i0)') 'O ', op", "      call do_op(op)", "    end if",
          "    !$omp end parallel", "  end subroutine thr_op", "end program drv"]
    if not getattr(cfg, "omp", False):
        a = L.index("  subroutine thr_op(op)")
        L[a:] = ["  subroutine thr_op(op)", "    integer, intent(in) :: op", "    call do_op(op)",
                 "  end subroutine thr_op", "end program drv"]
    return "\n".join(L) + "\n"


def expected(cfg, state, op):
    """(ok, new state, calls)."""
    ph, sn, pn = op
    sn, pn = sn.rstrip(), pn.rstrip()
    if sn not in cfg.suites:
        return False, state, []
    groups = cfg.suites[sn]
    if ph == "run":
        if pn not in [g for g, _ in groups]:
            return False, state, []
        sch = dict(groups)[pn]
    else:
        sch = []
        for _, l in groups:
            for s in l:
                if s not in sch:
                    sch.append(s)
    frm, to = TRANS[ph]
    if state[sn] != frm:
        return False, state, []
    new = dict(state)
    new[sn] = to
    return True, new, ["%s_%s" % (s, ph) for s in sch if ph in cfg.schemes[s]]


def paths_to_states(cfg):
    """Shortest op sequence to every reachable model state."""
    st0 = tuple(sorted((s, "U") for s in cfg.suites))
    seen = {st0: []}
    todo = [st0]
    while todo:
        s = todo.pop(0)
        for k, op in enumerate(cfg.ops):
            ok, new, _ = expected(cfg, dict(s), op)
            key = tuple(sorted(new.items()))
            if key not in seen:
                seen[key] = seen[s] + [k + 1]
                todo.append(key)
    return seen


def check_lines(cfg, state, op, lines):
    ok, new, calls = expected(cfg, state, op)
    tr = [l[2:] for l in lines if l.startswith("T ")]
    rs = [l for l in lines if l.startswith("R ")]
    if len(rs) != 1:
        return new, "the program ended or did not return: %s" % lines[:6]
    code, _, msg = rs[0][2:].partition(" ")
    code = int(code)
    if tr != calls:
        return new, "executed %s, expected %s" % (tr, calls)
    if ok and code != 0:
        return new, "legal call returned code %d '%s'" % (code, msg)
    if not ok and (code == 0 or not msg.strip() or msg.strip() == "unset"):
        return new, "illegal call returned code %d message '%s'" % (code, msg)
    return new, None


def work(arg):
    cfg, jobs = arg
    viol, nodes, trans = [], 0, set()
    c = Case(host="hst", mods=[HostMod("hmod", [V("ncols", "horizontal_dimension", "integer", "", "count",
                                                  protected="True")])],
             schemes=[scheme(n, p) for n, p in cfg.schemes.items()],
             suites=[(n, suite_xml(n, "\n".join("<group name=\"%s\">%s</group>" % (
                 g, "".join("<scheme>%s</scheme>" % s for s in l)) for g, l in gs)))
                 for n, gs in cfg.suites.items()], debug=cfg.debug)
    d = mc.newdir("c04")
    try:
        c.write(d)
        st, txt = c.generate()
        if st != "ok":
            return [("%s generate" % cfg.label, "%s: %s" % (st, txt[:800]))], 0, []
        fl = ("-O0",) + (("-fopenmp",) if getattr(cfg, "omp", False) else ())
        ok, txt = c.compile(driver(cfg), flags=fl)
        if not ok:
            return [("%s compile" % cfg.label, txt[:1200])], 0, []
        for pre, depth in jobs:
            state = {s: "U" for s in cfg.suites}
            for k in pre:
                _, state, _ = expected(cfg, state, cfg.ops[k - 1])
            if getattr(cfg, "omp", False):
                viol += omp(cfg, c, pre, state, trans)
                nodes += len(cfg.ops)
                continue

            states = {0: state}

            def on_node(path, lines, died):
                s = states[len(path) - 1]
                new, err = check_lines(cfg, s, cfg.ops[path[-1] - 1], lines)
                states[len(path)] = new
                trans.add((tuple(sorted(s.items())), path[-1]))
                if err and len(viol) < 20:
                    seq = [cfg.ops[k - 1] for k in list(pre) + path]
                    viol.append(("%s %s" % (cfg.label, " ; ".join("/".join(o) for o in seq)), err))
            n, prel, rc = forkdfs.walk(os.path.join(d, "drv"), d, "%d %s %d 0\n" % (
                len(pre), " ".join(map(str, pre)), depth), on_node)
            nodes += n
            exp = len(cfg.ops) * (len(cfg.ops) ** depth - 1) // (len(cfg.ops) - 1) if len(cfg.ops) > 1 else depth
            if n != exp and not viol:
                viol.append(("%s prefix %s" % (cfg.label, list(pre)), "explored %d of %d nodes: %s (rc %s)" % (
                    n, exp, prel[-5:], rc)))
    finally:
        mc.rmdir(d)
    return viol, nodes, sorted(trans)


def omp(cfg, c, pre, state, trans):
    viol = []
    rc, txt = c.execute("%d %s 0 1\n" % (len(pre), " ".join(map(str, pre))))
    _, _, body = txt.partition("P end\n")
    parts = body.split("O ")
    if len(parts) != len(cfg.ops) + 1:
        return [("%s omp %s" % (cfg.label, list(pre)), "rc %s: %s" % (rc, txt[-500:]))]
    for k, part in enumerate(parts[1:]):
        op = cfg.ops[k]
        lines = part.splitlines()[1:]
        trans.add((tuple(sorted(state.items())), k + 1))
        if op[0] == "run":
            new, err = check_lines(cfg, state, op, lines)
            state = new
        else:
            rs = [l for l in lines if l.startswith("R ")]
            err = None
            if [l for l in lines if l.startswith("T ")] or not rs or rs[0].split()[1] == "0":
                err = "phase call from an OpenMP worker thread: %s" % lines
        if err:
            viol.append(("%s omp after %s: %s" % (cfg.label, [cfg.ops[i - 1] for i in pre], op), err))
    return viol


def configs(quick):
    out = []
    al = PH
    two = {"sua": [("ga", ["s1"]), ("gb", ["s2", "s1"])], "subx": [("gc", ["s2"])]}
    sch = {"s1": al, "s2": al}
    ops = [(p, s, {"sua": "ga", "subx": "gc"}[s] if p == "run" else "") for s in two for p in PH]
    ops += [("run", "sua", "gb"), ("run", "sua", "gc"), ("init", "nosuch", ""), ("run", "subx", "nopart")]
    c2 = Config("two-suites", two, sch, ops)
    states = paths_to_states(c2)
    for key, p in states.items():
        out.append((c2, [(tuple(p), 3 if quick else 4)]))
    if quick:
        out.append((c2, [((), 4)]))
    # bad and unusual names in every state, each followed by every legal call
    bad = []
    for ph in PH:
        for sn in ("", "SUA", "su", "sua_", "subxy", "gc", "ga", "sua   "):
            bad.append((ph, sn, "ga" if ph == "run" else ""))
    for pn in ("", "GA", "g", "sua_ga", "gab", "gc", "init", "run", "initialize", "ga  "):
        bad.append(("run", "sua", pn))
    for pn in ("ga", "gb", "subx_gc"):
        bad.append(("run", "subx", pn))
    c3 = Config("names", two, sch, ops[:12] + bad)
    st3 = paths_to_states(c3)
    for key, p in st3.items():
        out.append((c3, [(tuple(p), 2)]))
    # one suite, every subset of phases provided by its scheme(s)
    subs = [s for n in range(0, 7) for s in itertools.combinations(PH, n)]
    subs = [s for s in subs if s]
    for s in subs:
        cfg = Config("profile-%s" % "+".join(s), {"su1": [("g1", ["s1"])]}, {"s1": list(s)},
                     [(p, "su1", "g1") for p in PH] + [("run", "su1", "g2")])
        out.append((cfg, [((), 4 if quick else 5), ((2,), 3), ((2, 3), 3 if quick else 4)]))
    # three suites, shared group names, debug generation
    three = {"a": [("g", ["s1"])], "ab": [("g", ["s2"]), ("h", ["s1"])], "abc": [("g_g", ["s1", "s2"])]}
    o3 = [(p, s, {"a": "g", "ab": "g", "abc": "g_g"}[s]) for s in three for p in PH[1:]] + [("run", "ab", "h")]
    c4 = Config("three-suites", three, {"s1": ["run", "init"], "s2": ["timestep_init", "run", "final"]}, o3,
                debug=True)
    for key, p in paths_to_states(c4).items():
        out.append((c4, [(tuple(p), 2 if quick else 3)]))
    # calls from an OpenMP worker thread in every state
    co = Config("threads", two, sch, ops)
    co.omp = True
    for key, p in paths_to_states(co).items():
        out.append((co, [(tuple(p), 1)]))
    return out


def main():
    ck = mc.Check("C04", "model_checking")
    merged = {}
    jobs = []
    for cfg, js in configs(ck.quick):
        key = cfg.label
        if key in merged and len(merged[key][1]) < (3 if cfg.label in ("names", "three-suites", "threads") else 2):
            merged[key][1].extend(js)
        else:
            merged[key] = (cfg, list(js))
            jobs.append(merged[key])
    nodes = 0
    trans = set()
    states = set()
    for (cfg, _), (viol, n, tr) in zip(jobs, mc.pmap(work, jobs)):
        nodes += n
        ck.outcome(cfg.label.split("-")[0], n)
        for s, k in tr:
            states.add((cfg.label, s))
            trans.add((cfg.label, s, k))
        for key, what in viol:
            ck.violation(key, what)
    ck.sample("from state {sua: T, subx: U}: run/sua/gb executes s2_run s1_run and returns 0")
    ck.sample("from state {sua: U, subx: I}: timestep_final/subx returns nonzero, runs nothing, state unchanged")
    ck.finish(states=len(states), transitions=len(trans), traces_validated_against_impl=nodes, exhaustive=True,
              configurations=len(set(c.label for c, _ in jobs)))


main()
