"""C26: prebuild suites run schemes in order and enforce initialisation per instance.

Explicit-state exploration of real generated static caps: the compiled host program is forked before every call, so that every
sequence of stage calls (whole suites, groups, unknown names, several instances, an error injected at any scheme call) up to
a depth is executed from every reachable state of the model 'which group is initialised for which instance'."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import cg
import pb
import forkdfs
from cg import V, Scheme, HostMod, err_vars

ST = pb.STAGES


def scheme(name, stages):
    sp = {}
    for st in stages:
        vs = err_vars()
        body = ["call tr('%s_%s', errmsg, errflg)" % (name, st)]
        if st == "run" and name.startswith("l"):
            vs += [V("lc", "ccpp_loop_counter", "integer", "", "index", intent="in"), V("lx", "ccpp_loop_extent", "integer", "", "count", intent="in")]
            body.append("write(6,'(a,i0,a,i0)') 'L ', lc, ' ', lx")
        sp[st] = (vs, body)
    return Scheme(name, sp, uses=["mc_tr, only: tr"])


class Config:
    """suites: {name: [(group, [(loop, [schemes])])]}; group 'init' / 'finalize' with loop 0: suite-level scheme;
    ops: (stage, suite, group or None, instance, position of the error or 0)"""

    def __init__(self, label, suites, schemes, ops, debug=False):
        self.label, self.suites, self.schemes, self.ops, self.debug = label, suites, schemes, ops, debug


def sdf(name, groups):
    t = '<?xml version="1.0" encoding="UTF-8"?>\n<suite name="%s" version="1">\n' % name
    for g, subs in groups:
        if subs and subs[0][0] == 0:
            t += "  <%s>%s</%s>\n" % (g, subs[0][1][0], g)
            continue
        t += '  <group name="%s">\n' % g
        for loop, ss in subs:
            t += '    <subcycle loop="%s">%s</subcycle>\n' % (loop, "".join("<scheme>%s</scheme>" % s for s in ss))
        t += "  </group>\n"
    return t + "</suite>\n"


def driver(cfg):
    L = ["program drv", "  use, intrinsic :: iso_c_binding", "  use mc_tr", "  use ccpp_types, only: ccpp_t", "  use ccpp_static_api",
         "  implicit none", forkdfs.INTERFACES, "  type(ccpp_t) :: cd", "  integer :: npre, i, dmax, ierr", "  integer :: pre(64)",
         "  cd%blk_no = 1; cd%thrd_no = 1; cd%thrd_cnt = 1",
         "  read(5,*) npre, (pre(i),i=1,npre), dmax", "  do i=1,npre", "    call do_op(pre(i))", "  end do", "  write(6,'(a)') 'P end'",
         "  call dfs(1, dmax, %d)" % len(cfg.ops), "  flush(6)", "contains", forkdfs.BODY, "  subroutine do_op(op)", "    integer, intent(in) :: op",
         "    ierr = -77; cd%errmsg = ''; cd%errflg = 0; ncall = 0; fail_at = 0; fail_code = 0", "    select case(op)"]
    for i, (st, sn, gn, inst, fault) in enumerate(cfg.ops):
        g = "" if gn is None else ", group_name='%s'" % gn
        L += ["    case(%d)" % (i + 1), "      cd%%ccpp_instance = %d; fail_at = %d; fail_code = %d" % (inst, fault, 40 + fault if fault % 2 else -fault),
              "      call ccpp_physics_%s(cd, suite_name='%s'%s, ierr=ierr)" % (st, sn, g)]
    L += ["    end select", "    write(6,'(a,i0,1x,i0,2a)') 'R ', ierr, cd%errflg, ' ', trim(cd%errmsg)", "  end subroutine do_op", "end program drv"]
    return "\n".join(L) + "\n"


def calls(cfg, subs, st):
    out = []
    for loop, ss in subs:
        n = max(loop, 1) if st == "run" else 1
        for k in range(n):
            for s in ss:
                if st in cfg.schemes[s]:
                    out.append((s, k + 1, n))
    return out


def expected(cfg, state, op):
    """-> (verdict 'ok'|'err'|'any', new state, trace)"""
    st, sn, gn, inst, fault = op
    sn, gn = sn.rstrip(), gn.rstrip() if gn is not None else None
    if sn not in cfg.suites:
        return "err", state, []
    groups = cfg.suites[sn]

    def runs(g, subs):
        return not (subs and subs[0][0] == 0 and g != st)
    sel = [(g, subs) for g, subs in groups if runs(g, subs) and gn in (None, g)]
    if gn is not None and not sel:
        return "err", state, []
    new, trace, n, verdict = dict(state), [], 0, "ok"
    for g, subs in sel:
        on = new[sn, g, inst]
        if st == "init" and on or st == "finalize" and not on:
            continue
        cl = calls(cfg, subs, st)
        if st not in ("init", "finalize") and not on:
            if not cl:
                continue        # nothing to run: with or without an error, see below
            return "err", new, trace
        for s, k, m in cl:
            n += 1
            trace.append("%s_%s" % (s, st))
            if s[0] == "l" and st == "run":
                trace.append("%d %d" % (k, m))
            if n == fault:
                return "fault %d %s_%s" % (40 + fault if fault % 2 else -fault, s, st), new, trace
        if st == "init":
            new[sn, g, inst] = True
        elif st == "finalize":
            new[sn, g, inst] = False
    return verdict, new, trace


def idle(cfg, state, op):
    """does the call reach a group that is not initialised and has nothing to run in the stage"""
    st, sn, gn, inst, _ = op
    sn, gn = sn.rstrip(), gn.rstrip() if gn is not None else None
    return st not in ("init", "finalize") and any(not state[sn, g, inst] and not calls(cfg, subs, st) for g, subs in cfg.suites.get(sn, []) if gn in (None, g))


def judge(cfg, state, op, lines):
    verdict, new, trace = expected(cfg, state, op)
    tr = [x[2:] for x in lines if x[:2] in ("T ", "L ")]
    rs = [x for x in lines if x.startswith("R ")]
    if len(rs) != 1:
        return new, "the program ended or did not return: %s" % lines[:6]
    ierr, flg, msg = (rs[0][2:].split(" ", 2) + [""])[:3]
    ierr, flg = int(ierr), int(flg)
    if idle(cfg, state, op) and ierr != 0 and msg.strip() and tr == trace[:len(tr)]:
        return new, None
    if tr != trace:
        return new, "executed %s, expected %s" % (tr, trace)
    if verdict == "ok" and (ierr or flg):
        return new, "a legal call returned %d, %d '%s'" % (ierr, flg, msg)
    if verdict == "err" and (ierr == 0 or flg == 0 or not msg.strip()):
        return new, "a call that must fail returned %d, errflg %d, message '%s'" % (ierr, flg, msg)
    if verdict.startswith("fault"):
        _, code, who = verdict.split()
        if ierr != int(code) or flg != int(code) or "MSG:" + who not in msg:
            return new, "an error %s of %s was reported as %d, errflg %d, message '%s'" % (code, who, ierr, flg, msg)
    return new, None


def reachable(cfg, insts):
    st0 = {(s, g, i): False for s, gs in cfg.suites.items() for g, _ in gs for i in insts}
    seen = {tuple(sorted(st0.items())): []}
    todo = list(seen)
    while todo:
        s = todo.pop(0)
        for k, op in enumerate(cfg.ops):
            if op[0] not in ("init", "finalize") or op[4]:
                continue
            _, new, _ = expected(cfg, dict(s), op)
            key = tuple(sorted(new.items()))
            if key not in seen:
                seen[key] = seen[s] + [k + 1]
                todo.append(key)
    return seen


def work(job):
    cfg, insts, paths, depth = job
    viol, nodes, states, trans = [], 0, set(), set()
    c = pb.PCase(mods=[HostMod("hm", [pb.CDATA])], schemes=[scheme(n, p) for n, p in cfg.schemes.items()],
                 suites=[(n, sdf(n, gs)) for n, gs in cfg.suites.items()])
    c.mods[0].uses = ["ccpp_types, only: ccpp_t"]
    d = mc.newdir("c26")
    try:
        c.write(d)
        st, txt = c.generate(["--debug"] if cfg.debug else [])
        if st != "ok":
            return [("%s generate" % cfg.label, "refused: %s %s" % (st, txt[-700:]))], 0, [], []
        ok, txt = c.compile(driver(cfg), flags=("-O0",))
        if not ok:
            return [("%s compile" % cfg.label, txt[:1000])], 0, [], []
        zero = {(s, g, i): False for s, gs in cfg.suites.items() for g, _ in gs for i in insts}
        for pre in paths:
            state = zero
            for k in pre:
                _, state, _ = expected(cfg, state, cfg.ops[k - 1])
            stk = {0: state}

            def on_node(path, lines, died):
                s = stk[len(path) - 1]
                op = cfg.ops[path[-1] - 1]
                stk[len(path)], err = judge(cfg, s, op, lines)
                states.add(tuple(sorted(s.items())))
                trans.add((tuple(sorted(s.items())), path[-1]))
                if err and len(viol) < 20:
                    seq = [cfg.ops[k - 1] for k in list(pre) + path]
                    viol.append(("%s %s" % (cfg.label, " ; ".join("%s %s%s instance %d%s" % (o[0], o[1], "" if o[2] is None else "/" + o[2], o[3], " error at %d" % o[4] if o[4] else "")
                                                                   for o in seq)), err))
            n, prel, rc = forkdfs.walk(os.path.join(d, "drv"), d, "%d %s %d\n" % (len(pre), " ".join(map(str, pre)), depth), on_node)
            nodes += n
            m = len(cfg.ops)
            exp = sum(m ** k for k in range(1, depth + 1))
            if n != exp and not viol:
                viol.append(("%s after %s" % (cfg.label, list(pre)), "explored %d of %d nodes: %s (rc %s)" % (n, exp, prel[-5:], rc)))
    finally:
        mc.rmdir(d)
    return viol, nodes, sorted(map(str, states)), sorted(map(str, trans))


def ops_for(suites, insts, faults=0, stages=ST, whole=True):
    out = []
    for s, gs in suites.items():
        tg = ([None] if whole else []) + [g for g, subs in gs if not (subs and subs[0][0] == 0)]
        for st in stages:
            for g in tg:
                for i in insts:
                    for f in range(0, faults + 1):
                        out.append((st, s, g, i, f))
    return out


def configs(deep):
    out = []
    two = {"sua": [("ga", [(1, ["s1", "s2"])]), ("gb", [(2, ["s2", "l1"]), (1, ["s1"])])], "sub": [("ga", [(3, ["l1"])])]}
    sch = {"s1": ST, "s2": ST, "l1": ST}
    cfg = Config("two-suites", two, sch, ops_for(two, (1, 2)))
    r = reachable(cfg, (1, 2))
    for ch in mc.chunks(list(r.values()), 8):
        out.append((cfg, (1, 2), ch, 2))
    # one instance, deeper
    c1 = Config("one-instance", two, sch, ops_for(two, (200,)))
    for ch in mc.chunks(list(reachable(c1, (200,)).values()), 2):
        out.append((c1, (200,), ch, 3))
    # errors at every call
    cf = Config("errors", two, sch, ops_for(two, (1, 2), 6))
    for ch in mc.chunks(list(reachable(cf, (1, 2)).values()), 8):
        out.append((cf, (1, 2), ch, 1))
    ce = Config("error histories", {"sua": two["sua"]}, sch, ops_for({"sua": two["sua"]}, (3,), 3, whole=True))
    out.append((ce, (3,), list(reachable(ce, (3,)).values()), 3 if deep else 2))
    # names
    bad = [(st, s, g, 1, 0) for st in ST for s, g in [("nosuch", None), ("", None), ("su", None), ("suax", None), ("SUA", None), ("ga", None), ("sua", ""), ("sua", "g"),
                                                      ("sua", "gab"), ("sua", "GA"), ("sub", "gb"), ("nosuch", "ga"), ("sua  ", None), ("sua", "ga  "), ("sua", "init"), ("sub", "sua")]]
    cn = Config("names", two, sch, ops_for(two, (1,))[:] + bad)
    out.append((cn, (1,), list(reachable(cn, (1,)).values()), 1))
    # every subset of the stages
    for n in range(1, 6):
        for sub in itertools.combinations(ST, n):
            one = {"su1": [("g1", [(1, ["s1"])])]}
            c = Config("stages %s" % "+".join(sub), one, {"s1": list(sub)}, ops_for(one, (1, 2), whole=True))
            out.append((c, (1, 2), list(reachable(c, (1, 2)).values()), 3 if deep else 2))
    # two groups whose schemes provide different stages
    pairs = list(itertools.product([("run",), ("init",), ("finalize",), ("timestep_init", "run", "finalize"), ("init", "run")], repeat=2))
    for a, b in pairs if deep else pairs[::2]:
        gs = {"su1": [("g1", [(1, ["s1"])]), ("g2", [(2, ["s2"])])]}
        c = Config("groups %s | %s" % ("+".join(a), "+".join(b)), gs, {"s1": list(a), "s2": list(b)}, ops_for(gs, (1, 2)))
        out.append((c, (1, 2), list(reachable(c, (1, 2)).values()), 2 if deep else 1))
    # structures: subcycles and repeated schemes
    subs = [[(1, ["s1"])], [(2, ["l1"])], [(3, ["l1", "s1"]), (1, ["l1"])], [(1, ["s1", "s1", "s2"]), (2, ["s2"])], [(2, ["s1", "l1", "s2", "l1"])], [(1, []), (2, ["l1"])], [(1, ["s2"]), (1, ["s1"]), (10, ["l1"])]]
    for k, a in enumerate(subs):
        for b in [None] + (subs if deep else subs[k:k + 2]):
            gs = {"su1": [("g1", a)] + ([("g2", b)] if b else [])}
            c = Config("structure %s" % gs["su1"], gs, sch, ops_for(gs, (1,), 3 if deep else 2))
            c.schemes = {s: ST for s in sch if any(s in ss for _, g in gs["su1"] for _, ss in g)}
            out.append((c, (1,), list(reachable(c, (1,)).values()), 1))
    # suite-level schemes, debug
    for lab, gs in (("init", [("init", [(0, ["s1"])]), ("g1", [(1, ["s2"])])]), ("finalize", [("g1", [(1, ["s2"])]), ("finalize", [(0, ["s1"])])]),
                    ("both", [("init", [(0, ["s1"])]), ("g1", [(1, ["s2"])]), ("g2", [(2, ["l1"])]), ("finalize", [(0, ["s1"])])])):
        su = {"su1": gs}
        c = Config("suite-level %s" % lab, su, {s: ST for s in sch if any(s in ss for _, g in gs for _, ss in g)}, ops_for(su, (1, 2)))
        out.append((c, (1, 2), list(reachable(c, (1, 2)).values())[:16], 2 if deep else 1))
    cd = Config("debug", two, sch, ops_for(two, (1, 2)), debug=True)
    out.append((cd, (1, 2), list(reachable(cd, (1, 2)).values())[:: 1 if deep else 8], 1))
    return out


def main():
    ck = mc.Check("C26", "model_checking")
    cg.preload()
    pb.preload()
    jobs = configs(not ck.quick)
    jobs.sort(key=lambda j: -len(j[2]) * len(j[0].ops) ** j[3])
    n, states, trans = 0, set(), set()
    for job, res in zip(jobs, mc.pmap(work, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("%s machinery" % job[0].label, "could not be explored: %s" % res, None)
            continue
        viol, k, s, t = res
        n += k
        states |= {(job[0].label, x) for x in s}
        trans |= {(job[0].label, x) for x in t}
        ck.outcome(job[0].label.split()[0], k)
        for key, what in viol:
            ck.violation(key, what, {"history": key})
    ck.sample("two-suites: init sua instance 1 ; run sua/gb instance 2")
    ck.finish(states=len(states), transitions=len(trans), traces_validated_against_impl=n, exhaustive=True)


if __name__ == "__main__":
    main()
