#!/opt/venv/bin/python
"""C21: variable dictionaries keep standard and local names unique and findable.

Explicit exploration of the operation histories of nested variable dictionaries on the real class: additions in every mode
(plain, exists_ok, gen_unique, adjust_intent) of variables with clashing and incompatible names, removals, renamings, requests
for internal names and lookups that clone. Every history up to a length, and every transition out of every reachable content
up to a larger depth, is executed; after every operation everything observable of every dictionary is compared with a
reference that is just an ordered table per dictionary."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

LONG = "y" * 63
# name: (standard name, local name, intent, type, units)
VARS = {"ax": ("a", "x", "in", "real", "m"), "aXo": ("a", "X", "out", "real", "m"), "ay": ("a", "y", "inout", "real", "m"),
        "akm": ("a", "x", "in", "real", "km"), "abad": ("a", "x", "in", "integer", "1"), "apa": ("a", "z", "in", "real", "Pa"),
        "bX": ("b", "X", "in", "real", "m"), "by": ("b", "Y", "out", "real", "m"), "cx1": ("c", "x1", "in", "real", "m"),
        "cl": ("c", LONG, "in", "real", "m"), "bl": ("b", LONG, "in", "real", "m")}
MODES = {"plain": {}, "exists": {"exists_ok": True}, "unique": {"gen_unique": True}, "both": {"exists_ok": True, "gen_unique": True},
         "adjust": {"exists_ok": True, "adjust_intent": True}}
STDS, LOCALS = ("a", "b", "c", "d"), ("x", "X", "y", "Y", "x1", "X1", "x2", "z", LONG, "p_var")
PREFIX = {"x": "x", "X": "X", "none": None, "long": LONG}
INIT = ("none", "var", "list", "dict", "vardict")


def ops(rich):
    vs = list(VARS) if rich else ["ax", "aXo", "ay", "abad", "bX", "by", "cx1"]
    ms = list(MODES) if rich else ["plain", "exists", "unique", "adjust"]
    for d in (0, 1):
        for v in vs:
            for m in ms:
                yield ("add", d, v, m)
        for s in STDS[:3] if rich else STDS[:2]:
            yield ("remove", d, s)
        for p in PREFIX if rich else ("x", "none"):
            yield ("new", d, p, ())
        yield ("new", d, "x", ("x", "x1"))
        for s in ("a", "b"):
            yield ("rename", d, s, ("x",))
        if rich:
            yield ("rename", d, "a", ("x", "y", "x1"))
            yield ("rename", d, "b", (LONG, "x"))
        yield ("clone", d, "bX")
        if rich:
            yield ("clone", d, "cx1")
            yield ("clone", d, "ay")


class Model:
    """One ordered table per dictionary: standard name -> [local name, intent, type, units]"""

    def __init__(self, tabs=((), ())):
        self.t = [dict((s, list(e)) for s, e in t) for t in tabs]

    def key(self):
        return tuple(tuple((s, tuple(e)) for s, e in t.items()) for t in self.t)

    def locals(self, d):
        return [e[0].lower() for e in self.t[d].values()]

    def lookup(self, d, s, any_scope):
        if s in self.t[d]:
            return (d, s)
        return (0, s) if any_scope and d == 1 and s in self.t[0] else None

    def add(self, d, v, m):
        """-> "refused", or None after changing the table (with local name None where a new unique one has to be made)"""
        s, l, i, t, u = VARS[v]
        tab, opt = self.t[d], MODES[m]
        if s in tab:
            if not opt.get("exists_ok"):
                return "refused"
            e = tab[s]
            if e[2] != t or (e[3] != u and {e[3], u} != {"m", "km"}):
                return "refused"
            if e[1] != i:
                if not opt.get("adjust_intent"):
                    return "refused"
                if e[1] != "inout":
                    e[1] = "inout"
            return None
        if l.lower() in self.locals(d):
            if opt.get("gen_unique"):
                l = None
            elif not opt.get("exists_ok"):
                return "refused"
        tab[s] = [l, i, t, u]
        return None


def setup(init):
    """-> (the two dictionaries, model, run environment, variable maker)"""
    from metavar import Var, VarDictionary, ccpp_standard_var  # noqa
    from parse_tools import ParseContext, ParseSource, init_log, set_log_to_null
    from framework_env import CCPPFrameworkEnv
    log = init_log("mc21")
    set_log_to_null(log)
    env = CCPPFrameworkEnv(log, ndict={"host_files": "", "scheme_files": "", "suites": ""}, kind_types=["kind_phys=REAL64"])

    def var(v):
        s, l, i, t, u = VARS[v]
        return Var({"local_name": l, "standard_name": s, "units": u, "dimensions": "()", "type": t, "intent": i},
                   ParseSource("src", "SCHEME", ParseContext()), env)
    return env, var, VarDictionary


def fresh(env, var, VarDictionary, init):
    vs = None
    if init == "var":
        vs = var("ax")
    elif init != "none":
        vs = [var("ax"), var("by")]
    if init == "vardict":
        vs = VarDictionary("q", env, variables=vs)
    elif init == "dict":
        vs = {x.get_prop_value("standard_name"): x for x in vs}
    p = VarDictionary("p", env, variables=vs)
    c = VarDictionary("c", env, parent_dict=p)
    names = {"none": [], "var": ["ax"]}.get(init, ["ax", "by"])
    return [p, c], Model((tuple((VARS[v][0], VARS[v][1:]) for v in names), ()))


def bad_name(name, prefix, d, model, used, dname):
    """Is a generated internal name acceptable?"""
    if not isinstance(name, str) or not name or len(name) > 63 or not name.isidentifier():
        return "%r is not a name" % (name,)
    if name.lower() in model.locals(d) or name.lower() in used:
        return "the new name %s is in use" % name
    want = dname if prefix is None else prefix
    if not name.lower().startswith(want.lower()[:58]):
        return "the new name %s does not begin with %s" % (name, want)
    return None


def step(op, ds, model, env, var):
    """Execute one operation on both -> None or what is wrong"""
    from parse_tools import CCPPError
    kind, d = op[0], op[1]
    rd = ds[d]
    before = model.key()
    try:
        if kind == "add":
            want = model.add(d, op[2], op[3])
            if want:
                model.__init__(before)
            s = VARS[op[2]][0]
            try:
                rd.add_variable(var(op[2]), env, **MODES[op[3]])
                got = None
            except CCPPError:
                got = "refused"
            if got != want:
                return "the addition is %s" % (got or "accepted")
            if not want and model.t[d][s][0] is None:
                new = rd[s].get_prop_value("local_name") if s in rd else None
                del model.t[d][s]
                why = bad_name(new, VARS[op[2]][1], d, model, (), rd.name)
                if why:
                    return why
                model.t[d][s] = [new] + list(VARS[op[2]][2:])
        elif kind == "remove":
            model.t[d].pop(op[2], None)
            rd.remove_variable(op[2])
        elif kind == "new":
            name = rd.new_internal_variable_name(prefix=PREFIX[op[2]], used=set(op[3]))
            return bad_name(name, PREFIX[op[2]], d, model, op[3], rd.name)
        elif kind == "rename":
            if op[2] not in model.t[d]:
                return None
            old = model.t[d][op[2]][0]
            rd.make_local_name_unique(op[2], set(op[3]))
            new = rd[op[2]].get_prop_value("local_name")
            if old.lower() not in op[3]:
                if new != old:
                    return "renamed to %s although %s is not in use" % (new, old)
                return None
            others = Model(model.key())
            del others.t[d][op[2]]
            why = bad_name(new, old, d, others, op[3], rd.name)
            if why:
                return why
            model.t[d][op[2]][0] = new
        elif kind == "clone":
            s, l = VARS[op[2]][:2]
            where = model.lookup(d, s, True)
            got = rd.find_variable(standard_name=s, clone=var(op[2]))
            if where is not None:
                if got is not ds[where[0]][s]:
                    return "the lookup finds %r" % (got,)
                return None
            if got is None or got.get_prop_value("standard_name") != s:
                return "no clone is made: %r" % (got,)
            why = bad_name(got.get_prop_value("local_name"), l, d, model, (), rd.name)
            if why:
                return why
            model.t[d][s] = [got.get_prop_value("local_name")] + list(VARS[op[2]][2:])
    except Exception as e:  # noqa
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    return None


def observe(ds, model):
    """Everything visible of both dictionaries -> None or the first difference"""
    try:
        for d, rd in enumerate(ds):
            tab = model.t[d]
            if list(rd.keys()) != list(tab):
                return "%s has %s, expected %s" % (rd.name, list(rd.keys()), list(tab))
            for s, e in tab.items():
                v = rd[s]
                got = [v.get_prop_value(x) for x in ("local_name", "intent", "type", "units")]
                if v.get_prop_value("standard_name") != s or got != e:
                    return "%s holds %s for %s, expected %s" % (rd.name, got, s, e)
            for s in STDS:
                for scope in (True, False):
                    w = model.lookup(d, s, scope)
                    g = rd.find_variable(standard_name=s, any_scope=scope)
                    if g is not (ds[w[0]][s] if w else None):
                        return "%s.find_variable(%s, any_scope=%s) is %r, expected %s" % (rd.name, s, scope, g, w)
            for l in LOCALS:
                for scope in (True, False):
                    own = [s for s, e in tab.items() if e[0].lower() == l.lower()]
                    cand = [rd[s] for s in own]
                    if not own and scope and d == 1:
                        cand = [ds[0][s] for s, e in model.t[0].items() if e[0].lower() == l.lower()]
                    g = rd.find_local_name(l, any_scope=scope)
                    if (g is None) != (not cand) or (cand and not any(g is c for c in cand)):
                        return "%s.find_local_name(%s, any_scope=%s) is %r, expected %s" % (rd.name, l, scope, g, cand)
            if rd.prop_list("local_name") != [e[0] for e in tab.values()]:
                return "%s.prop_list is %s" % (rd.name, rd.prop_list("local_name"))
            if [id(v) for v in rd.variable_list()] != [id(v) for v in rd.values()]:
                return "%s.variable_list is %s" % (rd.name, rd.variable_list())
            names = [e[0].lower() for e in tab.values()]
        got = [id(v) for v in ds[1].variable_list(recursive=True)]
        if got != [id(v) for v in list(ds[0].values()) + list(ds[1].values())]:
            return "variable_list(recursive) is %s" % ds[1].variable_list(recursive=True)
        if ds[1].parent is not ds[0] or [id(x) for x in ds[0].sub_dictionaries()] != [id(ds[1])]:
            return "the nesting of the dictionaries is lost"
    except Exception as e:  # noqa
        return "observing fails with %s: %s" % (type(e).__name__, str(e)[:200])
    return None


def history(init, seq, env):
    """Replay a history -> (model, first wrong position or None, why); the last operation is observed in full"""
    ds, model = fresh(*env, init)
    for n, op in enumerate(seq):
        why = step(op, ds, model, env[0], env[1])
        if why:
            return model, n, why
    why = observe(ds, model)
    return model, (len(seq) - 1 if why else None), why


def show(init, seq):
    return "%s: %s" % (init, "; ".join(" ".join(("pc"[x] if i == 1 else LONG[:3] + "..." if x == LONG else str(x)) for i, x in enumerate(op)) for op in seq))


def run(job):
    sys.path.insert(0, os.path.join(mc.REPO, "scripts"))
    kind, init, seqs, allops, depth = job
    env = setup(init)
    env = (env[0], env[1], env[2])
    bad, n, out = [], 0, {}
    todo = list(seqs)
    if kind == "all":                      # every history with these beginnings
        for first in seqs:
            for r in range(depth + 1):
                for rest in itertools.product(allops, repeat=r):
                    n += 1
                    m, at, why = history(init, first + rest, env)
                    if why and len(bad) < 30:
                        bad.append((show(init, (first + rest)[:at + 1]), why))
        return bad, n, []
    new = {}
    for seq in seqs:                       # every transition out of these contents
        for op in allops:
            n += 1
            m, at, why = history(init, seq + (op,), env)
            if why:
                if len(bad) < 30:
                    bad.append((show(init, (seq + (op,))[:at + 1]), why))
                continue
            k = m.key()
            if k not in new:
                new[k] = seq + (op,)
    return bad, n, list(new.items())


def main():
    ck = mc.Check("C21", "model_checking")
    small, rich = list(ops(False)), list(ops(True))
    states, transitions, traces = 0, 0, 0
    seen_bad = set()

    def collect(jobs):
        nonlocal transitions
        for job, res in zip(jobs, mc.pmap(run, jobs)):
            if isinstance(res, mc.Crash):
                ck.violation("machinery %s %s" % (job[0], job[1]), "the histories could not be run: %s" % res)
                continue
            bad, n, new = res
            transitions += n
            for key, why in bad:
                if key not in seen_bad:
                    seen_bad.add(key)
                    ck.violation(key, why)
            ck.outcome(job[0] + " " + job[1])
            yield from new
    # every history of three operations (two from filled dictionaries in the quick check)
    depth = 2
    jobs = [("all", init, c, small, depth if init in ("none", "list") or not ck.quick else depth - 1) for init in INIT for c in mc.chunks([(o,) for o in small], 6)]
    list(collect(jobs))
    # every transition out of every reachable content
    for init in INIT:
        known = {None: ()}
        level = [()]
        for d in range((3 if init == "none" else 2) if ck.quick else (4 if init == "none" else 3)):
            nxt = []
            for k, seq in collect([("graph", init, c, rich, 0) for c in mc.chunks(level, max(1, len(level) // 32))]):
                if k not in known:
                    known[k] = seq
                    nxt.append(seq)
            level = nxt
        states += len(known)
    ck.sample(show("none", (small[0], small[20], small[-1])))
    ck.finish(states=states, transitions=transitions, traces_validated_against_impl=transitions, exhaustive=True)


if __name__ == "__main__":
    main()
