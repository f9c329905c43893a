#!/opt/venv/bin/python
"""C23: computed variable transforms invert each other and select matching elements.

Every ordered pair of dimension lists over a catalogue of dimension names (every length, every order, both vertical
orientations) and every ordered pair of declarations over types, kinds, units, character lengths, orientations and standard
names is given to the compatibility judgement. The verdict is compared with an independent one, with the verdict of
the swapped pair and with that of a declaration with itself; every index transformation is executed on all elements of
small arrays and compared with the physical location of each element; every statement transformation is executed on
numbers and compared with the physical conversion, then reversed."""
import itertools
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
from c22 import U, PROVIDED

KINDS = {"kind_phys": "REAL64", "kind_dyn": "REAL32", "kind_host": "REAL64", "REAL64": "REAL64", "REAL32": "REAL32"}
EXT = {"v": 3, "i": 4, "x": 2, "y": 2, "h": 4, "w": 3}           # extents of the axes
COL = (2, 4)                                                     # columns in one call of the run phase
# dimension -> (axis, how it is written)
DIMS = {"horizontal_dimension": ("h", "dim"), "ccpp_constant_one:horizontal_dimension": ("h", "dim"),
        "horizontal_loop_extent": ("h", "loop"), "ccpp_constant_one:horizontal_loop_extent": ("h", "loop"),
        "vertical_layer_dimension": ("v", ""), "ccpp_constant_one:vertical_layer_dimension": ("v", ""),
        "ccpp_constant_one:vertical_interface_dimension": ("i", ""),
        "xdim": ("x", ""), "ccpp_constant_one:xdim": ("x", ""), "ydim": ("y", ""), "ccpp_constant_one:ydim": ("y", ""),
        "x_begin:x_end": ("w", "")}


def env_():
    from parse_tools import init_log, set_log_to_null
    from framework_env import CCPPFrameworkEnv
    log = init_log("mc23")
    set_log_to_null(log)
    return CCPPFrameworkEnv(log, ndict={"host_files": "", "scheme_files": "", "suites": ""},
                            kind_types=["kind_phys=REAL64", "kind_dyn=REAL32", "kind_host=REAL64"])


def judge(f):
    """-> ("accepted", object) | ("refused", None) | ("error", text)"""
    from parse_tools import CCPPError, ParseInternalError
    try:
        o = f()
    except ParseInternalError as e:
        return "error", "ParseInternalError: %s" % e
    except CCPPError:
        return "refused", None
    except Exception as e:  # noqa
        return "error", "%s: %s" % (type(e).__name__, e)
    return ("accepted", o) if o.compat else ("refused", None)


def transform_of(o):
    """The index transformation inside a compatibility object (whatever it is called there), or None"""
    for v in vars(o).values():
        if type(v).__name__ == "DimTransform" or (hasattr(v, "forward_transform") and hasattr(v, "reverse_transform")):
            return v
    return None


def decl_elements(dims):
    """Index tuples of the variable in one call of the run phase -> physical location"""
    axes = [DIMS[d] for d in dims]
    rng = []
    for a, how in axes:
        if a == "h" and how == "dim":
            rng.append([(i, i) for i in range(COL[0], COL[1] + 1)])
        elif a == "h":
            rng.append([(i, i + COL[0] - 1) for i in range(1, COL[1] - COL[0] + 2)])
        else:
            rng.append([(i, i) for i in range(1, EXT[a] + 1)])
    return [(tuple(x[0] for x in t), tuple(x[1] for x in t)) for t in itertools.product(*rng)]


def locations(axes, idx, flip, nflip):
    """All physical locations an element of this index can have: coordinates per axis name in order of occurrence"""
    seen, out = {}, {}
    for a, i in zip(axes, idx):
        n = seen.get(a, 0)
        seen[a] = n + 1
        out[(a, n)] = nflip - i + 1 if flip and a in "vi" else i
    return out


def check_dims(o, d1, d2, flip):
    """Execute the index transformations of o on all elements -> None or what is wrong"""
    ax1, ax2 = [DIMS[d][0] for d in d1], [DIMS[d][0] for d in d2]
    t = transform_of(o)
    if t is None:
        if [DIMS[d] for d in d1] != [DIMS[d] for d in d2] or o.has_dim_transforms:
            return "no index transformation for %s and %s" % (d1, d2)
        return None
    nk = EXT["v"] if "v" in ax1 else EXT["i"]
    names = ["i1", "j2", "k3", "l4"][:len(d1)]
    adj = any(DIMS[a][1] != DIMS[b][1] for a in d1 for b in d2 if DIMS[a][0] == DIMS[b][0] == "h")
    opts = [{"adjust_hdim": "cs"}] + ([] if adj else [{}])
    if flip:
        opts = [dict(x, flip_vdim="nk") for x in opts]
    for opt in opts:
        for fwd in (True, False):
            a, b, axa, axb = (d1, d2, ax1, ax2) if fwd else (d2, d1, ax2, ax1)
            txt = (t.forward_transform if fwd else t.reverse_transform)("lhs", tuple(names), **opt)
            m = re.match(r"^lhs\((.*)\)$", txt.strip())
            if not m:
                return "%s gives %s" % ("forward" if fwd else "reverse", txt)
            parts = m.group(1).split(",")
            if len(parts) != len(b):
                return "%s gives %s for rank %d" % ("forward" if fwd else "reverse", txt, len(b))
            code = compile("(" + m.group(1) + ",)", "idx", "eval")
            want = {i: loc for i, loc in decl_elements(b)}
            got = set()
            for idx, loc in decl_elements(a):
                env = dict(zip(names, idx), cs=COL[0], nk=nk)
                try:
                    new = eval(code, {}, env)
                except Exception as e:  # noqa
                    return "%s gives %s: %s" % ("forward" if fwd else "reverse", txt, e)
                if new not in want:
                    return "%s gives %s: element %s goes to %s, outside of the array" % ("forward" if fwd else "reverse", txt, idx, new)
                here = locations(axa, loc, False, nk)
                there = locations(axb, want[new], flip, nk)
                if here != there:
                    return "%s gives %s: element %s (at %s) goes to %s (at %s) for %s -> %s" % ("forward" if fwd else "reverse", txt, idx, here, new, there, a, b)
                got.add(new)
            if len(got) != len(want):
                return "%s gives %s: not every element is assigned" % ("forward" if fwd else "reverse", txt)
    return None


def run_dims(job):
    """One first list against all second lists"""
    sys.path.insert(0, os.path.join(mc.REPO, "scripts"))
    from var_props import VarCompatObj
    env = env_()
    firsts, lists = job
    out, n, outc = [], 0, {}

    def obj(d1, t1, d2, t2):
        return judge(lambda: VarCompatObj("std", "real", "kind_phys", "m", list(d1), "v1", t1, "std", "real", "kind_phys", "m", list(d2), "v2", t2, env))
    for d1 in firsts:
        for d2 in lists:
            same = sorted(DIMS[d][0] for d in d1) == sorted(DIMS[d][0] for d in d2)
            nv = sum(DIMS[d][0] in "vi" for d in d1)
            for flip in (False, True):
                if flip and (nv != 1 or not same):
                    continue
                n += 1
                key = "dims (%s) (%s)%s" % (",".join(d1), ",".join(d2), " flipped" if flip else "")
                st, o = obj(d1, False, d2, flip)
                outc[st] = outc.get(st, 0) + 1
                why = None
                if st == "error":
                    why = "the judgement fails: %s" % o
                elif (st == "accepted") != same:
                    why = "the pair is %s" % st
                elif st == "accepted":
                    eq = [DIMS[d][0] for d in d1] == [DIMS[d][0] for d in d2] and not flip
                    if bool(o.has_vert_transforms) != flip:
                        why = "has_vert_transforms is %s" % o.has_vert_transforms
                    elif not eq and (o.equiv or bool(o)):
                        why = "called equivalent (no transformation required)"
                    elif d1 == d2 and not flip and (not o.equiv or o.has_dim_transforms or o.has_kind_transforms or o.has_unit_transforms):
                        why = "not compatible with itself without transformation"
                    else:
                        try:
                            why = check_dims(o, d1, d2, flip)
                        except Exception as e:  # noqa
                            why = "the transformation fails: %s: %s" % (type(e).__name__, e)
                if why:
                    out.append((key, why))
    return out, n, outc


# ------------------------------------------------------------------ declarations

def decls(quick):
    """(type, kind, units, top_at_one, standard name, dimensions as in metadata)"""
    us = ["m", "km", "mm", "K", "C", "1", "none", "None", "kg kg-1", "g kg-1", "s", "min", "radian", "degree", "Pa", "hPa", "W m-2", "erg cm-2 s-1", "s-1", "m s-1", "km h-1"]
    out = []
    for u in us if quick else us + [x for x in U if x not in us]:
        for k in ("kind_phys", "kind_dyn", "kind_host") + (() if quick else ("REAL64", "REAL32")):
            out.append(("real", k, u, False, "std", "()"))
    for k in ("kind_phys", "kind_dyn"):
        for top in (False, True):
            for d in ("(horizontal_dimension, vertical_layer_dimension)", "(horizontal_loop_extent, vertical_layer_dimension)",
                      "(vertical_layer_dimension, horizontal_dimension)", "(horizontal_dimension)", "(horizontal_dimension, 3)"):
                for u in ("m", "km") if quick else ("m", "km", "K", "C"):
                    out.append(("real", k, u, top, "std", d))
    out += [("Real", "kind_phys", "m", False, "std", "()"), ("real", "kind_phys", "m", False, "other", "()")]
    out += [(t, "", "1", False, s, d) for t in ("integer", "logical", "Integer") for s in ("std", "other") for d in ("()", "(horizontal_dimension)")]
    out += [("character", k, "none", False, "std", d) for k in ("len=*", "len=8", "len=16", "LEN = 8", "len=:") for d in ("()", "(horizontal_dimension)")]
    return out


def spec(k):
    return KINDS.get(k, k)


def charlen(k):
    return "".join(k.split()).lower()


def std_dims(d):
    return [x.strip().replace("ccpp_constant_one:", "") for x in d.strip("() ").split(",") if x.strip()]


def convertible(a, b):
    return (a, b) in PROVIDED or (b, a) in PROVIDED


def expected(p, q):
    """-> None (refused), or (equivalent?, kind transform?, unit transform?) ; "free" where not prescribed"""
    if p[4] != q[4] or p[0].lower() != q[0].lower():
        return None
    t = p[0].lower()
    if t == "character":
        a, b = charlen(p[1]), charlen(q[1])
        if a != b and "len=*" not in (a, b):
            return None
    d1 = sorted(x.replace("horizontal_loop_extent", "horizontal_dimension") for x in std_dims(p[5]))
    d2 = sorted(x.replace("horizontal_loop_extent", "horizontal_dimension") for x in std_dims(q[5]))
    if d1 != d2:
        return None
    u1, u2 = ["none" if u.lower() == "none" else u for u in (p[2], q[2])]
    if u1 != u2:
        if t != "real":
            return "free"
        if not convertible(u1, u2):
            return "free" if u1 in U and u2 in U and U[u1][0] == U[u2][0] else None
    kt = t == "real" and spec(p[1]) != spec(q[1])
    o1, o2 = [[x.replace("horizontal_loop_extent", "horizontal_dimension") for x in std_dims(z[5])] for z in (p, q)]
    return (not kt and u1 == u2 and p[3] == q[3] and o1 == o2, kt, u1 != u2)


def arith(stmt, lvar, rvar, rank, val):
    """Execute 'l(..) = f(r(..))' with r(..) = val -> value of f, kinds mentioned"""
    l, _, r = stmt.partition("=")
    idx = "" if not rank else r"\s*\(\s*%s\s*\)" % r"\s*,\s*".join("n%d" % i for i in range(rank))
    if not re.match(r"^\s*%s%s\s*$" % (lvar, idx.replace("n", "l")), l):
        return None, "left side %r" % l
    r2, cnt = re.subn(r"\b%s\b%s" % (rvar, idx.replace("n", "r")), " VAL ", r)
    if cnt != 1:
        return None, "right side %r" % r
    kinds = set()

    def lit(m):
        if m.group(2):
            kinds.add(m.group(2)[1:])
        return m.group(1).replace("D", "E").replace("d", "e")
    r3 = re.sub(r"(?<![\w.])(\d+\.?\d*(?:[EeDd][+-]?\d+)?)(_[A-Za-z]\w*)?", lit, r2)

    def real(x, k=None):
        kinds.add(k)
        return x
    try:
        return eval(r3, {"__builtins__": {}}, dict({k: k for k in KINDS}, VAL=val, real=real, REAL=real)), kinds
    except Exception as e:  # noqa
        return None, "%s: %s" % (r, e)


def run_decls(job):
    sys.path.insert(0, os.path.join(mc.REPO, "scripts"))
    from metavar import Var
    from parse_tools import ParseContext, ParseSource
    env = env_()
    firsts, allp = job

    def var(p, ln):
        pd = {"local_name": ln, "standard_name": p[4], "units": p[2], "dimensions": p[5], "type": p[0], "intent": "in", "top_at_one": str(p[3])}
        if p[1]:
            pd["kind"] = p[1]
        return Var(pd, ParseSource("v", "SCHEME", ParseContext()), env)
    v1 = {p: var(p, "v1") for p in allp}
    v2 = {p: var(p, "v2") for p in allp}
    out, n, outc = [], 0, {}
    for p in firsts:
        for q in allp:
            n += 1
            st, o = judge(lambda: v1[p].compatible(v2[q], env))
            st2, o2 = judge(lambda: v1[q].compatible(v2[p], env))
            outc[st] = outc.get(st, 0) + 1
            try:
                why = pair(p, q, st, o, st2, o2)
            except Exception as e:  # noqa
                why = "the transformation fails: %s: %s" % (type(e).__name__, e)
            if why:
                out.append(("declarations %s %s" % (p, q), why))
    return out, n, outc


def pair(p, q, st, o, st2, o2):
    if st == "error" or st2 == "error":
        return "the judgement fails: %s" % (o if st == "error" else o2)
    if st != st2:
        return "%s, but %s when the declarations are swapped" % (st, st2)
    if p == q and (st != "accepted" or not o.equiv or o.has_kind_transforms or o.has_unit_transforms or o.has_vert_transforms or o.has_dim_transforms):
        return "not compatible with itself without transformation"
    e = expected(p, q)
    if e == "free":
        return None
    if (e is None) != (st == "refused"):
        return "the pair is %s" % st
    if e is None:
        return None
    for a in ("equiv", "has_kind_transforms", "has_unit_transforms", "has_vert_transforms"):
        if bool(getattr(o, a)) != bool(getattr(o2, a)):
            return "%s depends on the order of the declarations" % a
    if p[0].lower() != "real":
        return None
    if bool(o.equiv) != e[0] or bool(o.has_kind_transforms) != e[1] or bool(o.has_unit_transforms) != e[2] or bool(o.has_vert_transforms) != (p[3] != q[3]):
        return "equivalent %s, kind %s, units %s, orientation %s" % (o.equiv, o.has_kind_transforms, o.has_unit_transforms, o.has_vert_transforms)
    u1, u2 = ["none" if u.lower() == "none" else u for u in (p[2], q[2])]
    rank = len(std_dims(p[5]))
    li, ri = tuple("l%d" % i for i in range(rank)), tuple("r%d" % i for i in range(rank))
    for x in (0., 1., -40., 273.15, 98765.4321):
        f, k1 = arith(o.forward_transform("lv", "rv", ri, li), "lv", "rv", rank, x)
        if f is None:
            return "forward: %s" % k1
        w = (x * U[u1][1] + U[u1][2] - U[u2][2]) / U[u2][1] if u1 != u2 else x
        if abs(f - w) > 1e-9 * max(abs(w), abs(x), 1e-3 if u1 == u2 else 0):
            return "forward: %s %s becomes %s %s, should be %s" % (x, u1, f, u2, w)
        b, k2 = arith(o.reverse_transform("lv", "rv", ri, li), "lv", "rv", rank, f)
        if b is None:
            return "reverse: %s" % k2
        if abs(b - x) > 1e-9 * max(abs(x), 1.):
            return "reverse: %s comes back as %s" % (x, b)
        if any(spec(k) != spec(q[1]) for k in k1):
            return "forward: computes in kind %s, the target has %s" % (k1, q[1])
        if any(spec(k) != spec(p[1]) for k in k2):
            return "reverse: computes in kind %s, the target has %s" % (k2, p[1])
        if e[1] and (not k1 or not k2):
            return "no kind conversion in the statement"
    return None


def go(job):
    return (run_dims if job[0] == "dims" else run_decls)(job[1:])


def main():
    ck = mc.Check("C23", "exploration")
    names = list(DIMS)
    if ck.quick:
        names = [n for n in names if n not in ("ccpp_constant_one:horizontal_dimension", "vertical_layer_dimension", "ccpp_constant_one:ydim", "horizontal_loop_extent", "xdim")]
    lists = [()] + [t for r in (1, 2, 3) for t in itertools.product(names, repeat=r) if sum(DIMS[d][0] == "h" for d in t) < 2]
    jobs = [("dims", c, lists) for c in mc.chunks(lists, max(1, len(lists) // 32))]
    # rank 4: every pair of orders of the same axes
    four = {}
    for t in itertools.product([x for x in names if x not in ("vertical_layer_dimension", "ccpp_constant_one:ydim")], repeat=4):
        if sum(DIMS[d][0] == "h" for d in t) < 2:
            four.setdefault(tuple(sorted(DIMS[d][0] for d in t)), []).append(t)
    jobs += [("dims", c, l) for l in four.values() for c in mc.chunks(l, max(1, 200000 // (len(l) * 20)))]
    ds = decls(ck.quick)
    jobs += [("decls", c, ds) for c in mc.chunks(ds, max(1, len(ds) // 16))]
    n = 0
    for job, res in zip(jobs, mc.pmap(go, jobs)):
        if isinstance(res, mc.Crash):
            ck.violation("machinery %s %s" % (job[0], job[1][:1]), "the judgement could not be run: %s" % res)
            continue
        out, m, outc = res
        n += m
        for k, v in outc.items():
            for _ in range(v):
                ck.outcome(job[0] + " " + k)
        for key, why in out[:40]:
            ck.violation(key, why)
    ck.sample("dims %s x %s" % (lists[len(lists) // 2], lists[-1]))
    ck.finish(evaluations=n, distinct_nontrivial=n, exhaustive=True)


if __name__ == "__main__":
    main()
