"""C11: the Fortran hash table is a faithful map.

Every sequence of operations (add of colliding, equal, blank-padded and integer keys, clear, initialise
with several sizes) up to a depth is executed on the compiled ccpp_hash_table module by forking before each
operation; after every operation everything observable (initialised flag, count, lookup of every key, full
iteration) is compared with a dictionary model."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import forkdfs

# objects: (kind, key text)
OBJ = [("c", "a"), ("c", "b"), ("c", "ab"), ("c", "a  "), ("i", "7"), ("c", "7"), ("c", " a"),
       ("c", "air_temperature"), ("c", "air_temperaturf"), ("c", "A")]
PROBE = ["a", "b", "ab", "a     ", "7", " a", "air_temperature", "air_temperaturf", "A", "zz", "ba"]


def driver(ops):
    src = """program drv
  use, intrinsic :: iso_c_binding
  use ccpp_hashable
  use ccpp_hash_table
  implicit none
%s
  type holder
    class(ccpp_hashable_t), pointer :: p => null()
  end type
  type(holder) :: obj(%d)
  type(ccpp_hashable_char_t), pointer :: cp
  type(ccpp_hashable_int_t), pointer :: ip
  type(ccpp_hash_table_t), target :: tbl
  integer :: npre, i, dmax, pre(64)
%s
  read(5,*) npre, (pre(i),i=1,npre), dmax
  do i=1,npre
    call do_op(pre(i))
  end do
  write(6,'(a)') 'P end'
  call dfs(1, dmax, %d)
  flush(6)
contains
%s
  subroutine do_op(op)
    integer, intent(in) :: op
    character(len=256) :: errmsg
    errmsg = ''
    select case(op)
%s
    end select
    write(6,'(2a)') 'E ', trim(errmsg)
    call observe()
  end subroutine do_op
  integer function ident(p)
    class(ccpp_hashable_t), pointer :: p
    integer :: j
    ident = 0
    if (.not. associated(p)) return
    do j = 1, size(obj)
      if (associated(p, obj(j)%%p)) ident = j
    end do
    if (ident == 0) ident = -1
  end function ident
  subroutine observe()
    type(ccpp_hash_iterator_t) :: it
    class(ccpp_hashable_t), pointer :: p
    character(len=256) :: errmsg
    integer :: n
    write(6,'(a,l1,1x,i0)') 'I ', tbl%%is_initialized(), tbl%%num_values()
%s
    call it%%initialize(tbl)
    n = 0
    do
      if (.not. it%%valid()) exit
      n = n + 1
      if (n > 50) then
        write(6,'(a)') 'K too many'
        exit
      end if
      p => it%%value()
      write(6,'(a,i0,4a)') 'K ', ident(p), ' [', it%%key(), ']'
      call it%%next()
    end do
    p => it%%value()
    if (ident(p) /= 0 .or. len(it%%key()) /= 0) write(6,'(a)') 'K value after the end'
    call it%%next()
    if (it%%valid()) write(6,'(a)') 'K valid after the end'
  end subroutine observe
end program drv
"""
    mk = []
    for i, (k, t) in enumerate(OBJ):
        if k == "c":
            mk += ["  nullify(cp)", "  call new_hashable_char('%s', cp)" % t, "  obj(%d)%%p => cp" % (i + 1)]
        else:
            mk += ["  nullify(ip)", "  call new_hashable_int(%s, ip)" % t, "  obj(%d)%%p => ip" % (i + 1)]
    cs = []
    for i, op in enumerate(ops):
        cs.append("    case(%d)" % (i + 1))
        if op[0] == "add":
            cs.append("      call tbl%%add_hash_key(obj(%d)%%p, errmsg)" % (op[1] + 1))
        elif op[0] == "addq":
            cs.append("      if (tbl%%is_initialized()) call tbl%%add_hash_key(obj(%d)%%p)" % (op[1] + 1))
        elif op[0] == "clear":
            cs.append("      call tbl%clear()")
        else:
            cs.append("      call tbl%%initialize(%d%s)" % (op[1], "" if len(op) < 3 else ", %d" % op[2]))
    ob = []
    for k in PROBE:
        ob += ["    errmsg = 'junk'", "    p => tbl%%table_value('%s', errmsg)" % k,
               "    write(6,'(a,i0,1x,l1)') 'L ', ident(p), len_trim(errmsg) > 0",
               "    if (tbl%%is_initialized()) then",
               "      p => tbl%%table_value('%s')" % k,
               "      write(6,'(a,i0)') 'M ', ident(p)", "    end if"]
        ob = [o.replace("%%", "%") for o in ob]
    return src % (forkdfs.INTERFACES, len(OBJ), "\n".join(mk), len(ops), forkdfs.BODY, "\n".join(cs), "\n".join(ob))


def step(state, op):
    """state: None (not initialised) or dict key -> object number; returns (state, error expected)."""
    if op[0] == "clear":
        return None, False
    if op[0] == "init":
        return {}, False
    key = OBJ[op[1]][1].rstrip()
    if state is None or key in state:
        return state, op[0] == "add"
    new = dict(state)
    new[key] = op[1] + 1
    return new, False


def compare(state, lines, err):
    e = [l for l in lines if l.startswith("E")]
    if not e:
        return "the program ended: %s" % lines[:4]
    if bool(e[0][2:].strip()) != err:
        return "error %s, got message '%s'" % ("expected" if err else "not expected", e[0][2:])
    i = [l for l in lines if l.startswith("I ")]
    want = "I %s %d" % ("F" if state is None else "T", len(state or {}))
    if i != [want]:
        return "expected '%s' got %s" % (want, i)
    ls = [l for l in lines if l.startswith("L ")]
    for k, l in zip(PROBE, ls):
        v = (state or {}).get(k.rstrip(), 0)
        if l != "L %d %s" % (v, "F" if v else "T"):
            return "lookup of '%s': expected object %d, got %s" % (k, v, l)
    ms = [int(l[2:]) for l in lines if l.startswith("M ")]
    if state is not None and ms != [state.get(k.rstrip(), 0) for k in PROBE]:
        return "lookups without errmsg: %s" % ms
    if len(ls) != len(PROBE):
        return "lookups did not complete: %s" % lines[-3:]
    ks = sorted(l[2:] for l in lines if l.startswith("K "))
    wk = sorted("%d [%s]" % (v, OBJ[v - 1][1]) for v in (state or {}).values())
    if ks != wk:
        return "iteration gave %s, expected %s" % (ks, wk)
    return None


def build(d, ops):
    with open(os.path.join(d, "drv.F90"), "w") as f:
        f.write(driver(ops))
    src = os.path.join(mc.REPO, "src")
    return mc.run(["gfortran", "-O0", "-fcheck=bounds,pointer,mem", "-w", "-ffree-line-length-none", "-o", "drv",
                   os.path.join(src, "ccpp_hashable.F90"), os.path.join(src, "ccpp_hash_table.F90"), "drv.F90"], cwd=d)


def work(arg):
    label, d, ops, pre, depth = arg
    viol, edges = [], set()
    states = {0: None}
    for k in pre:
        states[0], _ = step(states[0], ops[k - 1])

    def on_node(path, lines, died):
        s = states[len(path) - 1]
        op = ops[path[-1] - 1]
        new, err = step(s, op)
        states[len(path)] = new
        edges.add((repr(s), path[-1]))
        what = compare(new, lines, err)
        if what and len(viol) < 10:
            viol.append(("%s: %s" % (label, "; ".join(" ".join(map(str, ops[k - 1])) for k in list(pre) + path)), what))
    try:
        n, pl, rc = forkdfs.walk(os.path.join(d, "drv"), d, "%d %s %d\n" % (len(pre), " ".join(map(str, pre)), depth),
                                 on_node, timeout=700)
    except Exception as e:  # noqa
        return [("%s prefix %s" % (label, pre), "did not finish: %s" % str(e)[:300])], 0, edges
    exp = sum(len(ops) ** k for k in range(1, depth + 1))
    if n != exp and not viol:
        viol.append(("%s prefix %s" % (label, pre), "explored %d of %d: %s" % (n, exp, pl[-5:])))
    return viol, n, edges


def main():
    ck = mc.Check("C11", "model_checking")
    q = ck.quick
    A = [("add", 0), ("add", 1), ("add", 2), ("add", 3), ("clear",), ("init", 0), ("init", 2)]
    B = [("add", 4), ("add", 5), ("add", 7), ("add", 8), ("addq", 4), ("init", 1, 3), ("clear",)]
    C = [("add", i) for i in (0, 1, 2, 6, 9, 4, 7, 8)] + [("addq", 3)]
    jobs = []
    dirs = []
    for label, ops, pres, depth in [("maps", A, [()], 6 if q else 7), ("kinds", B, [(), (6,)], 4 if q else 6),
                                    ("fill0", C + [("init", 0)], [(10,)], 4 if q else 5),
                                    ("fill1", C + [("init", 1)], [(10,)], 4 if q else 5),
                                    ("fill6", C + [("init", 6)], [(10,)], 4 if q else 5),
                                    ("fillmax", C + [("init", 10, 0)], [(10,)], 4)]:
        d = mc.newdir("c11")
        dirs.append(d)
        rc, txt = build(d, ops)
        if rc:
            ck.violation("%s compile" % label, txt[:1500])
            continue
        for p in pres:
            jobs.append((label, d, ops, p, 1))
            jobs += [(label, d, ops, p + (k,), depth - 1) for k in range(1, len(ops) + 1)]
    # the hang of an iterator is an infinite loop: bound every exploration in time by walk's timeout
    nodes, edges = 0, set()
    for j, (viol, n, e) in zip(jobs, mc.pmap(work, jobs)):
        nodes += n
        ck.outcome(j[0], n)
        edges |= set((j[0], s, k) for s, k in e)
        for key, what in viol:
            ck.violation(key, what)
    ck.sample("init 0; add a; add b; add ab; add 'a  ' -> error, iteration visits a, b, ab once each")
    ck.finish(states=len(set((a, b) for a, b, _ in edges)), transitions=len(edges), exhaustive=True,
              traces_validated_against_impl=nodes)


main()
