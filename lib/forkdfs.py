"""Exhaustive depth-first exploration of call sequences on a compiled program: the process is forked
before every call, so each sequence is executed on real code with all hidden state."""
import os
import subprocess

INTERFACES = """  interface
    integer(c_int) function c_fork() bind(c,name='fork')
      import
    end function
    integer(c_int) function c_waitpid(pid, st, opt) bind(c,name='waitpid')
      import
      integer(c_int), value :: pid, opt
      integer(c_int) :: st
    end function
    subroutine c_exit(code) bind(c,name='_exit')
      import
      integer(c_int), value :: code
    end subroutine
    integer(c_int) function c_alarm(n) bind(c,name='alarm')
      import
      integer(c_int), value :: n
    end function
  end interface
"""

BODY = """  recursive subroutine dfs(d, dmax, nops)
    integer, intent(in) :: d, dmax, nops
    integer :: op
    integer(c_int) :: pid, st, rc
    do op = 1, nops
      flush(6)
      pid = c_fork()
      if (pid == 0) then
        write(6,'(a,i0,1x,i0)') 'D ', d, op
        flush(6)
        rc = c_alarm(20_c_int)
        call do_op(op)
        rc = c_alarm(0_c_int)
        flush(6)
        if (d < dmax) call dfs(d+1, dmax, nops)
        flush(6)
        call c_exit(0_c_int)
      end if
      rc = c_waitpid(pid, st, 0_c_int)
      if (st /= 0) then
        write(6,'(a,i0)') 'X ', st
        flush(6)
      end if
    end do
  end subroutine dfs
"""


def walk(exe, cwd, stdin, on_node, timeout=600):
    """Run exe; on_node(path, lines, died) for every explored node (path = list of op numbers).
    Returns (nodes, prefix lines, rc)."""
    p = subprocess.run([exe], cwd=cwd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    path, cur, pre, n = [], None, [], 0
    pend = None

    def flush(died=False):
        nonlocal pend, n
        if pend is not None:
            n += 1
            on_node(pend[0], pend[1], died)
        pend = None
    for ln in p.stdout.splitlines():
        if ln.startswith("D "):
            flush()
            _, d, op = ln.split()
            d, op = int(d), int(op)
            path = path[:d - 1] + [op]
            pend = (list(path), [])
        elif ln.startswith("X "):
            flush(True)
        elif pend is not None:
            pend[1].append(ln)
        else:
            pre.append(ln)
    flush()
    return n, pre, p.returncode
