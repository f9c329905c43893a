"""Shared machinery: check life cycle, evidence, known findings, parallel forked execution."""
import atexit
import fnmatch
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("MC_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "scripts")
NPROC = int(os.environ.get("MC_NPROC", "8"))

sys.dont_write_bytecode = True
for _p in (SCRIPTS, os.path.join(SCRIPTS, "parse_tools"), os.path.join(SCRIPTS, "fortran_tools")):
    if _p not in sys.path:
        sys.path.insert(1, _p)

_SCRATCH = None
_SCRATCH_PID = None


def scratch():
    """One scratch directory per check process, removed at exit."""
    global _SCRATCH, _SCRATCH_PID
    if _SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > (2 << 30) else None
        _SCRATCH = tempfile.mkdtemp(prefix="ccppmc_", dir=base)
        _SCRATCH_PID = os.getpid()
        atexit.register(_cleanup)
    return _SCRATCH


def _cleanup():
    if _SCRATCH and os.getpid() == _SCRATCH_PID:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def newdir(tag="d"):
    return tempfile.mkdtemp(prefix=tag + "_", dir=scratch())


def rmdir(path):
    path = os.path.abspath(path)
    assert path.startswith(scratch() + os.sep), path
    shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------- forked execution
class Crash(Exception):
    """The forked child ended without a result."""


def forked(func, *args, timeout=120):
    """Run func(*args) in a forked child and return its result; exceptions are re-raised as
    (kind, text) tuples by the caller's own wrapper: here any exception in func propagates as Crash."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            try:
                res = ("ok", func(*args))
            except BaseException:  # noqa
                res = ("exc", traceback.format_exc())
            data = pickle.dumps(res)
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        except BaseException:  # noqa
            code = 3
        os._exit(code)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Crash("child ended with status %d (timeout %ds?)" % (status, timeout))
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise Crash(val)
    return val


def _worker(func, inq, outq):
    while True:
        item = inq.get()
        if item is None:
            return
        idx, arg = item
        try:
            outq.put((idx, "ok", func(arg)))
        except BaseException:  # noqa
            outq.put((idx, "exc", traceback.format_exc()))


def pmap(func, items, nproc=None):
    """Parallel map over forked workers, order preserved; an exception in func is an error of the
    machinery and is raised."""
    items = list(items)
    nproc = min(nproc or NPROC, max(1, len(items)))
    scratch()
    if nproc == 1 or len(items) == 1:
        return [func(i) for i in items]
    ctx = mp.get_context("fork")
    inq, outq = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=_worker, args=(func, inq, outq), daemon=True) for _ in range(nproc)]
    for p in procs:
        p.start()
    for i, it in enumerate(items):
        inq.put((i, it))
    for _ in procs:
        inq.put(None)
    res = [None] * len(items)
    got = 0
    errs = []
    while got < len(items):
        try:
            idx, kind, val = outq.get(timeout=20)
        except Exception:
            if not any(p.is_alive() for p in procs):
                raise RuntimeError("worker processes died")
            if any(p.exitcode not in (None, 0) for p in procs):
                raise RuntimeError("a worker process died: %s" % [p.exitcode for p in procs])
            continue
        got += 1
        if kind == "exc":
            errs.append(val)
        res[idx] = val
    for p in procs:
        p.join()
    if errs:
        raise RuntimeError("machinery error in worker:\n" + errs[0])
    return res


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def run(cmd, cwd=None, timeout=300, inp=None, env=None):
    """Run a command, return (rc, stdout+stderr)."""
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           input=inp, timeout=timeout, env=env, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return 124, out + "\n[timeout]"


# ---------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, level="exploration"):
        self.id = pid
        self.level = level
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        argv = sys.argv[1:]
        self.replay_file = None
        while argv:
            a = argv.pop(0)
            if a == "--tier":
                tier = argv.pop(0)
            elif a == "--replay":
                self.replay_file = argv.pop(0)
            elif a in ("quick", "thorough"):
                tier = a
        self.tier = tier if tier in ("quick", "thorough") else "quick"
        self.quick = self.tier == "quick"
        self.cov = {}
        self.samples = []
        self.viol = {}          # key -> (what, replay dict)
        self.assumptions = []
        self.outcomes = {}
        self.known = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.strip()
                if line.startswith("known: property=%s " % pid):
                    body = line[len("known: property=%s " % pid):]
                    key, _, what = body.partition(" | ")
                    assert key.startswith("key=")
                    self.known.append([key[4:].strip(), what.strip(), 0])

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, s, limit=5):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, replay=None):
        """Record a violation; `key` is the canonical identification of the failing case."""
        if key not in self.viol:
            self.viol[key] = (what, replay)

    def finish(self, **cov):
        self.cov.update(cov)
        self.cov.setdefault("samples", self.samples or ["(none)"])
        if self.outcomes:
            self.cov["outcomes"] = dict(sorted(self.outcomes.items()))
        unknown = []
        for key, (what, replay) in self.viol.items():
            for ent in self.known:
                if fnmatch.fnmatchcase(key, ent[0]):
                    ent[2] += 1
                    break
            else:
                unknown.append((key, what, replay))
        for key, what, n in self.known:
            if n:
                print("KNOWN-FINDING: property=%s %s [%d case(s), %s]" % (self.id, what, n, key))
            else:
                print("note: known finding not seen in this run: %s" % key)
        self.cov["known_finding_cases"] = sum(e[2] for e in self.known)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unknown)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s %s: %s" % (self.id, self.tier, json.dumps(
            {k: v for k, v in self.cov.items() if k not in ("samples", "rule")}, default=str)[:1500]))
        rdir = os.path.join(VERIF, "replay")
        if os.path.isdir(rdir) and not self.replay_file:
            for f in os.listdir(rdir):      # files of an earlier run
                if f.startswith(self.id + "_"):
                    os.unlink(os.path.join(rdir, f))
        if unknown:
            os.makedirs(rdir, exist_ok=True)
            with open(os.path.join(rdir, self.id + "_all.txt"), "w") as f:
                for key, what, replay in unknown:
                    f.write("---- %s\n%s\n" % (key, what[:1500]))
            for key, what, replay in unknown[:10]:
                h = hashlib.sha1(key.encode()).hexdigest()[:10]
                rp = os.path.join(rdir, "%s_%s.json" % (self.id, h))
                with open(rp, "w") as f:
                    json.dump({"property": self.id, "key": key, "what": what, "case": replay}, f,
                              indent=1, default=str)
                print("---- %s\n%s" % (key, what[:2500]))
                print("VIOLATION property=%s replay=%s" % (self.id, rp))
            if len(unknown) > 10:
                print("... and %d more violating cases" % (len(unknown) - 10))
            sys.stdout.flush()
            _cleanup()
            sys.exit(1)
        sys.stdout.flush()
        sys.exit(0)
