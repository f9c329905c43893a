#!/usr/bin/env python3
"""Make or test planted bugs.

seed.py new ID PROP FILE          (stdin: json {"old":..., "new":..., "needs":..., "what":...}; several edits: "edits":[[file,old,new],...])
seed.py test ID [check ...]       apply to /repo, build, baseline tests, demo, checks; undo; demo on the clean tree
"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
if R != "/repo":
    os.environ["MC_REPO"] = R


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % R)
    sh("find %s/scripts -name '*.pyc' -delete" % R)
    assert not sh("git -C %s status --short" % R).stdout.strip()


def test(i, checks, base=True):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    res = [i]
    r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
    res.append("clean demo rc %d%s" % (r.returncode, "" if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-1500:]))
    r = sh("git -C %s apply %s/patch.diff" % (R, d))
    if r.returncode:
        return print(i, "patch does not apply", r.stderr)
    sh("find %s/scripts -name '*.pyc' -delete" % R)
    try:
        if R == "/repo":
            r = sh("bash /opt/vp/build.sh")
            res.append("build rc %d%s" % (r.returncode, r.stderr[-500:] if r.returncode else ""))
        if base and R == "/repo":
            res.append(sh(V + "/tools/basetest.sh").stdout.strip())
        elif base:
            env = "PYTHONPATH=%s/scripts:%s/scripts/parse_tools PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 " % (R, R)
            pt = env + "/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
            for cmd in ("cd %s; %s test/" % (R, pt), "cd %s; %s scripts/ --doctest-modules" % (R, pt), "cd %s/test_prebuild; %s" % (R, pt)):
                res.append(sh(cmd).stdout.strip().split("\n")[-1])
            sh("git -C %s clean -fdq" % R)
        r = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
        res.append("patched demo rc %d %s" % (r.returncode, (r.stdout + r.stderr)[-200:].strip()))
        for c in checks or [prop.lower()]:
            p = V + "/checks/%s.py" % c
            if os.path.exists(p):
                r = sh("VERIF_SEED=1 python3 %s quick" % p, cwd=V, timeout=1200)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res.append("CHECK %s rc %d %s" % (c, r.returncode, v[:1]))
    finally:
        clean()
    if R == "/repo":
        sh("bash /opt/vp/build.sh")
    print(" | ".join(res))


def new(i, prop, f):
    j = json.load(sys.stdin)
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    clean()
    edits = j.get("edits") or [[f, j["old"], j["new"]]]
    try:
        for fn, old, nw in edits:
            s = open(os.path.join(R, fn)).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(os.path.join(R, fn), "w").write(s.replace(old, nw))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    finally:
        clean()
    json.dump({"property": prop, "needs": j["needs"], "what_it_breaks": j["what"]}, open(d + "/meta.json", "w"), indent=1)


if sys.argv[1] == "new":
    new(*sys.argv[2:5])
else:
    a = sys.argv[2:]
    base = "--nobase" not in a
    a = [x for x in a if x != "--nobase"]
    test(a[0], a[1:], base)
