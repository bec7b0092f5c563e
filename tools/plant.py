#!/usr/bin/env python3
"""plant.py DIR.py : create /verif/seeded/<id>/ from a bug description and confirm it.

The description is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS (list of
(file, old, new)) and DEMO (python source using tools/fakeport.py as `fakeport`).
plant.py --check ID...  re-confirms (patch applies, tests pass, demo 0 / non-zero, check result).
"""
import json, os, shutil, subprocess, sys

V = "/verif"
R = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(d):
    tmp = "/tmp/plantdemo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    try:
        return sh("timeout 300 bash %s/demo.sh" % tmp, cwd=R)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(i, checks=None):
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    r0 = demo(d)
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr)
        return
    try:
        t = sh("bash /opt/vp/test.sh /tmp/plant_tests.json")
        b = sh("python3 - <<'P'\nimport json\nb=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/plant_tests.json'))\nprint(json.dumps(r)[:0])\nP")
        r1 = demo(d)
        props = checks or [meta["property"]]
        out = []
        for p in props:
            c = sh("python3 run.py %s" % p, cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append("%s rc=%d viol=%d %s" % (p, c.returncode, len(v), (v[0].split("replay=")[1][:90] if v else c.stdout[-300:])))
    finally:
        sh("git -C %s checkout -- ." % R)
    tl = [l for l in t.stdout.splitlines() if "passed" in l or "failed" in l]
    print("%s: demo clean=%d patched=%d | tests: %s" % (i, r0.returncode, r1.returncode, tl[-1:] or t.stdout[-300:]))
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
    if "-v" in sys.argv: print(r1.stdout[-800:], r1.stderr[-1500:])
    for o in out:
        print("    ", o)
    sys.stdout.flush()


def make(path):
    g = {}
    exec(compile(open(path).read(), path, "exec"), g)
    d = "%s/seeded/%s" % (V, g["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
    try:
        for f, old, new in g["EDITS"]:
            p = "%s/%s" % (R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % R).stdout
    finally:
        sh("git -C %s checkout -- ." % R)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(g["DEMO"].lstrip("\n"))
    shutil.copy(V + "/tools/fakeport.py", d + "/fakeport.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]},
              open(d + "/meta.json", "w"), indent=1)
    return g["ID"]


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a != "-v"]
    if args[0] == "--check":
        for i in args[1:] or sorted(os.listdir(V + "/seeded")):
            confirm(i)
    else:
        for a in args:
            confirm(make(a))
