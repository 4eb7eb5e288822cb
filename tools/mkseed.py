#!/usr/bin/python3
"""tools/mkseed.py SPEC.py [ID ...]: writes and confirms planted bugs.

SPEC.py defines SEEDS: id -> dict(prop, edits=[(file, old, new)], needs, breaks, demo="C++ text" or py="Python text", build="extra g++ arguments").
A bug is kept only if its demonstration succeeds on /repo, fails with the patch, and the patched tree builds and passes the stable tests.
The tests run in /repo itself with the patch applied and undone straight afterwards."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

spec = runpy.run_path(sys.argv[1])["SEEDS"]
want = sys.argv[2:] or list(spec)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for sid in want:
    s = spec[sid]
    out = "/verif/seeded/" + sid
    d = tempfile.mkdtemp(prefix="verif-seed-", dir="/tmp")
    try:
        sh(f"git -C /repo archive HEAD | tar x -C {d}")
        sh("git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x", cwd=d)
        base = sh("git -C /repo show 1ac6bd7:%s" % s["edits"][0][0])
        for f, old, new in s["edits"]:
            t = open(d + "/" + f).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            open(d + "/" + f, "w").write(t.replace(old, new))
        patch = sh("git diff", cwd=d).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(patch)
        if "demo" in s:
            open(out + "/demo.cpp", "w").write(s["demo"])
            run = ('d=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\n'
                   'g++ -std=c++14 -g -w -I include -I /usr/include/eigen3 "$here/demo.cpp" %s -o "$d/demo" -lz -lboost_filesystem -lboost_system -lpthread || exit 3\n'
                   'cd "$d"\ntimeout 120 ./demo\n' % s.get("build", ""))
        else:
            open(out + "/demo.py", "w").write(s["py"])
            run = ('d=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nrepo=$PWD\ncd "$d"\n'
                   'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$repo/src" timeout 120 /usr/bin/python3 "$here/demo.py"\n')
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# Exit 0 if the property holds in the demonstrated case. Run in the repository.\nhere=$(cd "$(dirname "$0")" && pwd)\n' + run)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = sh(f"bash {out}/demo.sh", cwd="/repo")
        b = sh(f"bash {out}/demo.sh", cwd=d)
        ok = a.returncode == 0 and b.returncode not in (0, 3)
        print(sid, "demo unchanged:", a.returncode, "patched:", b.returncode, (b.stdout.strip().splitlines() or [""])[-1][:150], flush=True)
        if not ok:
            print(a.stdout[-800:], b.stdout[-800:])
            continue
        c = sh(f"git -C /repo apply {out}/patch.diff && bash /opt/vp/test.sh {d}/t.json; git -C /repo checkout -- .")
        t = json.load(open(d + "/t.json"))
        miss = stable - set(t["passed"])
        print(sid, "tests", "ok" if not miss else miss, flush=True)
        if miss:
            print(c.stdout[-500:])
    finally:
        shutil.rmtree(d)
sh("bash /opt/vp/build.sh")
