#!/usr/bin/python3
"""tools/unfix.py [HASH ...]: reverts each fix recorded in known_findings.txt in a scratch clone and shows that its property's check reports it again."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
fixes = [re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open("/verif/known_findings.txt") if l.startswith("fixed:")]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(f):
    pid, h, what = f
    d = tempfile.mkdtemp(prefix="verif-unfix-", dir="/tmp")
    try:
        sh(f"git clone -q {REPO} {d}/r")
        g = sh(f"git -c user.name=a -c user.email=a@a revert --no-edit {h}", cwd=d + "/r")
        if g.returncode:
            return f"CONFLICT {pid} {h} {what[:70]}"
        r = sh(f"python3 /verif/run.py {pid}", env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_JOBS="4"))
        last = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "CHECK-ERROR", "  message", "HARNESS"))]
        return f"{'reported' if r.returncode == 1 else 'NOT REPORTED exit %d' % r.returncode} {pid} {h} {what[:70]} | {' '.join(last)[:160] or r.stdout[-200:]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


want = [f for f in fixes if len(sys.argv) == 1 or f[1] in sys.argv[1:]]
with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "3"))) as ex:
    for line in ex.map(one, want):
        print(line, flush=True)
