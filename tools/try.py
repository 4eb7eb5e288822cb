#!/usr/bin/python3
"""tools/try.py PROPERTY FILE OLD NEW [COUNT]: runs a check against a scratch copy of /repo with OLD replaced by NEW."""
import os
import shutil
import subprocess
import sys
import tempfile
pid, path, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="verif-try-", dir="/tmp")
try:
    for sub in ("include", "src", "scripts"):
        if os.path.isdir(os.environ.get("VERIF_REPO", "/repo") + "/" + sub):
            shutil.copytree(os.environ.get("VERIF_REPO", "/repo") + "/" + sub, d + "/" + sub, symlinks=True)
    s = open(d + "/" + path).read()
    if s.count(old) <= nth:
        sys.exit(f"pattern occurs {s.count(old)} times")
    i = -1
    for _ in range(nth + 1):
        i = s.index(old, i + 1)
    open(d + "/" + path, "w").write(s[:i] + new + s[i + len(old):])
    r = subprocess.run(["python3", "/verif/run.py", pid], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    for l in r.stdout.split("\n"):
        if l.startswith(("VIOLATION", "CHECK-ERROR", "  message", "KNOWN", "HARNESS")) or "error:" in l:
            print(l[:400])
    print("exit", r.returncode, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "ERROR")
finally:
    shutil.rmtree(d, ignore_errors=True)
