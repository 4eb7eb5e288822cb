#!/usr/bin/python3
"""Self-test of the explorers (setup_cmd): a complete tree is enumerated completely and every kind of failure is found."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__)) + "/.."
d = tempfile.mkdtemp(prefix="verif-selftest-", dir="/tmp")
try:
    subprocess.check_call(["g++", "-std=c++14", "-O1", "-w", "-fsanitize=address", f"-I{HERE}/harness",
                           f"{HERE}/harness/selftest.cpp", "-o", f"{d}/t", "-lpthread"])

    def go(mode, *extra):
        env = dict(os.environ, SELFTEST=mode, ASAN_OPTIONS="detect_leaks=0:exitcode=99")
        os.makedirs(f"{d}/w", exist_ok=True)
        rc = subprocess.run([f"{d}/t", "--out", f"{d}/o.json", "--dir", f"{d}/w", "--hang", "2", *extra], env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode
        return rc, json.load(open(f"{d}/o.json"))

    rc, o = go("")
    ex = {s["name"]: (s["executions"], s["states"]) for s in o["scenarios"]}
    assert rc == 0 and ex == {"tree": (28, 24), "failing": (12, 12), "isolated": (12, 12)}, (rc, ex)
    for mode in ("check", "abort", "throw", "assert", "overflow", "hang"):
        rc, o = go(mode)
        assert rc == 1 and o["violation"]["scenario"] == "failing" and o["violation"]["script"] == [1, 2], (mode, rc, o)
    rc, o = go("known")
    assert rc == 1 and o["violation"]["key"] == "K1"
    rc, o = go("known", "--known", "K1")
    assert rc == 0 and o["known_hits"] == ["K1"]
finally:
    shutil.rmtree(d, ignore_errors=True)
if os.path.exists(f"{HERE}/py/selftest.py"):
    subprocess.check_call([sys.executable, "-B", f"{HERE}/py/selftest.py"])
print("self-test passed")
