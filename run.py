#!/usr/bin/python3
"""Runs the check of one property:  run.py <PROPERTY>  [--only SCENARIO] [--replay FILE] [--keep]

Builds the property's explorers from /repo's current working tree in a scratch directory, runs them, writes
evidence/<PROPERTY>.json and prints KNOWN-FINDING / VIOLATION lines. Exit 0: held. 1: violated. 2: the check failed.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = ["g++", "-std=c++14", "-O1", "-g1", "-w", "-include", "bits/stdc++.h", "-include", "sys/types.h",
       "-I", f"{HERE}/harness", "-I", f"{REPO}/include", "-isystem", "/usr/include/eigen3"]


def known_keys(pid):
    keys = []
    path = f"{HERE}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: ") and f"property={pid} " in line + " ":
                d = dict(t.split("=", 1) for t in line[7:].split(" ", 2)[:2])
                keys.append((d["key"], line.split(" ", 3)[3] if line.count(" ") >= 3 else ""))
    return keys


def build(unit, scratch, log):
    """Compile all objects of the unit in parallel, then link."""
    san = unit.get("san", ["-fsanitize=address"])
    flags = CXX + san + unit.get("cflags", [])
    srcs = [f"{HERE}/harness/{s}" for s in unit["src"]] + [f"{REPO}/{s}" for s in unit.get("repo_src", [])]
    procs, objs = [], []
    for i, s in enumerate(srcs):
        o = f"{scratch}/{unit['name']}.{i}.o"
        objs.append(o)
        extra = unit.get("src_flags", {}).get(os.path.basename(s), [])
        procs.append((s, subprocess.Popen(flags + extra + ["-c", s, "-o", o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT)))
    exe = f"{scratch}/{unit['name']}"
    return exe, objs, procs, san


def finish_build(b, unit):
    exe, objs, procs, san = b
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            return None, f"cannot compile {s}:\n" + out.decode(errors="replace")[:20000]
    r = subprocess.run(["g++"] + san + objs + ["-o", exe] + unit.get("libs", []) + ["-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None, "cannot link:\n" + r.stdout.decode(errors="replace")[:20000]
    return exe, None


def main():
    args = sys.argv[1:]
    pid = args[0]
    only = replay = None
    keep = "--keep" in args
    if "--only" in args:
        only = args[args.index("--only") + 1]
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/tmp")
    t0 = time.time()
    try:
        return run(pid, spec, scratch, tier, seed, only, replay, t0)
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)


def no_compile(pid, u, tier, seed, broken, err, wall):
    path = f"{HERE}/replays/{pid}.replay"
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    open(path, "w").write(f"{u['name']} does-not-compile\n\n")
    open(path + ".txt", "w").write(f"property {pid}, unit {u['name']}: the repository's code does not compile when used\n{err}\n")
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": 1,
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "exhaustive": False, "samples": [],
                            "explanation": "the code under test does not compile when used: " + broken[0]}},
              open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"the code under test does not compile when used: {broken[0][:300]}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def run(pid, spec, scratch, tier, seed, only, replay, t0):
    keys = known_keys(pid)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3500:"
                           "allocator_may_return_null=0:detect_stack_use_after_return=0:"
                           "max_allocation_size_mb=2500")
    env["PYTHONPATH"] = f"{HERE}/py:{HERE}/py/stubs:{REPO}/src"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VERIF_REPO"] = REPO
    env["PYTHONHASHSEED"] = "0"
    env.pop("OMP_NUM_THREADS", None)
    env["OPENBLAS_NUM_THREADS"] = "1"
    if replay:
        lines = open(replay).read().split("\n")
        uname = lines[0].split()[0]
    builds = []
    units = [u for u in spec["units"] if not replay or u["name"] == uname]
    for u in units:
        if u.get("kind", "cpp") == "cpp":
            builds.append(build(u, scratch, None))
        else:
            builds.append(None)
    exes = []
    for u, b in zip(units, builds):
        if b is None:
            exes.append(["/usr/bin/python3", "-B", f"{HERE}/py/{u['src'][0]}"])
            continue
        exe, err = finish_build(b, u)
        broken = [l for l in (err or "").split("\n") if re.match(re.escape(os.path.realpath(REPO)) + r"/[^:]+:\d+:\d+: (fatal )?error: ", l) or re.match(re.escape(REPO) + r"/[^:]+:\d+:\d+: (fatal )?error: ", l)]
        if broken and "cannot compile" in err:
            # an operation the property speaks about does not compile in the repository's own code
            return no_compile(pid, u, tier, seed, broken, err, time.time() - t0)
        if err:
            print(f"CHECK-ERROR property={pid} {err}")
            return 2
        exes.append([exe])
    build_s = time.time() - t0
    # the total exploration budget; reaching it is reported as a cap, never as completion
    budget = spec.get("budget", {}).get(tier, 700 if tier == "quick" else 3600 * 3)
    total = {"states": 0, "transitions": 0, "executions": 0}
    scenarios, samples, hits = [], [], set()
    violation = None
    for u, exe in zip(units, exes):
        out = f"{scratch}/{u['name']}.json"
        work = f"{scratch}/{u['name']}.work"
        os.makedirs(work)
        cmd = exe + ["--out", out, "--dir", work, "--cap", str(max(30, budget - (time.time() - t0))), "--jobs", os.environ.get("VERIF_JOBS", "8")]
        if tier == "thorough":
            cmd.append("--thorough")
        if only:
            cmd += ["--only", only]
        for k, _ in keys:
            cmd += ["--known", k]
        if replay:
            rp = f"{scratch}/replay"
            open(rp, "w").write("\n".join([" ".join(lines[0].split()[1:])] + lines[1:]))
            cmd = exe + ["--replay", rp, "--dir", work] + (["--thorough"] if tier == "thorough" else [])
            return subprocess.run(cmd, env=env, cwd=work).returncode
        r = subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            res = json.load(open(out))
        except Exception as e:
            print(f"CHECK-ERROR property={pid} unit={u['name']} rc={r.returncode} {e}\n"
                  + r.stdout.decode(errors="replace")[-4000:])
            return 2
        hits.update(res.get("known_hits", []))
        for s in res["scenarios"]:
            s["unit"] = u["name"]
            total["states"] += s["states"]
            total["transitions"] += s["transitions"]
            total["executions"] += s["executions"]
            samples += [dict(scenario=s["name"], **x) for x in s.pop("samples")]
            scenarios.append(s)
        if res.get("error"):
            print(f"CHECK-ERROR property={pid} unit={u['name']}: {res['error']}")
            return 2
        if res["violations"]:
            violation = (u, res["violation"])
            break
    for k, text in keys:
        if k in hits:
            print(f"KNOWN-FINDING: property={pid} {k}: {text}")
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"], "transitions": total["transitions"],
            "traces_validated_against_impl": total["executions"],
            "exhaustive": violation is None and not any(s["capped"] for s in scenarios),
            "explanation": "Every execution is an execution of the real code, compared step by step with an "
                           "independent reference model; 'states' are distinct canonical observed states/outcomes, "
                           "'transitions' the operations performed on the real code, "
                           "'traces_validated_against_impl' the complete choice sequences executed.",
            "scenarios": scenarios, "samples": samples[:40],
            "known_findings_reproduced": sorted(hits),
            "build_s": round(build_s, 2),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    tmp = f"{HERE}/evidence/.{pid}.tmp"
    json.dump(evidence, open(tmp, "w"), indent=1)
    os.replace(tmp, f"{HERE}/evidence/{pid}.json")
    for s in scenarios:
        print(f"{pid} {s['unit']}/{s['name']}: executions={s['executions']} transitions={s['transitions']} "
              f"states={s['states']} max_choices={s['max_choices']}{' CAPPED' if s['capped'] else ''}")
    print(f"{pid} {tier}: build {build_s:.1f} s, total {time.time() - t0:.1f} s")
    if violation:
        u, v = violation
        os.makedirs(f"{HERE}/replays", exist_ok=True)
        path = f"{HERE}/replays/{pid}.replay"
        with open(path, "w") as f:
            f.write(f"{u['name']} {v['scenario']}\n" + " ".join(map(str, v["script"])) + "\n")
        with open(path + ".txt", "w") as f:
            f.write(f"property {pid}, unit {u['name']}, scenario {v['scenario']}\n{v['message']}\n\n"
                    + "\n".join(v["trace"]) + f"\n\nreplay with: python3 {HERE}/run.py {pid} --replay {path}\n")
        print("\n".join(("  " + t)[:400] for t in v["trace"][:60]))
        print(f"scenario {v['scenario']}: {v['message'][:3000]}")
        if v.get("key"):
            print(f"key: {v['key']}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
