#!/usr/bin/python3
"""tools/mutate.py OUT.jsonl PER_FILE SEED FILE[=P01,P02] ...: applies small syntactic mutations to scratch copies of the
repository and runs the checks anchored in the mutated file; writes one line per mutant (caught, missed, does not build)."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
OPS = [
    (r"(?<![<\w\->=])<(?![<=\w])", ["<="]), (r"<=", ["<"]), (r"(?<![>\-])>(?![>=\w(:,&*;{])", [">="]), (r">=", [">"]),
    (r"==", ["!="]), (r"!=", ["=="]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]),
    (r"(?<= )/(?= )", ["*"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\band\b", ["or"]),
    (r"\bor\b", ["and"]), (r"!(?=[\w(])", [""]), (r"\bnot ", [""]), (r"(?<![\w.])0(?![\w.])", ["1"]),
    (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])(\d+\.\d+)(?![\w.])", ["(\\1 * 1.01)", "(-\\1)"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bfloor\b", ["ceil"]), (r"\bceil\b", ["floor"]), (r"\bround\b", ["floor"]),
    (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]),
    (r"\.first\b", [".second"]), (r"\.second\b", [".first"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bTrue\b", ["False"]),
    (r"\bFalse\b", ["True"]), (r"\bbreak\b", ["continue"]), (r"\bcontinue\b", ["break"]), (r"\.x\b", [".y"]), (r"\.y\b", [".z"]),
    (r"\.z\b", [".x"]), (r"\+\+", ["--"]), (r"\.rows\(\)", [".cols()"]), (r"\.cols\(\)", [".rows()"]), (r"abs\(", ["("]),
    (r"\.transpose\(\)", [""]), (r"\.inverse\(\)", [""]), (r"\.norm\(\)", [".squaredNorm()"]), (r"\.size\(\)", [".size() - 1", ".size() + 1"]),
    (r"\bstd::move\(", ["("]), (r"(?<=[\w)\]]), (?=[\w(])", None), (r"%", ["/"]), (r"\belse\b(?! if)(?=\s*\{)", ["if (false)"]),
]


def code_lines(text, cpp):
    """(index, line) of the lines that hold code"""
    block = None
    for i, l in enumerate(text.split("\n")):
        t = l.strip()
        if cpp:
            if block:
                if "*/" in t:
                    block = None
                continue
            if t.startswith("/*"):
                if "*/" not in t:
                    block = 1
                continue
            if not t or t.startswith(("//", "#", "template", "using", "namespace", "typedef", "static_assert", "inline ")):
                continue
        else:
            if block:
                if block in t:
                    block = None
                continue
            if t.startswith(('"""', "'''")):
                if t.count(t[:3]) == 1:
                    block = t[:3]
                continue
            if not t or t.startswith(("#", "import", "from", "def ", "class ", "@", "print(")):
                continue
        if re.search(r"assert|throw|cout|cerr|ROS_|raise|logwarn|loginfo", t):
            continue
        yield i, l


def mutants(text, cpp):
    lines = text.split("\n")
    for i, l in code_lines(text, cpp):
        body = l.split("//")[0] if cpp else l.split("  #")[0]
        for pat, subs in OPS:
            for m in re.finditer(pat, body):
                if body[:m.start()].count('"') % 2:
                    continue
                if subs is None:  # swap two simple arguments
                    a = re.search(r"[\w.]+$", body[:m.start()])
                    b = re.match(r"[\w.]+", body[m.end():])
                    if not a or not b or a.group() == b.group() or body[:a.start()].rstrip()[-1:] not in "(,":
                        continue
                    if body[m.end() + b.end():][:1] not in (",", ")"):
                        continue
                    yield i, body[:a.start()] + b.group() + ", " + a.group() + body[m.end() + b.end():], "swap"
                    continue
                for s in subs:
                    yield i, body[:m.start()] + m.expand(s) + body[m.end():], pat
        t = body.strip()
        if cpp and t.endswith(";") and not t.startswith(("return", "}", "const", "auto", "std::", "for")) and not re.match(r"[\w:<>,\s&*]+ \w+( =|;|\()", t) and lines[i - 1].strip().endswith((";", "{", "}")):
            yield i, "", "delete"
        if cpp and re.match(r"std::(lock_guard|unique_lock)", t):
            yield i, "", "delete"
        if not cpp and re.match(r"[\w.\[\]]+( [-+*/]?= |\()", t) and t[-1] not in "([{,:":
            yield i, re.match(r"\s*", l).group() + "pass", "delete"


def one(job):
    f, i, new, op, pids = job
    d = tempfile.mkdtemp(prefix="verif-mut-", dir="/tmp")
    try:
        for sub in ("include", "src", "scripts"):
            shutil.copytree(REPO + "/" + sub, d + "/" + sub, symlinks=True)
        lines = open(d + "/" + f).read().split("\n")
        old = lines[i]
        lines[i] = new
        open(d + "/" + f, "w").write("\n".join(lines))
        res, by = "missed", ""
        for p in pids:
            r = subprocess.run(["python3", "/verif/run.py", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_JOBS="3"))
            if "does not compile when used" in r.stdout:
                res = "nobuild"
                break
            if r.returncode == 1:
                res, by = "caught", p
                break
            if r.returncode == 2:
                res, by = ("nobuild" if "error:" in r.stdout or "cannot link" in r.stdout else "error"), r.stdout[-600:] if "error:" not in r.stdout else ""
                break
        return dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), op=op, pids=pids, result=res, by=by)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    anch = {}
    for l in open("/verif/properties.jsonl"):
        q = json.loads(l)
        for f in q["anchors"]["files"]:
            anch.setdefault(f, []).append(q["id"])
    jobs = []
    rnd = random.Random(seed)
    for spec in sys.argv[4:]:
        f, _, p = spec.partition("=")
        pids = p.split(",") if p else anch.get(f, [])
        if not pids:
            print("no check is anchored in", f)
            continue
        text = open(REPO + "/" + f).read()
        ms = list(mutants(text, not f.endswith(".py")))
        byline = {}
        for m in ms:
            byline.setdefault(m[0], []).append(m)
        ls = list(byline)
        rnd.shuffle(ls)
        for i in ls[:per]:
            jobs.append((f,) + rnd.choice(byline[i]) + (pids,))
    rnd.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("MUT_PAR", "4"))) as ex, open(out, "a") as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + "\n")
            o.flush()


main()
