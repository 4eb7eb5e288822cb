"""Bounded exhaustive explorer for the Python parts: stateless depth-first enumeration of every sequence of choices a
scenario makes (the Python twin of harness/mc.hpp).

A scenario is a function of a Run. Every nondeterministic decision goes through Run.choose(n); the explorer re-executes
the scenario once per leaf of the resulting choice tree. Executions run in forked workers, so that a crash or a hang is
attributed to the choice sequence that caused it.
"""
import argparse
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback
from _thread import allocate_lock  # noqa: F401  (real primitives, for the scheduler)

_sleep = time.sleep
_monotonic = time.monotonic


class Violation(BaseException):
    """A property does not hold. BaseException, so that code under test which catches Exception cannot hide it."""

    def __init__(self, msg, key=""):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Prune(BaseException):
    """This execution shows nothing new."""


class Cut(BaseException):
    pass


class HarnessError(BaseException):
    pass


SCENARIOS = []


class Scenario:
    def __init__(self, fn, name, what, depth, thorough_only, setup):
        self.fn, self.name, self.what, self.depth = fn, name, what, depth
        self.thorough_only, self.setup = thorough_only, setup


def scenario(name, what, depth=1, thorough_only=False, setup=None):
    """setup() runs once in each worker, before its first execution."""
    def deco(fn):
        SCENARIOS.append(Scenario(fn, name, what, depth, thorough_only, setup))
        return fn
    return deco


class Run:
    def __init__(self, script, sizes, cut_at, opts, slot):
        self.script, self.sizes, self.cut_at, self.opts, self.slot = script, sizes, cut_at, opts, slot
        self.pos = 0
        self.notes = []
        self.steps = 0
        self.states = set()
        self.known = set()
        self.spent = {}
        self.lastlabel = ""

    # ----- used by scenarios
    def choose(self, n, label=""):
        if n <= 0:
            raise HarnessError(f"empty choice {label}")
        if n == 1:
            return 0
        if self.cut_at is not None and self.pos >= self.cut_at:
            raise Cut()
        if self.pos < len(self.script):
            c = self.script[self.pos]
            if self.pos < len(self.sizes) and self.sizes[self.pos] not in (0, n):
                raise HarnessError(f"nondeterminism: choice {self.pos} ({label}) had {self.sizes[self.pos]} options,"
                                   f" now {n}")
            if c >= n:
                raise HarnessError(f"replay diverged at choice {self.pos} ({label}): {c} of {n}")
        else:
            c = 0
            self.script.append(0)
        if self.pos < len(self.sizes):
            self.sizes[self.pos] = n
        else:
            self.sizes.append(n)
        self.pos += 1
        if self.opts.trace:
            if c or label not in ("pre-emption", "alarm"):
                self.notes.append(f"choice {self.pos - 1}: {label} = {c} of {n}")
        if self.slot is not None:
            self.slot.script(self.script, self.pos)
        if self.pos > 5000:
            raise HarnessError("more than 5000 choices in one execution")
        return c

    def flip(self, label=""):
        return self.choose(2, label) == 1

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)]

    def deviate(self, n, bound, label=""):
        """A choice whose first option is the default; at most `bound` others are taken per execution and label."""
        used = self.spent.get(label, 0)
        if used >= bound:
            return 0
        c = self.choose(n, label)
        if c:
            self.spent[label] = used + 1
        return c

    def step(self, n=1):
        self.steps += n

    def state(self, *what):
        self.states.add(hash8(repr(what)))

    def note(self, text):
        if self.opts.trace:
            self.notes.append(text() if callable(text) else str(text))

    def fail(self, msg, key=""):
        if key and key in self.opts.known:
            self.known.add(key)
            return
        raise Violation(str(msg), key)

    def check(self, ok, msg, key=""):
        if not ok:
            self.fail(msg() if callable(msg) else msg, key)

    def bound(self, quick, thorough):
        return thorough if self.opts.thorough else quick

    def thorough(self):
        return self.opts.thorough


def hash8(s):
    return struct.unpack("<q", hashlib.blake2b(s.encode("utf8", "replace"), digest_size=8).digest())[0]


class Slot:
    """Shared with the parent: heartbeat and current choice sequence of one worker."""
    SIZE = 65536

    def __init__(self):
        self.m = mmap.mmap(-1, self.SIZE)
        self.beat = 0

    def script(self, s, n):
        self.beat += 1
        n = min(n, 16000)
        struct.pack_into("<QI", self.m, 0, self.beat, n)
        if n:
            struct.pack_into("<H", self.m, 12 + 2 * (n - 1), s[n - 1])

    def begin(self, s):
        self.beat += 1
        n = min(len(s), 16000)
        struct.pack_into("<QI%dH" % n, self.m, 0, self.beat, n, *s[:n])

    def read(self):
        b, n = struct.unpack_from("<QI", self.m, 0)
        return b, list(struct.unpack_from("<%dH" % n, self.m, 12))


class Opts:
    pass


def execute(sc, run):
    """One execution. Returns a Violation or None."""
    try:
        sc.fn(run)
    except (Violation, Prune, Cut, HarnessError):
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        raise Violation(f"the code under test raised {type(e).__name__}: {e}\n" + traceback.format_exc())


def advance(script, sizes, floor):
    """Next sequence in depth-first order, never changing the first `floor` choices. None when finished."""
    while len(script) > floor and script[-1] + 1 >= sizes[len(script) - 1]:
        script.pop()
    if len(script) <= floor:
        return None
    script[-1] += 1
    del sizes[len(script):]
    return script


def prefixes(sc, opts):
    """All choice prefixes of length sc.depth (or complete shorter sequences)."""
    out = []
    script, sizes = [], []
    while True:
        run = Run(script, sizes, sc.depth, opts, None)
        try:
            execute(sc, run)
        except (Cut, Prune, Violation):
            pass
        del script[run.pos:]
        del sizes[run.pos:]
        out.append(list(script))
        if advance(script, sizes, 0) is None:
            return out


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def worker(sc, opts, todo, counter, lock_fd, slot, wfd):
    res = dict(executions=0, transitions=0, max_choices=0, states=set(), samples=[], known=set(), violation=None,
               error=None, capped=False)
    try:
        limits()
        if sc.setup:
            sc.setup()
        while True:
            with counter.lock():
                i = counter.take()
            if i >= len(todo):
                break
            prefix = list(todo[i])
            script, sizes = list(prefix), [0] * len(prefix)
            floor = len(prefix)
            while True:
                if _monotonic() > opts.deadline:
                    res["capped"] = True
                    break
                run = Run(script, sizes, None, opts, slot)
                slot.begin(script)
                try:
                    execute(sc, run)
                except Prune:
                    pass
                except Violation as v:
                    res["violation"] = dict(script=list(script[:run.pos]), message=v.msg, key=v.key)
                    return
                res["executions"] += 1
                res["transitions"] += run.steps
                res["states"] |= run.states
                res["known"] |= run.known
                res["max_choices"] = max(res["max_choices"], run.pos)
                if len(res["samples"]) < 1:
                    res["samples"].append(list(script[:run.pos]))
                del script[run.pos:]
                del sizes[run.pos:]
                if len(script) < floor:
                    break  # fewer choices than the prefix: a complete execution on its own
                if advance(script, sizes, floor) is None:
                    break
            if res["capped"]:
                break
    except BaseException as e:
        res["error"] = f"{type(e).__name__}: {e}\n{traceback.format_exc()}\nscript {slot.read()[1]}"
    finally:
        data = pickle.dumps(res)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
        sys.stdout.flush()
        os._exit(0)


class Counter:
    def __init__(self):
        self.m = mmap.mmap(-1, 4096)
        self.r, self.w = os.pipe()
        os.write(self.w, b"x")

    def lock(self):
        return self

    def __enter__(self):
        os.read(self.r, 1)

    def __exit__(self, *a):
        os.write(self.w, b"x")

    def take(self):
        i, = struct.unpack_from("<Q", self.m, 0)
        struct.pack_into("<Q", self.m, 0, i + 1)
        return i


HANG_S = 30


def explore(sc, opts):
    def first():
        limits()
        if sc.setup:
            sc.setup()
        return prefixes(sc, opts)
    todo = in_child(first, HANG_S)
    if not todo or not isinstance(todo[0], list):
        todo = [[]]  # the code under test fails or hangs early: a worker will find out where
    njobs = max(1, min(opts.jobs, len(todo)))
    counter = Counter()
    procs = {}
    for _ in range(njobs):
        slot = Slot()
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.setpgid(0, 0)
            worker(sc, opts, todo, counter, None, slot, w)
            os._exit(0)
        os.close(w)
        procs[r] = dict(pid=pid, slot=slot, data=b"", beat=-1, since=_monotonic())
    out = dict(name=sc.name, what=sc.what, executions=0, transitions=0, states=0, max_choices=0, capped=False,
               samples=[])
    states, known, violation, error = set(), set(), None, None

    def kill_all():
        for p in procs.values():
            try:
                os.killpg(p["pid"], signal.SIGKILL)
            except OSError:
                try:
                    os.kill(p["pid"], signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(p["pid"], 0)
            except OSError:
                pass
        procs.clear()

    try:
        while procs and violation is None and error is None:
            ready, _, _ = select.select(list(procs), [], [], 1.0)
            for r in ready:
                p = procs[r]
                chunk = os.read(r, 1 << 20)
                if chunk:
                    p["data"] += chunk
                    continue
                os.close(r)
                del procs[r]
                _, status = os.waitpid(p["pid"], 0)
                if not p["data"]:
                    script = p["slot"].read()[1]
                    violation = dict(script=script, key="", message=f"the process running this ended abnormally "
                                     f"(status {status})")
                    break
                res = pickle.loads(p["data"])
                out["executions"] += res["executions"]
                out["transitions"] += res["transitions"]
                out["max_choices"] = max(out["max_choices"], res["max_choices"])
                out["capped"] = out["capped"] or res["capped"]
                out["samples"] += res["samples"]
                states |= res["states"]
                known |= res["known"]
                if res["error"]:
                    error = res["error"]
                if res["violation"]:
                    violation = res["violation"]
                    break
            now = _monotonic()
            for p in procs.values():
                beat, script = p["slot"].read()
                if beat != p["beat"]:
                    p["beat"], p["since"] = beat, now
                elif now - p["since"] > HANG_S:
                    violation = dict(script=script, key="", message=f"no progress for {HANG_S} s: the code under test "
                                     f"does not return")
                    break
    finally:
        kill_all()
    out["states"] = len(states)
    out["samples"] = [dict(script=" ".join(map(str, s)), note=sample_note(sc, s, opts)) for s in out["samples"][:3]] \
        if violation is None and error is None else []
    return out, known, violation, error


def in_child(f, timeout=60):
    """Runs f in a forked child and returns its (picklable) result, or None."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(f())
        except BaseException as e:
            data = pickle.dumps([f"(trace not available: {type(e).__name__} {e})"])
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    data, end = b"", _monotonic() + timeout
    while _monotonic() < end:
        ready, _, _ = select.select([r], [], [], 0.5)
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            data += chunk
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return ["(trace not available)"]


def trace_of(sc, script, opts):
    def go():
        opts.trace = True
        limits()
        if sc.setup:
            sc.setup()
        run = Run(list(script), [], None, opts, None)
        try:
            execute(sc, run)
        except Violation as v:
            run.notes.append("violation: " + v.msg)
        except Prune:
            pass
        return run.notes
    return in_child(go)


def sample_note(sc, script, opts):
    return " | ".join(trace_of(sc, script, opts))[:600]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--dir", default=".")
    ap.add_argument("--cap", type=float, default=600)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("--known", action="append", default=[])
    ap.add_argument("--replay")
    a = ap.parse_args()
    opts = Opts()
    opts.thorough, opts.known, opts.jobs, opts.trace, opts.dir = a.thorough, set(a.known), a.jobs, False, a.dir
    t0 = _monotonic()
    opts.deadline = t0 + a.cap
    Opts.current = opts
    os.chdir(a.dir)
    if a.replay:
        lines = open(a.replay).read().split("\n")
        name, script = lines[0].strip(), [int(x) for x in lines[1].split()]
        sc = [s for s in SCENARIOS if s.name == name][0]
        if sc.setup:
            sc.setup()
        opts.trace = True
        run = Run(script, [], None, opts, None)
        try:
            execute(sc, run)
        except Violation as v:
            print("\n".join(run.notes))
            print("reproduced:", v.msg)
            return 1
        print("\n".join(run.notes))
        print("not reproduced")
        return 0
    result = dict(violations=0, error=None, violation=None, known_hits=[], scenarios=[])
    known = set()
    for sc in SCENARIOS:
        if a.only and sc.name != a.only:
            continue
        if sc.thorough_only and not a.thorough:
            continue
        try:
            out, k, violation, error = explore(sc, opts)
        except (HarnessError, Exception) as e:
            result["error"] = f"{sc.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
            break
        known |= k
        result["scenarios"].append(out)
        if error:
            result["error"] = f"{sc.name}: {error}"
            break
        if violation:
            violation["scenario"] = sc.name
            violation["trace"] = trace_of(sc, violation["script"], opts)
            result["violations"] = 1
            result["violation"] = violation
            break
    result["known_hits"] = sorted(known)
    result["wall_s"] = _monotonic() - t0
    if a.out:
        with open(a.out, "w") as f:
            json.dump(result, f)
    if result["error"]:
        print(result["error"])
        return 2
    return 1 if result["violations"] else 0
