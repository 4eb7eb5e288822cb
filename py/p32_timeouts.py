"""P32: time-out guards with the alarm delivered at every point of the guard and of the guarded code where the
interpreter looks for signals (after calls, when a function or generator is entered or resumed, and when a loop repeats).

The alarm is simulated (the code under test asks for it through the signal module as usual), the handler it installs is
the real one and is run by the interpreter's real signal machinery.
"""
import contextlib
import dis
import io
import os
import signal
import sys
import time

world = None
for name in ("monotonic", "time", "perf_counter"):
    # the guard reads the simulated clock
    setattr(time, name, lambda real=getattr(time, name): world.now if world is not None and world.on else real())

import mc  # noqa: E402
import arc_utilities.catches as catches  # noqa: E402

FILES = {catches.__file__, os.path.abspath(__file__)}
real_signal, real_getsignal, real_raise = signal.signal, signal.getsignal, signal.raise_signal
real_kill = os.kill


class World:
    """The process's one alarm clock."""

    def __init__(self, run, fires):
        self.run, self.left = run, fires
        self.now, self.pending, self.since, self.value = 1000.0, 0, 0.0, 0
        self.delivered = []  # the lengths of the alarms that went off
        self.asked = []
        self.fired = 0
        self.on = False
        self.last = {}

    def alarm(self, seconds):
        if type(seconds) is not int:
            raise TypeError("an integer is required")
        return int(self.set(seconds) + 0.999)

    def set(self, seconds):
        old = max(1e-6, self.pending - (self.now - self.since)) if self.pending else 0
        self.pending, self.since = seconds, self.now
        if seconds:
            self.asked.append(seconds)
            self.rearm()
        return old

    def setitimer(self, which, seconds, interval=0.0):
        assert which == signal.ITIMER_REAL and not interval
        return (self.set(seconds), 0.0)

    def remaining(self):
        return max(1e-6, self.pending - (self.now - self.since)) if self.pending else 0

    def getitimer(self, which):
        return (self.remaining(), 0.0)

    def raised(self, which="due"):
        """the alarm goes off, or the code under test raises it itself"""
        self.fired += 1
        self.delivered.append(which)
        real_raise(signal.SIGALRM)

    def raise_signal(self, number):
        assert number == signal.SIGALRM
        self.raised()

    def kill(self, pid, number):
        assert pid == os.getpid() and number == signal.SIGALRM
        self.raised()

    def tick(self, seconds):
        self.now += seconds

    def rearm(self):
        """Delivering an alarm ends tracing; the next alarm asked for starts it again."""
        if not self.on:
            return
        f = sys._getframe(2)
        while f is not None:
            if f.f_code.co_filename in FILES and f.f_code.co_name not in HARNESS:
                f.f_trace = self.local
                f.f_trace_opcodes = True
            f = f.f_back
        sys.settrace(self.trace)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in FILES or frame.f_code.co_name in HARNESS:
            return None
        frame.f_trace_opcodes = True
        return self.local

    def checkpoint(self, frame):
        """Does the interpreter look for signals between the previous instruction of this frame and the next one?"""
        code, at = frame.f_code, frame.f_lasti
        last = self.last.get(frame)
        self.last[frame] = at
        if last is None:
            return True
        name = dis.opname[code.co_code[last]]
        if not (name.startswith(("CALL", "RESUME", "JUMP_BACKWARD")) and not name.startswith("CALL_INTRINSIC")):
            return False
        table = TABLES.setdefault(code, dis._parse_exception_table(code))
        return [e for e in table if e.start <= last < e.end] == [e for e in table if e.start <= at < e.end]

    def local(self, frame, event, arg):
        if event == "return":
            self.last.pop(frame, None)
        if event == "opcode" and self.checkpoint(frame) and self.on and self.pending:
            due = self.now - self.since >= self.pending - 1e-5  # time passes only in tick: a due alarm is not late
            if due or self.left and self.run.choose(2, "alarm"):
                self.left -= 0 if due else 1
                self.run.note(lambda: f"  alarm at {frame.f_code.co_name}:{frame.f_lineno}")
                deliver = self.pending
                self.pending = 0
                self.raised(deliver)
        return self.local


TABLES = {}
HARNESS = {"checkpoint", "alarm", "set", "setitimer", "rearm", "trace", "local", "note", "choose", "step", "tick",
           "remaining", "raised", "raise_signal", "kill", "<lambda>"}


def default_action(*_):
    raise mc.Violation("the alarm goes off when nobody is guarding")


def user_handler(*_):
    raise mc.Violation("the alarm of the guard runs the caller's own handler")


@contextlib.contextmanager
def setting(run, fires, previous):
    global world
    world = World(run, fires)
    signal.alarm, signal.setitimer, signal.getitimer = world.alarm, world.setitimer, world.getitimer
    signal.raise_signal, os.kill = world.raise_signal, world.kill
    real_signal(signal.SIGALRM, previous)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            world.on = True
            yield world
    finally:
        world.on = False
        sys.settrace(None)
        os.kill = real_kill
        real_signal(signal.SIGALRM, signal.SIG_DFL)


def left_behind(run, w, previous):
    run.check(not w.pending, "an alarm is still set after the guard has ended")
    run.check(real_getsignal(signal.SIGALRM) is previous, f"the handler of the alarm signal was {previous!r}, "
              f"after the guard it is {real_getsignal(signal.SIGALRM)!r}")


def work(kind, log, value):
    log.append("begun")
    x = 1
    log.append(x + 1)
    if kind == 1:
        raise ValueError("own")
    if kind == 2:
        raise StopIteration("own")
    log.append("end")
    return None if kind == 3 else value


class Handled:
    pass


def guarded_with_cleanup(log, value):
    try:
        log.append("open")
        x = value
        log.append("use")
        return x
    finally:
        log.append("close")


PREVIOUS = [signal.SIG_DFL, signal.SIG_IGN, user_handler]


@mc.scenario("one_call", "a guarded call, the alarm at every instruction or never")
def one_call(run):
    previous = run.pick(PREVIOUS, "handler before")
    kind = run.choose(5, "returns / raises / raises StopIteration / returns None / cleans up")
    seconds = run.pick([1, 7], "seconds")
    value, log = object(), []
    exc = result = None
    with setting(run, 1, previous) as w:
        try:
            if kind == 4:
                result = catches.catch_timeout(seconds, guarded_with_cleanup, log, value=value)
            else:
                result = catches.catch_timeout(seconds, work, kind, log, value=value)
        except (ValueError, StopIteration) as e:
            exc = e
        w.on = False
        sys.settrace(None)
        left_behind(run, w, previous)
    run.step()
    run.check(w.asked == [seconds], f"alarms asked for: {w.asked}")
    run.note(f"  {log} -> {result} {exc!r}")
    if w.fired:
        run.check(exc is None and result == (None, True), f"timed out: {result} {exc!r}")
    elif kind in (1, 2):
        run.check(type(exc) is (ValueError, StopIteration)[kind - 1] and exc.args == ("own",), f"{result} {exc!r}")
    else:
        run.check(exc is None and type(result) is tuple and len(result) == 2 and result[1] is False
                  and result[0] is (None if kind == 3 else value), f"not timed out: {result} {exc!r}")
    if kind == 4:
        run.check(("close" in log) or "open" not in log, "the guarded code's own clean-up did not run")
    run.state(kind, w.fired, log, previous is user_handler)


def timed_work(kind, log, took):
    log.append("begun")
    world.tick(took)
    log.append("worked")
    if kind:
        raise ValueError("own")
    return took


@mc.scenario("callers_alarm", "a guarded call while an alarm of the caller's is running, both alarms delivered at every point", depth=3)
def callers_alarm(run):
    log, mine = [], []

    def handler(*_):
        mine.append(1)
    took = run.pick([0.0, 5.5, 25.0], "seconds of work")
    kind = run.choose(2, "returns / raises")
    exc = result = None
    with setting(run, run.bound(1, 2), handler) as w:
        signal.alarm(20)
        try:
            result = catches.catch_timeout(7, timed_work, kind, log, took)
        except ValueError as e:
            exc = e
        w.on = False
        sys.settrace(None)
        left, installed = w.remaining(), real_getsignal(signal.SIGALRM)
    run.step()
    guards = [d for d in w.delivered if d == 7]
    own = len(w.delivered) - len(guards)
    run.check(guards or took < 7 or "begun" not in log, f"{took} s of work were not timed out")
    run.note(f"  {log} -> {result} {exc!r}, went off: {w.delivered}, caller's handler {len(mine)} times, {left} s left")
    run.check(installed is handler, f"the handler of the alarm signal is {installed!r}")
    run.check(len(mine) == own, f"the caller's alarm went off {own} times, its handler ran {len(mine)} times")
    if guards:
        run.check(exc is None and result == (None, True), f"timed out: {result} {exc!r}")
    elif kind:
        run.check(exc is not None and exc.args == ("own",), f"{result} {exc!r}")
    else:
        run.check(exc is None and result == (took, False), f"not timed out: {result} {exc!r}")
    if own:
        run.check(not left, "an alarm is set although the caller's has gone off")
    else:
        due = 20 - (took if "worked" in log or took == 0 else w.now - 1000.0)
        run.check(left and abs(left - max(due, 0.5)) <= 1.01, f"the caller's alarm is due in {due} s, set is {left} s")
    run.state(took, kind, log, w.delivered)


def inner_guards(log, took, n):
    log.append("outer begun")
    for i in range(n):
        log.append(("begin", world.now))
        log.append(catches.catch_timeout(3, timed_work, 0, log, took))
        log.append(("alarm", world.now, world.remaining()))
    log.append("outer end")
    return "outer"


@mc.scenario("nested", "guards within guarded code: both alarms delivered at every point, and the outer one due during an inner one", depth=3)
def nested(run):
    took = run.pick([0.0, 2.5, 10.0], "seconds of work")
    n = 1 + run.choose(4, "inner guards")
    log = []
    previous = run.pick(PREVIOUS[1:], "handler before")
    with setting(run, run.bound(2 if n == 1 else 1 if n < 4 else 0, 2), previous) as w:
        result = catches.catch_timeout(6, inner_guards, log, took, n)
        w.on = False
        sys.settrace(None)
        left_behind(run, w, previous)
    run.step()
    inner = [d for d in w.delivered if d == 3]
    outer = len(w.delivered) - len(inner)
    run.note(f"  {log} -> {result}, went off: {w.delivered}")
    run.check(outer <= 1, f"the outer alarm goes off {outer} times")
    run.check(result == ((None, True) if outer else ("outer", False)), f"the outer guard reports {result}, went off: {w.delivered}")
    got = [e for e in log if type(e) is tuple and type(e[0]) is not str]
    # the last inner guard may have been cut short by the outer alarm
    run.check(len(inner) - outer <= got.count((None, True)) <= len(inner) and
              all(e in ((None, True), (took, False)) for e in got), f"the inner guards report {got}, went off: {w.delivered}")
    for e in log:
        if type(e) is tuple and e[0] == "alarm":
            due = 6 - (e[1] - 1000.0)
            run.check(abs(e[2] - due) <= 1.01, f"after an inner guard the outer one is due in {due} s, set is {e[2]} s")
        if type(e) is tuple and e[0] == "begin":
            run.check(e[1] - 1000.0 < 6, f"guarded work goes on {e[1] - 1000} s after the start of a guard of 6 s")
    run.check(outer or "outer end" in log, "the outer call did not end")
    run.state(took, n, log, w.delivered)


def numbers(n, log, bad=-1):
    log.append("start")
    for i in range(n):
        if i == bad:
            raise KeyError("own")
        log.append(("make", i))
        yield i
    log.append("exhausted")


class Resumable:
    """An iterator that can be asked again after an interruption."""

    def __init__(self, n, log):
        self.n, self.i, self.log = n, 0, log

    def __iter__(self):
        return self

    def __next__(self):
        i = self.i
        if i >= self.n:
            self.log.append("exhausted")
            raise StopIteration
        self.i = i + 1
        self.log.append(("make", i))
        return i


@mc.scenario("retry", "a retried generator, every history of time-outs", depth=4)
def retry(run):
    previous = run.pick(PREVIOUS[1:], "handler before")
    n = run.choose(4, "items")
    bad = n - 1 if n and run.flip("generator fails at its last item") else -1
    cb = run.flip("with callback")
    log, exc = [], None

    def on_timeout():
        log.append("on_timeout")
        run.check(not world.pending, "an alarm is set while the callback runs")
    with setting(run, run.bound(2, 3) if n < 3 else 1, previous) as w:
        try:
            for x in catches.retry_on_timeout(3, on_timeout if cb else None, numbers, n, log, bad=bad):
                w.on = False
                sys.settrace(None)
                log.append(("got", x))
                left_behind(run, w, previous)
                w.on = True
        except KeyError as e:
            exc = e
        w.on = False
        sys.settrace(None)
        left_behind(run, w, previous)
    run.step(len(w.asked))
    run.note(f"  {log}")
    run.check(all(a == 3 for a in w.asked), f"alarms of {w.asked} seconds")
    if cb:
        run.check(log.count("on_timeout") == w.fired, f"{w.fired} time-outs, the callback ran "
                  f"{log.count('on_timeout')} times: {log}")
        got = passes(log, lambda e: e == "on_timeout")
        run.check(len(got) == w.fired + 1, "callback between passes")
        for k, p in enumerate(got):
            run.check(p == list(range(len(p))), f"a pass delivered {p}: {log}")
        want = n if bad < 0 else n - 1
        run.check(len(got[-1]) == want, f"the last pass delivered {got[-1]} of {n}: {log}")
    got = [e[1] for e in log if type(e) is tuple and e[0] == "got"]
    starts = [i for i, e in enumerate(got) if e == 0]
    run.check(all(b == a + 1 or b == 0 for a, b in zip(got, got[1:])) and got[:1] in ([], [0]),
              f"items out of order or lost: {got}")
    run.check(len(starts) <= w.fired + 1, f"items repeated without a time-out: {got}")
    run.check(got[-(n if bad < 0 else n - 1):] == list(range(n if bad < 0 else n - 1)) or not n or bad == 0,
              f"not all items delivered: {got}")
    run.check((exc is not None) == (bad >= 0), f"the generator's own error came out as {exc!r}")
    run.check(log.count("start") <= w.fired + 1, "the generator is started again without a time-out")
    run.state(n, bad, cb, w.fired, got)


def passes(log, split):
    out = [[]]
    for e in log:
        if split(e):
            out.append([])
        elif type(e) is tuple and e[0] == "got":
            out[-1].append(e[1])
    return out


@mc.scenario("skip", "a skipping iteration, every history of time-outs, over generators and resumable iterators", depth=4)
def skip(run):
    previous = run.pick(PREVIOUS[1:], "handler before")
    n = run.choose(4, "items")
    resumable = run.flip("resumable")
    log = []
    with setting(run, run.bound(2, 3) if n < 3 else 1, previous) as w:
        for x in catches.skip_on_timeout(3, Resumable if resumable else numbers, n, log):
            w.on = False
            sys.settrace(None)
            log.append(("got", x))
            left_behind(run, w, previous)
            w.on = True
        w.on = False
        sys.settrace(None)
        left_behind(run, w, previous)
    run.step(len(w.asked))
    run.note(f"  {log}")
    got = [e[1] for e in log if type(e) is tuple and e[0] == "got"]
    run.check(all(b > a for a, b in zip(got, got[1:])), f"items out of order or repeated: {got}")
    run.check(all(log[log.index(("got", x)) - 1] == ("make", x) for x in got), f"an item was not processed: {log}")
    missing = [i for i in range(n) if i not in got]
    if resumable:
        run.check(len(missing) <= w.fired, f"{w.fired} time-outs, but {missing} are missing: {log}")
    else:
        # interrupting a generator ends it, so everything after the item timed out is lost
        run.check(w.fired or not missing, f"no time-out, but {missing} are missing")
        if len(missing) > w.fired:
            run.check(missing == list(range(n))[-len(missing):] or w.fired > 1, f"items lost in the middle: {log}")
            run.fail(f"{w.fired} time-outs lose all the later items {missing}", "skip-on-timeout-ends-generator")
    run.check(w.fired or "exhausted" in log, "ended before the source was exhausted")
    run.state(n, resumable, w.fired, got)


if __name__ == "__main__":
    sys.exit(mc.main())
