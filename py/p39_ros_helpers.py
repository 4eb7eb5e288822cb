"""P39: waiting for conditions and connections, the joystick helper and ROS set-up, under every history of answers."""
import os
import sched
import subprocess
import sys

sched.install()
import itertools  # noqa: E402
import mc  # noqa: E402
import numpy as np  # noqa: E402
import rosgraph  # noqa: E402
import roscpp_initializer  # noqa: E402
import rospy  # noqa: E402
from inputs import InputEvent  # noqa: E402
from rosstub import msg  # noqa: E402
from sensor_msgs.msg import Joy  # noqa: E402
from std_msgs.msg import String  # noqa: E402

import arc_utilities.listener as listener_mod  # noqa: E402
import arc_utilities.ros_helpers as helpers  # noqa: E402
import arc_utilities.ros_init as ros_init  # noqa: E402
import arc_utilities.xbox as xbox_mod  # noqa: E402

with open(os.environ["VERIF_REPO"] + "/scripts/tts_node.py") as f:
    TTS = compile(f.read(), "tts_node.py", "exec")
FILES = [listener_mod.__file__, helpers.__file__, xbox_mod.__file__]


def task(run, world, body, preemptions=0, others=(), files=(), max_steps=4000):
    s = sched.Sched(run, preemptions, files, max_steps=max_steps, idle_limit=400)
    rospy.world = world
    world.s = s
    m = s.spawn(lambda: body(s), "main")
    for i, o in enumerate(others):
        s.spawn(lambda o=o: o(s), f"other {i}")
    s.go()
    return s, m


class Boom(Exception):
    pass


@mc.scenario("wait_for", "waiting for a condition: every history of its answers, of time and of ROS shutting down", depth=4)
def wait_for(run):
    warn_after = run.pick([10, 1, None, 0], "warn after")
    name = run.pick(["", "the thing", None], "name")
    w = rospy.World()
    calls, ends = [], []
    limit = run.bound(5, 7)

    def main(s):
        def func():
            calls.append(s.now)
            if len(calls) > 1:
                gap = calls[-1] - ends[-1]
                run.check(0 < gap <= 0.2, f"{gap} s between two looks at the condition")
            run.check(not w.shutdown, "the condition is looked at again after ROS has shut down")
            s.now += run.pick([0, 0.75, 6.0] + ([4000.0] if len(calls) == 2 else []), "time passes") if len(calls) < limit else 0
            k = run.choose(4 if len(calls) < limit else 1, "true / false / false and ROS shuts down / raises")
            ends.append(s.now)
            hist.append(k)
            if k == 3:
                raise Boom()
            if k == 2:
                w.shutdown = True
            # any value that counts as true or false
            return [True, 1, "x"][len(calls) % 3] if k == 0 else [False, 0, None, ""][len(calls) % 4]
        hist = []
        exc = None
        kw = {}
        if warn_after != 10 or run.flip("given"):
            kw["warn_after"] = warn_after
        if name != "":
            kw["name"] = name
        start = s.now
        try:
            helpers.wait_for(func, **kw)
        except Boom as e:
            exc = e
        run.note(f"  answers {hist}")
        run.check(all(k == 1 for k in hist[:-1]), f"goes on after {hist}")
        run.check((exc is not None) == (hist[-1] == 3), f"ended with {exc!r} after {hist}")
        run.check(hist[-1] != 1, "returns although the condition does not hold and ROS is running")
        warnings = [m for l, m in w.logs if l == "warn"]
        waited = [e - start for e, k in zip(ends, hist) if k == 1]
        if warn_after is None or not any(x > warn_after for x in [e - start for e in ends]):
            run.check(not warnings, f"warned after {waited} s: {warnings}")
        elif any(x > warn_after for x in waited):
            run.check(len(warnings) > 0, f"no warning after {waited} s, limit {warn_after}")
            run.check(all(str(warn_after) in m and (not name or name in m) for m in warnings), f"warning {warnings}")
        run.state(hist, warn_after, len(warnings))
    s, m = task(run, w, main)
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")


class PubWorld(rospy.World):
    """Answers how many subscribers are connected to a publisher as the explorer chooses; connections only come up."""

    def __init__(self, run, most):
        super().__init__()
        self.run, self.most = run, most
        self.count, self.history, self.times = {}, {}, []

    def connections(self, pub):
        if not self.times or self.times[-1] != self.s.now:
            self.times.append(self.s.now)
            for p in self.count:
                self.count[p] += self.run.choose(self.most + 1 - self.count[p], "connections arrive")
        self.history.setdefault(pub, []).append(self.count.get(pub, 0))
        return self.count.get(pub, 0)


@mc.scenario("connect", "waiting until publishers are connected: every history of connections", depth=4)
def connect(run):
    n = 1 + run.choose(3, "publishers")
    w = PubWorld(run, 2 if n == 1 else 1)
    raises = run.pick([None, True, False], "raise on failure")

    def main(s):
        pubs = [rospy.Publisher(f"/t{i}", Joy) for i in range(n)]
        for p in pubs:
            w.count[p] = 0
        exc = None
        start = s.now
        kw = {} if raises is None else dict(raise_on_fail=raises)
        try:
            r = helpers.try_to_connect(*pubs, **kw)
        except RuntimeError as e:
            exc = e
        missing = [p.name for p in pubs if w.count[p] == 0]
        warnings = [m for l, m in w.logs if l == "warn"]
        run.note(f"  {w.history.values()} at {w.times}: {exc!r} {warnings}")
        if not missing:
            run.check(exc is None and not warnings, f"all are connected: {exc!r} {warnings}")
            # connected when asked the last time but not before
            run.check(len(w.times) == 1 or s.now == w.times[-1], "waits on after all are connected")
        else:
            run.check(0.15 <= s.now - start <= 2, f"gave up after {s.now - start} s")
            text = str(exc) if raises else " ".join(warnings)
            run.check((exc is not None) == bool(raises) and (raises or len(warnings) == 1),
                      f"{missing} are not connected: {exc!r} {warnings}")
            for p in pubs:
                run.check((p.name in text) == (p.name in missing), f"{missing} are not connected: '{text}'")
        run.state(n, raises, list(w.history.values()))
    s, m = task(run, w, main)
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")


@mc.scenario("connected_publisher", "a publisher that is connected to everybody subscribed", depth=4)
def connected_publisher(run):
    topic = run.pick(["/topic", "topic", "/other/topic"], "topic")
    full = topic if topic.startswith("/") else "/" + topic
    subs = run.choose(4, "subscribers")
    w = PubWorld(run, 3)
    others = [["/topi", ["n9"]], ["/topic2", ["n1", "n2"]]]
    mine = [[full, [f"n{i}" for i in range(subs)]]] if subs else []
    where = run.choose(2, "listed first / last")
    w.system_state = lambda: [[[full, ["p1", "p2", "p3"]]], mine + others if where else others + mine,
                              [[full, ["service"]]]]

    def main(s):
        start, exc, pub = s.now, None, None
        orig = rospy.Publisher

        def add(*a, **k):
            p = orig(*a, **k)
            w.count[p] = 0
            return p
        rospy.Publisher = add
        try:
            pub = helpers.get_connected_publisher(topic, Joy, queue_size=7, latch=True)
        except RuntimeError as e:
            exc = e
        finally:
            rospy.Publisher = orig
        run.check(len(w.publishers) == 1, f"{len(w.publishers)} publishers made")
        p = w.publishers[0]
        run.check(p.name == topic and p.data_class is Joy and p.queue_size == 7 and p.latch is True, "other arguments")
        seen = w.history.get(p, [])
        run.note(f"  {seen} of {subs}: {exc!r}")
        if exc is None:
            run.check(pub is p and w.count[p] == subs, f"returned with {w.count[p]} of {subs} connections")
            run.check(all(x != subs for x in seen[:-1]), "goes on after everybody is connected")
        else:
            run.check(all(x != subs for x in seen), f"gave up although {subs} of {subs} were connected: {seen}")
            run.check(topic in str(exc), f"error without the topic: {exc}")
            run.check(0.15 <= s.now - start <= 2, f"gave up after {s.now - start} s")
        run.state(topic, subs, seen)
    s, m = task(run, w, main)
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")


@mc.scenario("changing_subscribers", "subscribers come, connect and go while a publisher is being connected: every history of up to 2 (thorough 3) arrivals and departures", depth=4)
def changing_subscribers(run):
    topic = "/topic"
    registered, connected = run.choose(3, "subscribers"), 0
    quiet = True        # nothing has come or gone since the last count
    could = 0           # most undisturbed counts in a row that found everybody connected
    row = 0
    since = set()       # numbers of subscribers since the last count
    left = run.bound(2, 3)
    counts = []

    def happen():
        nonlocal registered, connected, left, quiet
        if left:
            k = run.choose(4 if registered else 2, "nothing / one comes / one that is not connected goes / a connected one goes")
            if k == 1:
                registered += 1
            elif k == 2 and connected < registered:
                registered -= 1
            elif k == 3 and connected:
                registered, connected = registered - 1, connected - 1
            if k:
                left, quiet = left - 1, False
                run.note(f"  now {registered} subscribers, {connected} connected")
        since.add(registered)

    class W(rospy.World):
        def system_state(self):
            happen()
            return [[], [[topic, [f"n{i}" for i in range(registered)]]], []]

        def connections(self, pub):
            nonlocal connected, quiet, could, row
            happen()
            if registered > connected and (len(counts) < 4 or len(counts) > 8):
                # everybody who is there may be connected by now, or all but one
                connected = registered - run.choose(2, "all / all but one are connected")
            counts.append((connected, sorted(since)))
            row = row + 1 if quiet and connected == registered else 0
            could = max(could, row)
            since.clear()
            since.add(registered)
            quiet = True
            run.note(f"  asked: {connected} of {registered} are connected")
            return connected

    w = W()

    def main(s):
        exc = pub = None
        try:
            pub = helpers.get_connected_publisher(topic, Joy, queue_size=1)
        except RuntimeError as e:
            exc = e
        if exc is None:
            run.check(pub is not None and counts and counts[-1][0] in since.union(counts[-1][1]),
                      f"returned with {counts[-1][0]} connections, {counts[-1][1]} subscribers")
        else:
            # the subscribers may be listed before or after the connections are counted
            run.check(could < 2, f"refused although every subscriber was connected: {counts}")
        run.state(counts, exc is None)
    s, m = task(run, w, main)
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")


BUTTONS = ["A", "B", "X", "Y", "LB", "RB", "back", "start", "power", "stick_button_left", "stick_button_right"]
DPAD = ["DL", "DR", "DU", "DD"]
AXES = ["LH", "LV", "LT", "RH", "RV", "RT", "DH", "DV"]


@mc.scenario("joystick", "every button, axis and driver", depth=2)
def joystick(run):
    xpad = run.flip("xpad")
    names = BUTTONS + (DPAD if xpad else [])
    which = run.choose(len(names) + len(AXES) + 1, "pressed")
    axes = [0.0] * 8
    buttons = [0] * len(names)
    vals = [1.0, -1.0, 0.05, -0.05, 0.0499, -0.0499, 0.3, -0.0]
    value = 1
    if which < len(names):
        buttons[which] = 1
    elif which < len(names) + len(AXES):
        value = axes[which - len(names)] = run.pick(vals, "value")
    w = rospy.World()
    j = Joy(axes=axes, buttons=buttons)
    direct = helpers.joy_to_xbox(j, xpad)
    for i, n in enumerate(names + AXES):
        run.check(getattr(direct, n) == (buttons + axes)[i], f"{n} is {getattr(direct, n)}")
    run.check(set(vars(direct)) == set(names + AXES), f"fields {sorted(vars(direct))}")
    text = str(direct).split("\n")
    run.check(sorted(text) == sorted(f"{n}: {v}" for n, v in zip(names + AXES, buttons + axes)), f"text {text}")
    if xpad:
        run.check(vars(helpers.joy_to_xbox(j)) == vars(direct), "xpad is not the default driver")
    bad = Joy(axes=axes, buttons=buttons + [0])
    try:
        helpers.joy_to_xbox(bad, xpad)
        run.fail("a message with another number of buttons is accepted")
    except ValueError:
        pass

    def main(s):
        x = xbox_mod.Xbox("stick") if xpad and run.flip("default driver") else xbox_mod.Xbox("stick", xpad)
        run.check(w.subscribers[0].name == "stick" and w.subscribers[0].data_class is Joy, "other topic")
        w.subscribers[0].deliver(j)
        for i, n in enumerate(names + AXES):
            run.check(x.get_button(n) == (buttons + axes)[i], f"get_button({n}) is {x.get_button(n)}")
        run.check(vars(x.get_buttons_state()) == vars(direct), "get_buttons_state differs from the message")

        def dead(v):
            return 0 if abs(v) < 0.05 else v
        for a, sign in ((0, -1), (1, 1), (2, 1), (4, 1), (5, 1)):
            run.check(x.get_axis_normalized(a) == dead(sign * axes[a]), f"axis {a} at {axes[a]}: {x.get_axis_normalized(a)}")
        for a in (3, 6, 7, 8, -1):
            try:
                x.get_axis_normalized(a)
                run.fail(f"axis {a} is not refused")
            except NotImplementedError:
                pass
        d = x.get_3d_delta()
        run.check(np.shape(d) == (3,) and list(d) == [dead(-axes[0]), dead(axes[1]), dead(axes[4])], f"delta {d}")
        for t, c, st in itertools.product(["Key", "Absolute"], ["BTN_NORTH", "BTN_SOUTH"], [0, 1]):
            run.check(x.x_clicked(InputEvent(t, c, st)) == ((t, c, st) == ("Key", "BTN_NORTH", 0)), f"{t} {c} {st}")
    s, m = task(run, w, main)
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")
    run.step()
    run.state(xpad, which, value)


@mc.scenario("wait_button", "waiting for a button while joystick messages arrive at any time", depth=4)
def wait_button(run):
    w = rospy.World()
    button = run.pick(["A", "DD", "LV"], "button")
    history = [run.choose(2, "pressed") for _ in range(1 + run.choose(2, "messages"))]
    quiet = run.flip("no message")
    preemptions = run.flip("pre-emption")
    at = (BUTTONS + DPAD + AXES).index(button)
    delivered, state = [], []

    def joy(p):
        v = [0] * 23
        v[(at + 1) % 23] = 1  # another one is always pressed
        v[at] = p * (-1 if at > 14 else 1)
        return Joy(buttons=v[:15], axes=v[15:])

    def publisher(s):
        s.wait(lambda: w.subscribers)
        for p in history + [0]:
            state.append(p)
            run.note(f"  message, pressed: {p}")
            w.subscribers[0].deliver(joy(p))
            delivered.append(p)
            s.sleep(0.1)
        w.shutdown = True
        run.note("  ROS shuts down")

    def main(s):
        x = xbox_mod.Xbox()
        before = len(delivered)
        if quiet:
            x.wait_for_button(button, message=False)
        else:
            x.wait_for_button(button)
        run.note("  returned")
        # a press is held longer than the polling interval (time does not pass the waiter by unless it is pre-empted)
        run.check(preemptions or not (w.shutdown and any(history[before:])), f"missed the button: {history}, {before} before it began")
        # the message the wait ended with is not older than the last one delivered when it began
        run.check(w.shutdown or any(state[max(0, before - 1):]), f"returned after {state}, {before} of them before it began")
        run.check(any(l == "info" and button in m for l, m in w.logs) != quiet, f"logged {w.logs}")
    s, m = task(run, w, main, preemptions and run.bound(1, 2), [publisher], FILES, 20000)
    run.check(m.exc is None or w.shutdown, lambda: f"{type(m.exc).__name__}: {m.exc}")
    run.state(button, history, quiet, len(delivered))


@mc.scenario("ros_context", "ROS is set up before and shut down after the work, however it ends", depth=1)
def ros_context(run):
    how = run.choose(4, "with block / decorated function / functions / nested decorated calls")
    ends = run.choose(5, "returns / raises / raises KeyboardInterrupt / raises SystemExit / returns None")
    name = run.pick(["node", "other_node"], "name")
    fails = run.choose(3, "set-up works / C++ part fails / Python part fails")
    w = rospy.world = rospy.World()
    exc_type = [None, Boom, KeyboardInterrupt, SystemExit, None][ends]
    value = object()
    steps = []
    up = [("cpp_init", "cpp_" + name), ("init_node", name)]
    down = [("cpp_shutdown",), ("signal_shutdown",)]

    def state():
        return [c[:2] for c in w.calls]

    def body(a, b=0):
        steps.append((a, b))
        run.check(sorted(state()) == sorted(up), f"the work runs after {state()}")
        if exc_type:
            raise exc_type("own")
        return None if ends == 4 else value
    saved = roscpp_initializer.init_node, rospy.init_node

    def failing(*a, **k):
        raise RuntimeError("set-up")
    if fails == 1:
        roscpp_initializer.init_node = failing
    elif fails == 2:
        rospy.init_node = failing
    result = exc = None
    try:
        if how == 0:
            with ros_init.RosContext(name):
                result = body(1, 2)
        elif how == 1:
            result = ros_init.with_ros(name)(body)(1, b=2)
        elif how == 2:
            ros_init.rospy_and_cpp_init(name)
            try:
                result = body(1, 2)
            finally:
                ros_init.shutdown()
        else:
            @ros_init.with_ros(name)
            def outer(*a, **k):
                return body(*a, **k)
            result = outer(1, b=2)
    except (Boom, KeyboardInterrupt, SystemExit, RuntimeError) as e:
        exc = e
    finally:
        roscpp_initializer.init_node, rospy.init_node = saved
    run.step()
    run.note(f"  {w.calls} {result} {exc!r}")
    if fails:
        run.check(isinstance(exc, RuntimeError) and not steps, f"set-up failed: {steps} {exc!r}")
        return
    run.check(steps == [(1, 2)], f"the work ran as {steps}")
    if exc_type:
        run.check(type(exc) is exc_type and exc.args == ("own",), f"{exc!r}")
    else:
        run.check(exc is None and result is (None if ends == 4 else value), f"{result} {exc!r}")
    run.check(sorted(state()[:2]) == sorted(up) and sorted(state()[2:]) == sorted(down), f"{state()}")
    opts = next(c for c in w.calls if c[0] == "cpp_init")[2]
    run.check(opts.get("disable_signals") is True, "the C++ node replaces the Python signal handlers")
    try:
        helpers.logfatal(ValueError, "fatal words")
        run.fail("logfatal returns")
    except ValueError as e:
        run.check(e.args == ("fatal words",) and ("fatal", "fatal words") in w.logs, f"{w.logs}")
    run.state(how, ends, name)


@mc.scenario("speech", "every sequence of up to two (three) texts sent to the speaking node", depth=1)
def speech(run):
    texts = ["", "hello", "two words", "a;b $(c) `d` 'e \"f\"", "* ? ~", "\u00e4\nsecond line", "hello", "-5 degrees",
             "--help", "--", "-"]
    said = [run.pick(texts, "text") for _ in range(run.choose(1 + run.bound(2, 3), "messages"))]
    w = rospy.World()
    rospy.world = w
    ran, at = [], []

    def command(args, *a, **k):
        run.check(not k.get("shell") and not isinstance(args, (str, bytes)), f"run through a shell: {args}")
        # what espeak makes of its arguments: those that begin with a dash and more are options, up to "--"
        args, words = list(args), []
        run.check(args[:1] == ["espeak"], f"runs {args}")
        rest = args[1:]
        while rest:
            v = rest.pop(0)
            if v == "--":
                words += rest
                break
            if len(v) > 1 and v[0] == "-":
                words.append(("option", v))
            else:
                words.append(v)
        ran.append(words)

    def on_spin():
        run.check(("init_node", "tts_node") in w.calls, "spins before the node is set up")
        run.check(len(w.subscribers) == 1 and w.subscribers[0].name == "speak", f"subscribed to {[s.name for s in w.subscribers]}")
        for t in said:
            w.subscribers[0].deliver(String(data=t))
            run.step()
        at.append(len(ran))

    w.on_spin = on_spin
    old = {n: getattr(subprocess, n) for n in ("run", "call", "check_call", "Popen")}
    try:
        for n in old:
            setattr(subprocess, n, command)
        space = {"__name__": "__main__"}
        exec(TTS, space)
    finally:
        for n, f in old.items():
            setattr(subprocess, n, f)
    run.check(len(at) == 1, f"spins {len(at)} times")
    run.check(ran == [[t] for t in said], f"{said} sent, {ran} spoken")
    run.state(*said)


if __name__ == "__main__":
    sys.exit(mc.main())
