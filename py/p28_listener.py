"""P28: every interleaving of message callbacks, readers and construction of the Python topic listener."""
import sched
import sys

sched.install()
import mc  # noqa: E402
import rospy  # noqa: E402
from rosstub import msg  # noqa: E402

import arc_utilities.listener as listener_mod  # noqa: E402
import arc_utilities.ros_helpers as helpers_mod  # noqa: E402

FILES = [listener_mod.__file__, helpers_mod.__file__]
M = msg("M", [("ident", 0), ("parts", list)])


class World(rospy.World):
    """Records which sections of code the events fall in, in scheduler steps."""

    def __init__(self, s):
        super().__init__()
        self.s, self.ops = s, []


def linearizable(ops):
    """ops: (start, end, kind, value). Is there an order of the operations, consistent with real time, in which every
    read returns the last written value (None before the first)?"""
    def go(left, value):
        if not left:
            return True
        first_end = min(o[1] for o in left)
        for i, o in enumerate(left):
            if o[0] > first_end:
                continue
            if o[2] == "w":
                if go(left[:i] + left[i + 1:], o[3]):
                    return True
            elif o[3] == value and go(left[:i] + left[i + 1:], value):
                return True
        return False
    return go(sorted(ops), None)


def build(run, preemptions, publishers, with_callback, reentrant, wait_for_data, readers, shutdown=False):
    """publishers: number of messages each sends; readers: per reader task a list of 'wait'/'now'."""
    s = sched.Sched(run, preemptions, FILES, opcodes=False)
    w = rospy.world = World(s)
    box, seen, errors = [], [], []
    busy = []

    def user(m):
        if busy:
            run.fail("two calls of the user's callback overlap")
        busy.append(1)
        seen.append((m.ident, list(m.parts)))
        run.note(lambda: f"  user callback: {m.ident}")
        if with_callback == "editing":
            m.parts[0] = -m.ident
        s.point()
        if with_callback == "editing":
            m.parts[1] = [-m.ident]
        if reentrant:
            # construction may not have finished, in which case the user has no listener to read yet
            if box:
                r = box[0].get(block_until_data=False)
                if r is None or r.ident != m.ident:
                    run.fail(f"a read inside the callback for message {m.ident} returned {r}")
        busy.pop()

    def whole(i):
        return [[-i, [-i]]] if with_callback == "editing" else [[i, [i]]]

    def deliver(k, n):
        def go():
            s.wait(lambda: w.subscribers)
            for i in range(n):
                ident = 10 * (k + 1) + i
                m = M(ident=ident, parts=[ident, [ident]])
                start = s.steps
                run.note(lambda: f"  publisher {k} delivers {ident}")
                op = [start, float("inf"), "w", ident]
                w.ops.append(op)
                try:
                    w.subscribers[0].deliver(m)
                except Exception as e:
                    run.fail(f"delivering message {ident} raised {type(e).__name__}: {e}, so the message is lost")
                op[1] = s.steps
                s.point()
        return go

    def read(l, how):
        start = s.steps
        r = l.get(block_until_data=(how == "wait"))
        run.note(lambda: f"  get({how}) -> {None if r is None else r.ident}")
        if r is None:
            run.check(how != "wait" or w.shutdown, "a blocking read returned nothing although ROS is up")
            if not (how == "wait"):
                w.ops.append([start, s.steps, "r", None])
        else:
            run.check(r.parts in whole(r.ident), f"the message read is torn or shared with another reader: {r}")
            w.ops.append([start, s.steps, "r", r.ident])
            r.parts[1].append("changed by its reader")
            r.parts.append("changed by its reader")
        return r

    def main():
        l = listener_mod.Listener("topic", M, wait_for_data=wait_for_data, callback=user if with_callback else None,
                                  queue_size=7)
        box.append(l)
        run.note("  constructed")
        sub = w.subscribers
        run.check(len(sub) == 1 and sub[0].name == "topic" and sub[0].data_class is M and sub[0].queue_size == 7,
                  "the subscription is not the one asked for")
        if wait_for_data and not w.shutdown:
            run.check(any(o[2] == "w" for o in w.ops), "construction that waits for data returned before any arrived")
            run.check(read(l, "now") is not None, "construction that waits for data returned, but there is none to read")
        for how in readers[0]:
            read(l, how)

    def other(hows):
        def go():
            s.wait(lambda: box)
            for how in hows:
                read(box[0], how)
        return go

    s.spawn(main, "main")
    for k, n in enumerate(publishers):
        s.spawn(deliver(k, n), f"publisher {k}")
    for hows in readers[1:]:
        s.spawn(other(hows), "reader")
    if shutdown:
        def stop():
            w.shutdown = True
            run.note("  ROS shuts down")
            s.progress()
        s.spawn(stop, "shutdown")
    s.go()
    for t in s.tasks:
        run.check(t.exc is None, lambda: f"{t.name} ended with {type(t.exc).__name__}: {t.exc}")
    if not linearizable([tuple(o) for o in w.ops]):
        run.fail(f"reads and deliveries fit no order in which every read returns the latest message: {w.ops}")
    if with_callback:
        ids = [i for i, _ in seen]
        want = sum(([10 * (k + 1) + i for i in range(n)] for k, n in enumerate(publishers)), [])
        run.check(sorted(ids) == sorted(want), f"the user's callback saw {ids}, delivered were {want}")
        for k, n in enumerate(publishers):
            mine = [i for i in ids if i // 10 == k + 1]
            run.check(mine == sorted(mine), f"the user's callback saw the messages of one publisher out of order: {ids}")
        run.check(all(p == [i, [i]] for i, p in seen), "the user's callback saw a message a reader had changed")
    final = []
    if box:
        s2 = sched.Sched(run, 0)
        s2.spawn(lambda: final.append(box[0].get(False)), "after")
        s2.go()
        last = None if not w.ops else final[0] and final[0].ident
        run.check(last is not None or not any(o[2] == "w" for o in w.ops), "all messages delivered, none can be read")
        run.check(final[0] is None or final[0].parts in whole(final[0].ident),
                  "a reader changed the stored message")
    run.state([(o[2], o[3]) for o in w.ops], [i for i, _ in seen])


@mc.scenario("construct_receive", "messages arriving while the listener is being constructed and read", depth=5)
def construct_receive(run):
    cb = run.pick([None, "plain", "editing"], "user callback")
    wait = run.flip("wait for data")
    pubs = run.pick([[1], [2], [1, 1]], "publishers")
    reads = run.pick([["now"], ["wait"], ["wait", "now"], ["now", "now"]], "reads")
    build(run, run.bound(1 if len(reads) + sum(pubs) > 2 else 2, 2), pubs, cb, False, wait, [reads])


@mc.scenario("two_readers", "two readers and one or two publishers", depth=5)
def two_readers(run):
    cb = run.pick([None, "editing"], "user callback")
    pubs = run.pick([[1], [1, 1]] + run.bound([], [[2]]), "publishers")
    a = run.pick([["now"], ["wait"]] + run.bound([], [["wait", "wait"]]), "reads 1")
    b = run.pick([["now"], ["wait"]] + run.bound([], [["now", "wait"]]), "reads 2")
    build(run, 1, pubs, cb, False, False, [a, b])


@mc.scenario("reading_callback", "a user callback that reads the listener itself", depth=5)
def reading_callback(run):
    pubs = run.pick([[1], [2], [1, 1]], "publishers")
    reads = run.pick([["now"], ["wait"]], "reads")
    build(run, run.bound(1, 2), pubs, True, True, run.flip("wait for data"), [reads])


@mc.scenario("shutdown", "ROS shuts down while a reader or the constructor waits", depth=5)
def shutdown(run):
    pubs = run.pick([[], [1]], "publishers")
    build(run, run.bound(1, 2), pubs, run.flip("user callback"), False, run.flip("wait for data"),
          [["wait"], ["wait"]][:1 + run.choose(2, "readers")], shutdown=True)


if __name__ == "__main__":
    sys.exit(mc.main())
