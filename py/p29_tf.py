"""P29: the transform wrapper under every sequence of transform failures, and the repeating sender under every schedule."""
import copy
import itertools
import math
import sched
import sys

sched.install()
import gc  # noqa: E402
import mc  # noqa: E402
import numpy as np  # noqa: E402
import rospy  # noqa: E402
import tf2_ros  # noqa: E402
from geometry_msgs.msg import Point, Pose, Quaternion, TransformStamped, Vector3, Transform  # noqa: E402
from tf.transformations import quaternion_matrix  # noqa: E402

import arc_utilities.reliable_tf as reliable_mod  # noqa: E402
import arc_utilities.tf2wrapper as wrapper_mod  # noqa: E402

gc.disable()  # finalizers run where reference counts say, the same in every execution
FILES = [reliable_mod.__file__, wrapper_mod.__file__]
H = 0.5 ** 0.5
QUATS = [[0., 0, 0, 1], [0, 0, 0, -1.], [1., 0, 0, 0], [0, 0, 1., 0], [0, H, 0, H], [-H, 0, 0, -H], [.5, -.5, .5, .5],
         [0.6, 0, 0, -0.8]]
TRANS = [[0., 0, 0], [1., 2, 3], [-4., 0.5, 1e3]]


def mat(t, q):
    m = quaternion_matrix(q)
    m[:3, 3] = t
    return m


def tmsg(t, q):
    return Transform(translation=Vector3(*t), rotation=Quaternion(*q))


def fill(p, t, q):
    p.position.x, p.position.y, p.position.z = t
    o = p.orientation
    o.x, o.y, o.z, o.w = q


class World(rospy.World):
    def __init__(self, run):
        super().__init__()
        self.run, self.sent = run, []

    def broadcast(self, transforms, static):
        self.sent.append((static, copy.deepcopy(transforms)))  # a publication is serialized at once


class FaultWorld(World):
    """Answers transform requests as the explorer chooses, at most `faults` failures."""

    def __init__(self, run, faults, answer):
        super().__init__(run)
        self.left, self.answer, self.asked, self.history, self.done = faults, answer, [], [], False

    def can_transform(self, target, source, time, timeout):
        self.asked.append(("can", target, source, time, timeout))
        self.run.step()
        if self.done:
            self.run.fail("asks again after the transform was available")
        k = self.run.choose(3 if self.left else 1, "available / not yet / not yet and ROS shuts down")
        self.history.append(k)
        if k == 0:
            return True
        self.left -= 1
        if k == 2:
            self.shutdown = True
        return False

    def lookup(self, target, source, time, timeout):
        self.asked.append(("lookup", target, source, time))
        self.done = True
        k = self.run.choose(6, "lookup outcome")
        self.history.append(k)
        if k:
            raise [tf2_ros.LookupException, tf2_ros.ConnectivityException, tf2_ros.ExtrapolationException,
                   tf2_ros.InvalidArgumentException, RuntimeError][k - 1]("injected")
        return self.answer


@mc.scenario("lookups", "every outcome sequence of transform lookups", depth=4)
def lookups(run):
    use_msg = run.flip("message form")
    verbose = run.flip("verbose")
    given = run.flip("time and spin delay given")
    t, q = TRANS[1], run.pick(QUATS[2:7], "rotation")
    answer = TransformStamped(transform=tmsg(t, q))
    w = rospy.world = FaultWorld(run, run.bound(4, 6), answer)
    tfw = wrapper_mod.TF2Wrapper()
    kw = dict(verbose=verbose)
    time, delay = rospy.Time(), rospy.Duration(0, 100 * 1000 * 1000)
    if given:
        time, delay = rospy.Time(12, 34), rospy.Duration(2, 5)
        kw.update(time=time, spin_delay=delay)
    f = tfw.get_transform_msg if use_msg else tfw.get_transform
    result, exc = None, None
    try:
        result = f("the_parent", "the_child", **kw) if run.flip("positional") else f(parent="the_parent",
                                                                                       child="the_child", **kw)
    except BaseException as e:
        if isinstance(e, (mc.Violation, mc.HarnessError, mc.Cut)):
            raise
        exc = e
    cans = [a for a in w.asked if a[0] == "can"]
    for a in w.asked:
        run.check(a[1:3] == ("the_parent", "the_child"), f"asked for target {a[1]} from {a[2]}")
        run.check(a[3] == time, f"asked for time {a[3]!r}, the caller wants {time!r}")
    for a in cans:
        run.check(a[4] == delay, f"waits {a[4]!r} between messages instead of {delay!r}")
    nfail = sum(1 for a, k in zip(cans, w.history) if k)
    run.note(f"  outcomes {w.history}: returned {type(result).__name__}, raised {exc!r}")
    if w.shutdown:
        run.check(isinstance(exc, KeyboardInterrupt), f"ROS is down and the wait ended with {exc!r}")
        run.check(w.history[-1] == 2, "goes on after ROS is down")
        nfail -= 1
    else:
        k = w.history[-1]
        if k == 0:
            run.check(exc is None, f"the transform was available, but {exc!r} was raised")
            if use_msg:
                run.check(result is answer, "another message than the one looked up")
            else:
                run.check(result is not None and np.shape(result) == (4, 4) and np.allclose(result, mat(t, q)),
                          f"the matrix is not the transform looked up: {result}")
        elif k <= 3 and not use_msg:
            run.check(exc is None and result is None, f"lookup failed: expected None, got {result} and {exc!r}")
            run.check(any(l == "error" for l, _ in w.logs), "the failure is not reported")
        else:
            want = [tf2_ros.LookupException, tf2_ros.ConnectivityException, tf2_ros.ExtrapolationException,
                    tf2_ros.InvalidArgumentException, RuntimeError][k - 1]
            run.check(type(exc) is want, f"lookup failed with {want.__name__}, the caller sees {exc!r}")
    levels = [l for l, m in w.logs if l in ("info", "debug")]
    run.check(levels == ["info" if verbose else "debug"] * nfail, f"{nfail} waits logged as {levels}")
    run.state(use_msg, verbose, given, w.history)


class Tracked(dict):
    pass


@mc.scenario("sends", "sequences of transforms sent through one wrapper, dynamic and static", depth=3)
def sends(run):
    pose = Pose(position=Point(0, 0, 0), orientation=Quaternion(0, 0, 0, 1))  # the caller reuses what it sends
    w = rospy.world = World(run)
    s = sched.Sched(run, 0)
    try:
        tfw = wrapper_mod.TF2Wrapper()
        statics = {}
        n = run.bound(3, 4)
        shape = []
        for i in range(1 + run.choose(n, "operations")):
            how = run.choose(3, "components / matrix / pose")
            static = run.flip("static")
            # the first operation covers all values, later ones two
            q = run.pick(QUATS if i == 0 else QUATS[3:4], "rotation")
            t = TRANS[1] if i == 0 else [float(i), 0.25, -float(i)]
            child = run.pick(["a", "b"], "child") if i else "a"
            # a frame may be moved to another parent later
            parent = f"parent_of_{child}" if not static or child not in statics or how != 0 or run.flip("same parent") else "another_parent"
            time = rospy.Time(50 + i, 7) if run.flip("time given") else None
            s.now = 1000.0 + i
            kw = {} if time is None else dict(time=time)
            if static or run.flip("flag given"):
                kw["is_static"] = static
            before = len(w.sent)
            run.step()
            if how == 0:
                tt, qq = list(t), list(q)
                tfw.send_transform(tt, qq, parent, child, **kw)
                tt[:], qq[:] = [9.0] * 3, [0.5] * 4
            elif how == 1:
                mm = mat(t, q)
                tfw.send_transform_matrix(mm, parent, child, **kw)
                mm[:] = 7.0
            else:
                p = pose
                fill(p, t, q)
                tfw.send_transform_from_pose_msg(p, parent, child, **kw)
                run.check(p == Pose(position=Point(*t), orientation=Quaternion(*q)), "sending changed the pose given")
                fill(p, [9.0] * 3, [0.5] * 4)
            run.check(len(w.sent) == before + 1, f"one send became {len(w.sent) - before} publications")
            was_static, msgs = w.sent[-1]
            run.check(was_static == static, f"published as {'static' if was_static else 'dynamic'}")
            want = (mat(t, q), parent, child,
                    (time or rospy.Time.from_sec(1000.0 + i)).to_nsec(), [*t], [*q] if how != 1 else None)
            if static:
                statics[child] = want
            for m in msgs:
                wm = statics.get(m.child_frame_id) if static else want
                run.check(wm is not None and m.child_frame_id == wm[2], f"unexpected child {m.child_frame_id}")
                run.check(m.header.frame_id == wm[1], f"child {wm[2]} sent with parent {m.header.frame_id}")
                run.check(m.header.stamp.to_nsec() == wm[3], f"stamp {m.header.stamp.to_nsec()}, expected {wm[3]}")
                tr, r = m.transform.translation, m.transform.rotation
                run.check(np.allclose([tr.x, tr.y, tr.z], wm[4]), "translation differs")
                if wm[5] is not None:
                    run.check([r.x, r.y, r.z, r.w] == wm[5], f"rotation {r} for {wm[5]}")
                run.check(np.allclose(mat(wm[4], [r.x, r.y, r.z, r.w]), wm[0]), f"rotation {r} is not the one given")
            ids = [m.child_frame_id for m in msgs]
            if static:
                run.check(sorted(ids) == sorted(statics), f"static transforms given for {sorted(statics)}, a "
                          f"publication lists {ids}", )
            else:
                run.check(ids == [child], f"published {ids} for {child}")
            shape.append((how, static, child, time is None))
        run.state(shape)
    finally:
        sched.current = None


@mc.scenario("convert_frame", "transforming stamped objects is passed to the buffer unchanged", depth=1)
def convert_frame(run):
    class W(World):
        def transform(self, *a):
            self.sent.append(a)
            if run.choose(2, "outcome"):
                raise tf2_ros.ExtrapolationException("injected")
            return "result"
    w = rospy.world = W(run)
    own = run.choose(3, "own / given buffer / given both")
    buf = tf2_ros.Buffer()
    if own == 0:
        tfw = wrapper_mod.TF2Wrapper()
    elif own == 1:
        tfw = wrapper_mod.TF2Wrapper(buffer=buf)
    else:
        lis = tf2_ros.TransformListener(buf)
        tfw = wrapper_mod.TF2Wrapper(buf, lis)
        run.check(tfw.tf_listener is lis, "the listener given is not used")
    run.check(own == 0 or tfw.tf_buffer is buf, "the buffer given is not used")
    run.check(tfw.tf_listener.buffer is tfw.tf_buffer, "the listener fills another buffer")
    o = object()
    kw, want = {}, [o, "world", rospy.Duration(0), None]
    if run.flip("timeout"):
        kw["timeout"] = want[2] = rospy.Duration(3)
    if run.flip("new type"):
        kw["new_type"] = want[3] = str
    try:
        r = tfw.transform_to_frame(o, "world", **kw)
        run.check(r == "result", "another result than the buffer's")
    except tf2_ros.ExtrapolationException:
        pass
    run.step()
    run.check(w.sent == [tuple(want)], f"the buffer was asked {w.sent}")
    run.state(own, sorted(kw))


class TfWorld(World):
    """A small tf: publications reach the buffer unless the explorer drops them; lookups may fail transiently."""

    def __init__(self, run, s, drops, faults):
        super().__init__(run)
        self.s, self.drops, self.faults = s, drops, faults
        self.tree, self.log = {}, []

    def broadcast(self, transforms, static):
        me = self.s.me()
        drop = self.drops > 0 and self.run.choose(2, "publication dropped") == 1
        if drop:
            self.drops -= 1
        for m in transforms:
            tr, r = m.transform.translation, m.transform.rotation
            v = mat([tr.x, tr.y, tr.z], [r.x, r.y, r.z, r.w])
            self.log.append((self.s.steps, (m.header.frame_id, m.child_frame_id), v, m.header.stamp.to_sec(), static,
                             me.n))
            if not drop:
                self.tree[(m.header.frame_id, m.child_frame_id)] = v
        self.run.note(lambda: f"  {me.name} {me.n} publishes {[m.child_frame_id for m in transforms]}"
                      + (" (dropped)" if drop else ""))

    def can_transform(self, target, source, time, timeout):
        self.s.wait(lambda: (target, source) in self.tree, timeout.to_sec())
        return (target, source) in self.tree

    def lookup(self, target, source, time, timeout):
        self.s.sleep(0.03)
        if self.faults and self.run.choose(2, "lookup fails") == 1:
            self.faults -= 1
            self.run.note("  lookup fails")
            raise tf2_ros.ExtrapolationException("injected")
        v = self.tree[(target, source)]
        m = TransformStamped(transform=tmsg(v[:3, 3], wrapper_mod.transformation_helper.quaternion_from_matrix(v)))
        return m


def start(tf, how, t, q, parent, child, static):
    """starts a repeated transform; what was handed over is overwritten afterwards"""
    if how == 0:
        t, q = list(t), list(q)
        tf.start_send_transform(t, q, parent, child, is_static=static)
        t[:], q[:] = [9.0] * 3, [0.5] * 4
    elif how == 1:
        m = mat(t, q)
        tf.start_send_transform_matrix(m, parent, child, is_static=static)
        m[:] = mat([9.0] * 3, [0.5] * 4)
    else:
        p = Pose(position=Point(*t), orientation=Quaternion(*q))
        tf.start_send_transform_from_pose_msg(p, parent, child, is_static=static)
        fill(p, [9.0] * 3, [0.5] * 4)


def managed(run, ops, preemptions, drops, faults, hows, qs, static, end="close", ts=None):
    s = sched.Sched(run, preemptions, FILES, idle_limit=300, max_steps=20000)
    w = rospy.world = TfWorld(run, s, drops, faults)
    hist = []
    retired = {}  # pair -> step after which nothing of an earlier value may be published

    def check_log(pair, v, since):
        mine = [e for e in w.log if e[1] == pair and e[0] > since]
        for e in mine:
            run.check(np.allclose(e[2], v), f"an older transform for {pair} is published after a newer one was started")

    def main():
        tf = reliable_mod.ReliableTF()
        active = {}
        for i, op in enumerate(ops):
            name, pair = op
            before = s.steps
            if name == "start":
                t, q = ts[i % len(ts)] if ts else [float(i + 1), 0.5, -2.0], qs[i % len(qs)]
                v = mat(t, q)
                run.note(f"  start {pair}")
                start(tf, hows[i % len(hows)], t, q, pair[0], pair[1], static)
                run.check(pair in w.tree and np.allclose(w.tree[pair], v),
                          f"start for {pair} returned before the transform was received")
                active[pair] = (v, s.steps)
                retired.pop(pair, None)
                run.note(f"  started {pair}")
            elif name == "stop":
                tf.stop_send(*pair)
                run.note(f"  stopped {pair}")
                if active.pop(pair, None):
                    retired[pair] = s.steps
            elif name == "wait":
                have = {p: len([e for e in w.log if e[1] == p]) for p in active}
                s.sleep(0.55)
                for p in active:
                    k = len([e for e in w.log if e[1] == p]) - have[p]
                    # a sender held up by a pre-emption may be late
                    run.check(k >= 4 or run.spent.get("pre-emption"), f"in 0.55 s {p} was published {k} times")
            run.step()
            for p, (v, since) in active.items():
                check_log(p, v, since)
        if end == "close":
            tf.close()
        else:
            tf.__del__() if end == "del" else None
        for p in active:
            retired[p] = s.steps
        run.note("  closed")
        run.check(all(x.done for x in s.tasks if x.name == "thread"), "a sender still runs after close")
        n = len(w.log)
        s.sleep(0.35)
        run.check(len(w.log) == n, "something is published after close")
        tf.close()
        tf2 = reliable_mod.ReliableTF()
        run.check(not tf2.managed_tfs and tf2.shared_tfw is not tf.shared_tfw and not tf2.static_tfs,
                  "instances share state")

    m = s.spawn(main, "main")
    s.go()
    if m.exc is not None:
        run.fail(f"{type(m.exc).__name__}: {m.exc}")
    for t in s.tasks:
        run.check(t.exc is None, lambda: f"a sender ended with {type(t.exc).__name__}: {t.exc}")
    for p, step in retired.items():
        late = [e for e in w.log if e[1] == p and e[0] > step]
        run.check(not late or static, f"{p} is published after its sender was stopped")
    last = {}
    for e in w.log:
        run.check(static or e[4] is False, "published as static")
        run.check(e[3] <= s.now, "stamped in the future")
        k = (e[1], e[5])
        if not static:
            run.check(k not in last or e[3] > last[k], "a repeated publication carries an old time stamp")
            last[k] = e[3]
    run.state(ops, [(e[1], e[5]) for e in w.log][:6])


AB, AC = ("world", "b"), ("world", "c")


@mc.scenario("repeat", "starting, replacing, stopping and closing repeated transforms", depth=4)
def repeat(run):
    how = run.choose(3, "components / matrix / pose")
    ops = run.pick([
        [("start", AB)],
        [("start", AB), ("wait", None)],
        [("start", AB), ("start", AB)],
        [("start", AB), ("start", AC), ("stop", AB), ("wait", None)],
        [("start", AB), ("stop", AB), ("start", AB)],
        [("stop", AB), ("start", AB), ("stop", AC)],
        [("start", AB), ("start", AC), ("start", AB), ("wait", None)],
    ], "history")
    drops, faults = run.pick([(0, 0), (1, 0), (0, 1), (1, 1)], "drops, lookup failures")
    short = len(ops) <= 2
    managed(run, ops, run.bound(1 if short else 0, 2 if short else 1), drops, faults, [how],
            [QUATS[6], QUATS[3]], False, run.pick(["close", "del"], "end"))


@mc.scenario("repeat_values", "every way of sending, every rotation (both signs)", depth=3)
def repeat_values(run):
    how = run.choose(3, "components / matrix / pose")
    q = run.pick(QUATS, "rotation")
    static = run.flip("static")
    managed(run, [("start", AB), ("start", AC), ("wait", None)], 0, 1, 0, [how], [q], static)


@mc.scenario("repeat_nearby", "a repeated transform is replaced by one that differs by 1e-4 or 1e-2, or by the turn the other way, while up to two "
             "publications are lost; several frames are repeated and closed", depth=3)
def repeat_nearby(run):
    how = run.choose(3, "components / matrix / pose")
    kind = run.choose(6, "what differs")
    drops = run.choose(3, "drops") if kind < 5 else 0
    t, q = [1.0, 0.5, -2.0], [0.6, 0, 0, 0.8]
    if kind == 5:
        n = run.pick([4, 6], "frames")
        managed(run, [("start", ("world", f"f{i}")) for i in range(n)] + [("wait", None)], 0, drops, 0, [how], QUATS, False)
        return
    t2, q2 = list(t), list(q)
    if kind == 0:
        t2[1] += 1e-4
    elif kind == 1:
        t2[2] -= 1e-2
    elif kind == 2:
        q2 = [-0.6, 0, 0, 0.8]
    elif kind == 3:
        q2 = [math.sin(0.6435011087932844 + 1e-4), 0, 0, math.cos(0.6435011087932844 + 1e-4)]
    else:
        q2 = [0, 0.6, 0, 0.8]
    managed(run, [("start", AB), ("start", AB), ("wait", None)], 0, drops, 0, [how], [q, q2], False, ts=[t, t2])


@mc.scenario("repeat_shutdown", "ROS shuts down while a transform is being started or sent", depth=3)
def repeat_shutdown(run):
    s = sched.Sched(run, run.bound(2, 3), FILES, idle_limit=300, max_steps=20000)
    w = rospy.world = TfWorld(run, s, 0, 0)
    lost = run.flip("nothing arrives")
    if lost:
        w.can_transform = lambda *a: (s.sleep(0.1), False)[1]
    out = []

    def main():
        tf = reliable_mod.ReliableTF()
        try:
            start(tf, 1, [1., 2, 3], QUATS[6], *AB, False)
            out.append("started")
        except KeyboardInterrupt:
            out.append("interrupted")
        s.wait(lambda: w.shutdown)
        tf.close()
        out.append("closed")
        n = len(w.log)
        s.sleep(1.0)
        run.check(len(w.log) == n, "something is published after close")

    def stop():
        w.shutdown = True
        run.note("  ROS shuts down")

    m = s.spawn(main, "main")
    s.spawn(stop, "shutdown")
    s.go()
    run.check(m.exc is None, lambda: f"{type(m.exc).__name__}: {m.exc}")
    run.check(out[-1] == "closed" and (not lost or out[0] == "interrupted"), f"{out}")
    run.state(lost, out, len(w.log))


if __name__ == "__main__":
    sys.exit(mc.main())
