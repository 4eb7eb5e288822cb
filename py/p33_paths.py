"""P33: path densifying, traversal, closest points, trajectory reversal and polynomial trajectories on all small inputs."""
import copy
import itertools
import math
import sys

import numpy as np

import mc
import rospy
from trajectory_msgs.msg import JointTrajectory, JointTrajectoryPoint

import arc_utilities.path_utils as pu
import arc_utilities.trajectory_planning as tp

EPS = 1e-9


def d(a, b):
    return math.sqrt(sum((float(x) - float(y)) ** 2 for x, y in zip(a, b)))


def close(a, b, eps=EPS):
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= eps * (1 + abs(float(y))) for x, y in zip(a, b))


def along(a, b, f):
    return [float(x) + (float(y) - float(x)) * f for x, y in zip(a, b)]


def gen_path(run, lo, hi, points):
    n = lo + run.choose(hi - lo + 1, "waypoints")
    return [run.pick(points, "waypoint") for _ in range(n)]


def spelled(run, path):
    k = run.choose(3, "lists / tuples / array")
    if not path:
        return []
    return [list(p) for p in path] if k == 0 else [tuple(p) for p in path] if k == 1 else np.array(path)


def as_lists(path):
    return [[float(x) for x in p] for p in path]


GRID = [(0, 0), (1, 0), (0, 2), (3, 2)]
GRID3 = [(0, 0, 0), (1, 2, 2), (-2, 0, 1)]


def distinct(path):
    out = []
    for p in path:
        if not out or d(out[-1], p) > EPS:
            out.append(p)
    return out


@mc.scenario("densify", "densifying every small path with every step size", depth=3)
def densify(run):
    dims = run.choose(3, "dimension")
    pts = [[(0,), (1,), (-2.5,), (0.75,)], GRID, GRID3][dims]
    path = gen_path(run, 0, run.bound(4, 5), pts)
    step = run.pick([0.1, 0.3, 0.5, 1, 2, 2.5, 100], "step")
    arg = spelled(run, path)
    before = copy.deepcopy(arg)
    run.note(f"  densify({path}, {step})")
    run.step()
    got = as_lists(pu.densify(arg, step))
    run.check(len(arg) == len(before) and np.array_equal(np.array(arg), np.array(before)), "the path given was changed")
    if not path:
        run.check(got == [], f"an empty path became {got}")
        return
    run.check(close(got[0], path[0]) and close(got[-1], path[-1]), f"endpoints changed: {got[0]} .. {got[-1]}")
    want = [list(map(float, path[0]))]
    for a, b in zip(path, path[1:]):
        length = d(a, b)
        if length == 0:
            continue
        # as many steps as needed, give or take rounding of the quotient
        k = max(1, math.ceil(length / step - 1e-9))
        seg = []
        if len(got) >= len(want) + k:
            seg = got[len(want):len(want) + k]
        if not (seg and close(seg[-1], b)) and len(got) > len(want) + k:
            k += 1
        run.check(length / k <= step * (1 + 1e-6), f"a step of {length / k} exceeds {step}")
        want += [along(a, b, (i + 1) / k) for i in range(k)]
    run.check(len(got) == len(want) and all(close(g, w) for g, w in zip(got, want)),
              f"densify({path}, {step}) gave {got}, expected {want}")
    for g, h in zip(got, got[1:]):
        run.check(d(g, h) <= step * (1 + 1e-6), f"points {g} and {h} are more than {step} apart")
    ln = pu.path_length(arg)
    run.check(abs(ln - sum(d(a, b) for a, b in zip(path, path[1:]))) < 1e-9, f"length of {path} is {ln}")
    run.check(abs(pu.path_length(got) - ln) < 1e-6, "densifying changed the length")
    if len(path) == 2:
        line = as_lists(pu.densify_line(arg[0], arg[1], step))
        run.check(len(line) == len(got) - 1 and all(close(g, w) for g, w in zip(line, got[1:])),
                  f"densify_line({path}, {step}) gave {line}")
    run.state(path, step)


def nearest(path, q):
    """(distance, index, fraction) of the first closest point of the path, from the definition."""
    best = (d(path[0], q), 0, 0.0)
    for i in range(len(path) - 1):
        a, b = path[i], path[i + 1]
        l2 = sum((y - x) ** 2 for x, y in zip(a, b))
        f = 0.0 if l2 == 0 else sum((y - x) * (z - x) for x, y, z in zip(a, b, q)) / l2
        f = min(1.0, max(0.0, f))
        dd = d(along(a, b, f), q)
        if dd < best[0] - 1e-12:
            best = (dd, i, f)
    return best


@mc.scenario("closest", "closest points of every small path to lattice points", depth=3)
def closest(run):
    path = gen_path(run, 1, run.bound(4, 5), GRID if run.choose(2, "dimension") == 0 else GRID3)
    dim = len(path[0])
    q = tuple(run.pick([-1, 0, 0.75, 2, 5][:5 if dim == 2 else 3], "query") for _ in range(dim))
    arg = spelled(run, path)
    run.step()
    p, ind, alpha = pu.closest_point(arg, q)
    p = [float(x) for x in p]
    run.note(f"  closest_point({path}, {q}) = {p}, {ind}, {alpha}")
    best, wi, wf = nearest(path, q)
    run.check(abs(d(p, q) - best) < EPS, f"{p} is {d(p, q)} from {q}, the path comes within {best}")
    run.check(0 <= ind < len(path) and 0 <= alpha < 1, f"index {ind}, fraction {alpha}")
    if alpha == 0:
        run.check(close(p, path[ind]), f"{p} is not waypoint {ind}")
    else:
        run.check(ind + 1 < len(path) and close(p, along(path[ind], path[ind + 1], alpha)),
                  f"{p} is not {alpha} of the way from waypoint {ind} to the next")
    if len(path) >= 2:
        sp, sa = pu.closest_point_to_line_segment([arg[0], arg[1]], q)
        best, wi, wf = nearest(path[:2], q)
        run.check(abs(d(sp, q) - best) < EPS and 0 <= sa <= 1 and close(list(sp), along(path[0], path[1], sa)),
                  f"closest point of segment {path[:2]} to {q}: {sp}, {sa}")
    run.state(path, q)


@mc.scenario("travel", "travelling along every small path by every distance", depth=3)
def travel(run):
    path = gen_path(run, 1, run.bound(4, 5), GRID)
    dist = run.pick([0, 0.5, 1, 2, 3.25, 100, -0.5, -1, -2, -3.25, -100], "distance")
    start = run.pick([None] + run.bound([(0, 1), (1, 0.5), (3, 2), (-1, -1)], [(0, 1), (1, 0.5), (3, 2), (-1, -1), (0, 0),
                                                                               (2, 2), (0.5, 0)]), "start")
    arg = spelled(run, path)
    before = copy.deepcopy(arg)
    run.note(f"  travel_along({path}, {dist}, {start})")
    run.step()
    got = as_lists(pu.travel_along(arg, dist) if start is None else pu.travel_along(arg, dist, start))
    run.check(np.array_equal(np.array(arg), np.array(before)), "the path given was changed")
    s = start or path[0]
    p, ind, alpha = pu.closest_point(arg, s)
    lens = [d(a, b) for a, b in zip(path, path[1:])]
    pos = sum(lens[:ind]) + (alpha * lens[ind] if alpha else 0)
    cum = [sum(lens[:i]) for i in range(len(path))]
    end = min(max(pos + dist, 0), cum[-1])
    run.check(close(got[0], [float(x) for x in p]) and abs(d(got[0], s) - nearest(path, s)[0]) < EPS,
              f"starts at {got[0]}, the closest point is {p}")

    def at(c):
        for i in range(len(lens)):
            if c <= cum[i + 1] + 1e-12:
                return along(path[i], path[i + 1], (c - cum[i]) / lens[i] if lens[i] else 0)
        return list(path[-1])
    mids = [c for c in cum if min(pos, end) + EPS < c < max(pos, end) - EPS]
    mids = sorted(set(round(c, 9) for c in mids), reverse=dist < 0)
    want = [at(pos)] + [at(c) for c in mids] + ([at(end)] if abs(end - pos) > EPS else [])
    have = distinct(got)
    run.check(len(have) == len(distinct(want)) and all(close(g, w, 1e-7) for g, w in zip(have, distinct(want))),
              f"travel_along({path}, {dist}, {start}) gave {got}, expected {want}")
    ln = sum(d(a, b) for a, b in zip(got, got[1:]))
    run.check(abs(ln - abs(end - pos)) < 1e-7, f"travelled {ln} instead of {abs(end - pos)}")
    run.state(path, dist, start)


FRACTIONS = [1e-6, 1e-3, 0.01, 0.04, 0.1, 0.25, 0.5, 0.75, 0.9, 0.96, 0.99, 0.999, 1 - 1e-6]
BENT = [[(0, 0), (4, 0), (4, 4)], [(0, 0), (0, 40), (-3, 36), (5, 30)], [(0, 0, 0), (1, 2, 2), (-2, 0, 8), (0, 0, 9)], [(0,), (8,), (10,)]]


@mc.scenario("travel_corners", "travelling both ways, not at all, up to, short of and beyond the corners from starting points at 13 fractions "
             "of every segment of four bent paths; closest points to them", depth=2)
def travel_corners(run):
    path = run.pick(BENT, "path")
    i = run.choose(len(path) - 1, "segment")
    f = run.pick(FRACTIONS, "fraction")
    lens = [d(a, b) for a, b in zip(path, path[1:])]
    cum = [sum(lens[:k]) for k in range(len(path))]
    pos = cum[i] + f * lens[i]
    c = run.choose(len(cum), "towards")
    end = cum[c] + run.pick([0, 1e-3, 0.3, 1.5, -1e-3, -0.3, -1.5], "past")
    s = along(path[i], path[i + 1], f)
    run.step()
    got = as_lists(pu.travel_along(path, end - pos, s))
    run.note(f"  travel_along({path}, {end - pos}, {s}) = {got}")
    end = min(max(end, 0), cum[-1])

    def at(x):
        for k in range(len(lens)):
            if x <= cum[k + 1]:
                return along(path[k], path[k + 1], (x - cum[k]) / lens[k])
        return list(path[-1])
    mids = sorted((x for x in cum if min(pos, end) < x < max(pos, end)), reverse=end < pos)
    want = [at(x) for x in [pos] + mids + [end]]

    def thin(path):  # neighbours closer than rounding can tell apart count once
        out = []
        for p in path:
            if not out or d(out[-1], p) > 1e-7:
                out.append(p)
        return out
    have, want = thin(got), thin(want)
    run.check(len(have) == len(want) and all(d(g, w) < 3e-7 for g, w in zip(have, want)),
              f"travel_along({path}, .., {s}) to {end} gave {got}, expected {want}")
    p, ind, alpha = pu.closest_point(path, s)
    run.check(d(p, s) < 1e-7 and ind == i and abs(alpha - f) < 1e-7, f"closest point of {path} to its own point {s}: {p}, {ind}, {alpha}")
    run.state(i, f, c, end)


def scaled_path(run):
    unit = run.pick([2.0 ** -20, 2.0 ** -10, 1.0, 2.0 ** 40], "unit")
    shape = run.pick(BENT + [[(0, 0), (0.001, 0), (0.001, 2e-6), (3, 2e-6)]], "path")
    return unit, [tuple(x * unit for x in p) for p in shape]


@mc.scenario("other_units", "five bent paths (one with segments of 1e-3 and 2e-6) in units 2^-20, 2^-10, 1 and 2^40: closest points to points "
             "beside and on them (differing by as little as 1e-9 in distance) and travelling both ways between 5 fractions of the segments, or by "
             "1e-6 of the unit", depth=2)
def other_units(run):
    unit, path = scaled_path(run)
    lens = [d(a, b) for a, b in zip(path, path[1:])]
    cum = [sum(lens[:k]) for k in range(len(path))]
    i = run.choose(len(lens), "segment")
    f = run.pick([0.0, 1e-3, 0.3, 0.999, 1.0], "fraction")
    q = along(path[i], path[i + 1], f)
    what = run.choose(2, "closest / travel")
    run.step()
    if what == 0:
        for j in range(len(q)):
            q[j] += unit * run.pick([0, 1e-9, -1e-6, 1e-3, -0.5], "beside")
        p, ind, alpha = pu.closest_point(path, q)
        best, wi, wf = nearest([[x / unit for x in w] for w in path], [x / unit for x in q])
        run.note(f"  closest_point({path}, {q}) = {p}, {ind}, {alpha}")
        run.check(abs(d(p, q) / unit - best) < 1e-13 * 100, f"{p} is {d(p, q) / unit} units from {q}, the path comes within {best}")
        on = along(path[ind], path[ind + 1], alpha) if alpha else path[ind]
        run.check(0 <= alpha < 1 and d(on, p) < 1e-13 * 100 * unit, f"{p} is not {alpha} of the way from waypoint {ind}")
        run.state(unit, path, q)
        return
    pos = cum[i] + f * lens[i]
    c, g = run.choose(len(lens), "to segment"), run.pick([0.0, 0.3, 0.999, None], "to fraction")
    delta = run.pick([1e-6, -1e-6], "by") * unit if g is None else cum[c] + g * lens[c] - pos
    got = as_lists(pu.travel_along(path, delta, q))
    run.note(f"  travel_along({path}, {delta}, {q}) = {got}")
    end = min(max(pos + delta, 0), cum[-1])

    def at(x):
        for k in range(len(lens)):
            if x <= cum[k + 1]:
                return along(path[k], path[k + 1], (x - cum[k]) / lens[k])
        return list(path[-1])
    tol = 1e-12 * unit
    run.check(d(got[0], at(pos)) < 20 * tol and d(got[-1], at(end)) < 20 * tol, f"from {got[0]} to {got[-1]}, expected {at(pos)} to {at(end)}")
    ln = sum(d(a, b) for a, b in zip(got, got[1:]))
    run.check(abs(ln - abs(end - pos)) < 50 * tol, f"travelled {ln}, expected {abs(end - pos)}")
    for w, x in zip(path, cum):
        if min(pos, end) + 1e-9 * unit < x < max(pos, end) - 1e-9 * unit:
            run.check(any(d(w, h) < 20 * tol for h in got), f"corner {w} is left out: {got}")
    run.check(abs(pu.path_length(path) - cum[-1]) < 50 * tol, f"length {pu.path_length(path)}, expected {cum[-1]}")
    run.state(unit, path, q, delta)


@mc.scenario("densify_units", "the same paths, with spacings that fit the segments exactly, or are 1e-9, 1e-6, 1e-3 longer or shorter than that, "
             "1 to 5 times: never farther apart than asked, no more points than needed", depth=2)
def densify_units(run):
    unit, path = scaled_path(run)
    lens = [d(a, b) for a, b in zip(path, path[1:])]
    i = run.choose(len(lens), "segment")
    step = lens[i] / (1 + run.choose(5, "times")) * (1 + run.pick([0, 1e-9, 1e-6, 1e-3, -1e-9, -1e-6, -1e-3], "more"))
    if max(lens) / step > 3000:
        raise mc.Prune()
    got = as_lists(pu.densify(path, step))
    run.step()
    worst = max(d(a, b) for a, b in zip(got, got[1:]))
    run.check(worst <= step * (1 + 1e-11), f"densify({path}, {step}) has points {worst} apart, {worst / step - 1} more than allowed")
    want = 1 + sum(max(1, math.ceil(x / step * (1 - 1e-11))) for x in lens)
    more = 1 + sum(max(1, math.ceil(x / step * (1 + 1e-11))) for x in lens)
    run.check(want <= len(got) <= more, f"densify({path}, {step}) has {len(got)} points, expected {want} to {more}")
    run.check(got[0] == [float(x) for x in path[0]] and d(got[-1], path[-1]) < 1e-11 * unit, "ends changed")
    for w in path:
        run.check(any(d(w, h) < 1e-11 * unit for h in got), f"waypoint {w} is left out")
    run.state(unit, path, step)


@mc.scenario("clamp", "clamping and distances")
def clamp(run):
    vals = [-2, -0.5, 0, 1, 1.5, 7]
    x, lo, hi = run.pick(vals, "value"), run.pick(vals, "low"), run.pick(vals, "high")
    run.step()
    if lo <= hi:
        run.check(pu.clamp(x, lo, hi) == (lo if x < lo else hi if x > hi else x), f"clamp({x}, {lo}, {hi})")
    a, b = (x, lo, 1), (hi, x, -2)
    run.check(abs(pu.dist(a, b) - d(a, b)) < EPS and abs(pu.dist(list(b), np.array(a)) - d(a, b)) < EPS,
              f"distance of {a} and {b}")
    run.state(x, lo, hi)


@mc.scenario("reverse", "reversing trajectories of every length and timing", depth=2)
def reverse(run):
    n = run.choose(run.bound(5, 6), "points")
    gaps = [run.pick([0, 1, 250000000, 3 * 10 ** 9], "gap") for _ in range(n)]
    vel = run.flip("velocities")
    t = JointTrajectory(joint_names=["a", "b"])
    t.header.frame_id = "frame"
    now = 0
    for i in range(n):
        now += gaps[i]
        p = JointTrajectoryPoint(positions=[float(i), -2.0 * i], time_from_start=rospy.Duration(0, now))
        if vel:
            p.velocities, p.accelerations, p.effort = [1.0 + i, -0.5], [2.0 * i, 3.0], [4.0, float(i)]
        t.points.append(p)
    before = copy.deepcopy(t)
    run.step()
    r = pu.reverse_trajectory(t)
    run.check(t == before, "the trajectory given was changed")
    run.check(r.joint_names == t.joint_names and r.header == t.header, "header or joint names changed")
    run.check(len(r.points) == n, f"{n} points became {len(r.points)}")
    for i, p in enumerate(r.points):
        o = t.points[n - 1 - i]
        run.check(p is not o and p.positions == o.positions and p.accelerations == o.accelerations
                  and p.effort == o.effort, f"point {i} is {p}")
        run.check([x + y for x, y in zip(p.velocities, o.velocities)] == [0.0] * len(o.velocities)
                  and len(p.velocities) == len(o.velocities), f"velocities {o.velocities} became {p.velocities}")
        want = t.points[-1].time_from_start - o.time_from_start
        run.check(p.time_from_start == want, f"point {i} at {p.time_from_start}, expected {want}")
    if n:
        again = pu.reverse_trajectory(r)
        run.check([p.positions for p in again.points] == [p.positions for p in t.points], "reversed twice")
        again.points[0].positions.append(1.0)
        run.check(t == before, "the reversed trajectory shares data with the original")
    run.state(gaps, vel)


def vec(run, kind, x):
    return float(x) if kind == 0 else np.array([[x], [2.0 * x - 1]]) if kind == 1 else np.array([x, -x, 3 * x], dtype=float)


@mc.scenario("polynomials", "linear, quadratic and cubic trajectories between all small boundary conditions", depth=3)
def polynomials(run):
    order = 1 + run.choose(3, "order")
    kind = run.choose(3, "number / column / row")
    vals = run.bound([-2, 0, 1.5], [-2, -0.5, 0, 1.5])
    x0, v0 = vec(run, kind, run.pick(vals, "x0")), vec(run, kind, run.pick(vals, "v0"))
    T = run.pick([2.0 ** -10, 2.0 ** -6, 0.5, 1.0, 2.0, 4.0, 100.0], "duration")
    if order == 1:
        f = tp.get_linear_trajectory(x0, v0)
    else:
        xt = vec(run, kind, run.pick(vals, "xt"))
        if order == 2:
            f = tp.get_quadratic_trajectory(x0, v0, xt, T)
        else:
            vt = vec(run, kind, run.pick(vals, "vt"))
            f = tp.get_cubic_trajectory(x0, v0, xt, vt, T)
    run.step()

    def same(a, b, what):
        run.check(np.shape(a) == np.shape(x0) and np.allclose(a, b, rtol=1e-9, atol=1e-9), f"{what}: {a}, expected {b}")
    s, v, a = f(0.0)
    same(s, x0, "start position")
    same(v, v0, "start velocity")
    if order >= 2:
        same(f(T)[0], xt, "end position")
    if order == 3:
        same(f(T)[1], vt, "end velocity")
    h = 0.25 * T
    for t in (0.0, 0.25 * T, T):
        p, v, a = f(t)

        def diff(i, h):
            return (f(t + h)[i] - f(t - h)[i]) / (2 * h)
        # exact for polynomials of this degree
        same(v, (4 * diff(0, h / 2) - diff(0, h)) / 3, f"velocity at {t} is not the derivative of the position")
        same(a, diff(1, h), f"acceleration at {t} is not the derivative of the velocity")
        if order == 1:
            same(a, 0 * x0, "acceleration of a linear trajectory")
        if order == 2:
            same(a, f(0.0)[2], "acceleration of a quadratic trajectory")
    g = tp.get_trajectory_fn(x0, v0, 2 * x0, 3 * v0)
    t = T
    same(g(t)[0], x0 + v0 * t + 2 * x0 * t * t + 3 * v0 * t ** 3, "position of the given polynomial")
    same(g(t)[1], v0 + 4 * x0 * t + 9 * v0 * t * t, "velocity of the given polynomial")
    same(g(t)[2], 4 * x0 + 18 * v0 * t, "acceleration of the given polynomial")
    run.state(order, kind, T, repr(x0), repr(v0))


if __name__ == "__main__":
    sys.exit(mc.main())
