"""P34: transform, pose, point, quaternion and colour conversions against matrix algebra on all lattice values."""
import copy
import itertools
import math
import os
import sys

os.environ.setdefault("MPLCONFIGDIR", os.getcwd())
import numpy as np

import mc
import rospy
from geometry_msgs.msg import (Point, PointStamped, Pose, PoseStamped, Quaternion, Transform, Vector3)
from std_msgs.msg import ColorRGBA
from tf.transformations import quaternion_matrix
from visualization_msgs.msg import Marker, MarkerArray

import arc_utilities.color as color
import arc_utilities.conversions as conv
import arc_utilities.marker_utils as marker_utils
import arc_utilities.normalize_point_msg as norm_point
import arc_utilities.numpy_conversions as npc
import arc_utilities.transformation_helper as th

H = 0.5 ** 0.5
# the 24 axis rotations (one sign each), and generic ones
AXIS24 = [(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0)]
AXIS24 += [tuple(s * H if k == i else H if k == 3 else 0 for k in range(4)) for i in range(3) for s in (1, -1)]
AXIS24 += [tuple(H if k == i else s * H if k == j else 0 for k in range(4))
           for i, j in ((0, 1), (0, 2), (1, 2)) for s in (1, -1)]
AXIS24 += [(a * .5, b * .5, c * .5, .5) for a in (1, -1) for b in (1, -1) for c in (1, -1)]
GENERIC = [(0.36, -0.48, 0.8 * 0.6, 0.64), (0.1, 0.2, -0.3, 0.9), (-0.7, 0.1, 0.05, -0.4), (0.01, 0, 0, 1)]
GENERIC = [tuple(x / math.sqrt(sum(y * y for y in q)) for x in q) for q in GENERIC]
QS = AXIS24 + GENERIC + [tuple(-x for x in AXIS24[7]), tuple(-x for x in GENERIC[1])]
TS = [(0., 0, 0), (1., -2, 3), (0.5, 1e3, -1e-3)]


def rot(q):
    x, y, z, w = (float(v) for v in q)
    n = math.sqrt(x * x + y * y + z * z + w * w)
    x, y, z, w = x / n, y / n, z / n, w / n
    return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])


def mat(t, q):
    m = np.eye(4)
    m[:3, :3] = rot(q)
    m[:3, 3] = t
    return m


def tf(t, q):
    return Transform(translation=Vector3(*t), rotation=Quaternion(*q))


def pose(t, q):
    return Pose(position=Point(*t), orientation=Quaternion(*q))


def of(m):
    """Matrix of a Transform or Pose message; also asserts that the quaternion is a unit one."""
    t, q = (m.translation, m.rotation) if isinstance(m, Transform) else (m.position, m.orientation)
    q = (q.x, q.y, q.z, q.w)
    return mat((t.x, t.y, t.z), q) if abs(sum(x * x for x in q) - 1) < 1e-9 else None


def near(a, b, eps=1e-9):
    return a is not None and np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=eps, atol=eps)


class Checker:
    def __init__(self, run):
        self.run = run

    def __call__(self, got, want, what, eps=1e-9):
        self.run.step()
        if not near(got, want, eps):
            self.run.fail(f"{what}: {got}, expected {want}")


@mc.scenario("representations", "one rigid transform through every representation and back", depth=1)
def representations(run):
    q, t = run.pick(QS, "rotation"), run.pick(TS, "translation")
    scale = run.pick([1, -1, 2.5], "quaternion scale")
    ok = Checker(run)
    m = mat(t, q)
    q2 = tuple(scale * x for x in q)
    ok(th.BuildMatrix(t, q2), m, "BuildMatrix")
    ok(th.BuildMatrixRos(Vector3(*t), Quaternion(*q2)), m, "BuildMatrixRos")
    ok(th.BuildMatrixFromTransRot(t, rot(q)), m, "BuildMatrixFromTransRot")
    ok(th.BuildRawMatrix(rot(q), t), m, "BuildRawMatrix")
    r, tv = th.ExtractRawFromMatrix(m)
    ok(r, rot(q), "ExtractRawFromMatrix rotation")
    ok(tv, list(t), "ExtractRawFromMatrix translation")
    tv, qv = th.ExtractFromMatrix(m)
    ok(mat(tv, qv), m, "ExtractFromMatrix")
    ok(sum(x * x for x in qv), 1.0, "ExtractFromMatrix quaternion length")
    ok(of(th.TransformFromMatrix(m)), m, "TransformFromMatrix")
    ok(of(th.PoseFromMatrix(m)), m, "PoseFromMatrix")
    T, P = tf(t, q2), pose(t, q2)
    ok(th.TransformToMatrix(T), m, "TransformToMatrix")
    ok(th.PoseToMatrix(P), m, "PoseToMatrix")
    run.check(th.PoseFromTransform(T) == P and type(th.PoseFromTransform(T)) is Pose, "PoseFromTransform")
    run.check(th.PoseToTransform(P) == T and type(th.PoseToTransform(P)) is Transform, "PoseToTransform")
    run.check(th.PoseFromComponents(t, q2) == P and th.TransformFromComponents(t, q2) == T, "FromComponents")
    run.check([list(x) for x in th.ComponentsFromPose(P)] == [list(t), list(q2)]
              and [list(x) for x in th.ComponentsFromTransform(T)] == [list(t), list(q2)], "ComponentsFrom")
    run.check(T == tf(t, q2) and P == pose(t, q2), "a conversion changed its argument")
    nq = th.NormalizeQuaternion(q2)
    ok(nq, [x * (1 if scale > 0 else -1) for x in q], "NormalizeQuaternion")
    n = th.NormalizeQuaternionRos(Quaternion(*q2))
    ok([n.x, n.y, n.z, n.w], nq, "NormalizeQuaternionRos")
    run.state(q, t, scale)


@mc.scenario("group", "composition, inversion and application of all pairs of transforms", depth=1)
def group(run):
    a = (run.pick(TS[1:], "translation 1"), run.pick(QS, "rotation 1"))
    b = (run.pick(TS[:2], "translation 2"), run.pick(QS, "rotation 2"))
    ok = Checker(run)
    A, B = mat(*a), mat(*b)
    ok(of(th.ComposeTransforms(tf(*a), tf(*b))), A @ B, "ComposeTransforms", 1e-7)
    ok(of(th.ComposePoses(pose(*a), pose(*b))), A @ B, "ComposePoses", 1e-7)
    ok(th.ComposeMatrices(A, B), A @ B, "ComposeMatrices")
    inv = np.eye(4)
    inv[:3, :3] = A[:3, :3].T
    inv[:3, 3] = -A[:3, :3].T @ A[:3, 3]
    ok(of(th.InvertTransform(tf(*a))), inv, "InvertTransform", 1e-7)
    ok(of(th.InvertPose(pose(*a))), inv, "InvertPose", 1e-7)
    ok(th.InvertMatrix(A), inv, "InvertMatrix", 1e-7)
    ok(rot(th.ComposeQuaternions(a[1], b[1])), (A @ B)[:3, :3], "ComposeQuaternions")
    p = b[0]
    want = A[:3, :3] @ np.array(p) + A[:3, 3]
    for name, got in (("ComposePoseWithPoint", th.ComposePoseWithPoint(pose(*a), Point(*p))),
                      ("ComposeTransformWithPoint", th.ComposeTransformWithPoint(tf(*a), Point(*p)))):
        ok([got.x, got.y, got.z], want, name)
    # the angle of the relative rotation
    R = A[:3, :3].T @ B[:3, :3]
    skew = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    angle = math.atan2(np.linalg.norm(skew) / 2, (np.trace(R) - 1) / 2)
    for name, got in (("AngleBetweenQuaternions", th.AngleBetweenQuaternions(a[1], b[1])),
                      ("AngleBetweenQuaternionsRos", th.AngleBetweenQuaternionsRos(Quaternion(*a[1]),
                                                                                   Quaternion(*b[1])))):
        run.check(abs(got - angle) < 1e-6, f"{name}: {got}, expected {angle}")
    run.state(a, b)


@mc.scenario("axis_angle", "axis and angle of rotations, Denavit-Hartenberg matrices, spherical coordinates", depth=1)
def axis_angle(run):
    ok = Checker(run)
    k = run.choose(3, "axis angle / DH / spherical")
    angles = [0, 0.3, math.pi / 2, 2.5, math.pi, -0.3, -math.pi / 2, 4.0]
    if k == 0:
        axis = tuple(run.pick([-1, 0, 2], "axis") for _ in range(3))
        angle = run.pick(angles, "angle")
        q = th.QuaternionFromAxisAngle(list(axis), angle)
        if axis == (0, 0, 0):
            ok(q, [0, 0, 0, 1], "quaternion of the zero axis")
            return
        n = np.array(axis) / np.linalg.norm(axis)
        K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
        ok(rot(q), np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K @ K, f"rotation by {angle} about {axis}")
        a, ax = th.AxisFromQuaternion(q)
        ok(rot(th.QuaternionFromAxisAngle(ax, a)), rot(q), "axis and angle of a quaternion", 1e-7)
        ok(np.linalg.norm(ax), 1.0, "length of the axis")
        ok(th.NormalizeVector3(list(axis)), n, "NormalizeVector3")
    elif k == 1:
        d, a = run.pick([0, 1.5, -2], "d"), run.pick([0, 0.75, 3], "a")
        th_, al = run.pick(angles[:6], "theta"), run.pick(angles[:6], "alpha")

        def rz(x):
            return np.array([[math.cos(x), -math.sin(x), 0, 0], [math.sin(x), math.cos(x), 0, 0], [0, 0, 1, 0],
                             [0, 0, 0, 1.]])

        def rx(x):
            return np.array([[1., 0, 0, 0], [0, math.cos(x), -math.sin(x), 0], [0, math.sin(x), math.cos(x), 0],
                             [0, 0, 0, 1]])
        tz, tx = np.eye(4), np.eye(4)
        tz[2, 3], tx[0, 3] = d, a
        want = tz @ rz(th_) @ tx @ rx(al)
        ok(th.BuildMatrixFromDH(d, a, th_, al), want, f"DH matrix of d={d} a={a} theta={th_} alpha={al}")
        ok(of(th.TransformFromDH(d, a, th_, al)), want, "TransformFromDH", 1e-7)
        ok(of(th.PoseFromDH(d, a, th_, al)), want, "PoseFromDH", 1e-7)
        ok(mat(*th.ExtractFromDH(d, a, th_, al)), want, "ExtractFromDH", 1e-7)
    else:
        v = [run.pick([-2, -0.5, 0, 1, 1e-3], "coordinate") for _ in range(3)]
        r, phi, theta = th.vector3_to_spherical(v)
        ok(r, np.linalg.norm(v), "radius")
        run.check(-math.pi <= phi <= math.pi and 0 <= theta <= math.pi, f"angles {phi}, {theta} of {v}")
        ok(th.spherical_to_vector3([r, phi, theta]), np.array(v, float), f"{v} through spherical coordinates", 1e-8)
        if v[0] > 0 and v[1] == 0:
            ok(phi, 0.0, "angle about z of the x direction")
        if v[0] == 0 and v[1] > 0:
            ok(phi, math.pi / 2, "angle about z of the y direction")
        ok(th.spherical_to_vector3([2.0, 0.4, 1.1]), [2 * math.sin(1.1) * math.cos(.4), 2 * math.sin(1.1)
                                                      * math.sin(.4), 2 * math.cos(1.1)], "spherical_to_vector3")
    run.state(k, run.script[:run.pos])


@mc.scenario("small", "rotations 1e-1 to 1e-8 rad apart about 5 axes from all base rotations: angle between them, axis and angle; vectors "
             "scaled by 1e-150 to 1e150: spherical coordinates, unit vectors, norms", depth=1)
def small(run):
    ok = Checker(run)
    if run.flip("vectors"):
        v = np.array([run.pick([-2, 0, 0.5], "coordinate") for _ in range(3)], float)
        scale = run.pick([1e-150, 1e-40, 1e-12, 1e-7, 1e-3, 1.0, 1e5, 1e40, 1e150], "scale")
        if not v.any():
            return
        w, n = v * scale, np.linalg.norm(v)
        r, phi, theta = th.vector3_to_spherical(list(w))
        ok(r / scale, n, f"radius of {w}")
        ok(np.array(th.spherical_to_vector3([r, phi, theta])) / scale, v, f"{w} through spherical coordinates", 1e-9)
        ok(th.TranslationNorm(Vector3(*w)) / scale, n, f"TranslationNorm of {w}")
        ok(th.NormalizeVector3(list(w)), v / n, f"NormalizeVector3 of {w}")
        u = norm_point.normalize_point(Point(*w))
        ok([u.x, u.y, u.z], v / n, f"normalize_point of {w}")
        run.state(tuple(w))
        return
    base = run.pick(QS, "rotation")
    axis = np.array(run.pick([(1, 0, 0), (0, 1, 0), (0, 0, -1), (1, 1, 1), (1, -2, 0.5)], "axis"), float)
    axis /= np.linalg.norm(axis)
    angle = run.pick([0.1, 0.03, 0.02, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8], "angle")
    d = [*(axis * math.sin(angle / 2)), math.cos(angle / 2)]
    other = th.ComposeQuaternions(base, d)
    if run.flip("opposite sign"):
        other = [-x for x in other]
    for name, got in (("AngleBetweenQuaternions", th.AngleBetweenQuaternions(base, other)),
                      ("AngleBetweenQuaternionsRos", th.AngleBetweenQuaternionsRos(Quaternion(*base),
                                                                                   Quaternion(*other)))):
        run.check(abs(got - angle) < 1e-7, f"{name} of rotations {angle} apart: {got}")
    q = th.QuaternionFromAxisAngle(list(axis), angle)
    ok(q, d, f"rotation by {angle} about {axis}")
    a, ax = th.AxisFromQuaternion(q)
    run.check(abs(a - angle) < 1e-7, f"angle {a} of a rotation by {angle}")
    if angle >= 1e-4:
        ok(ax, axis, f"axis of a rotation by {angle}", 1e-6)
    run.state(base, tuple(axis), angle)


@mc.scenario("points", "points, lists of points, markers and unit vectors", depth=1)
def points(run):
    ok = Checker(run)
    vals = [-2.5, 0, 1, 4]
    a, b = [[run.pick(vals, "coordinate") for _ in range(3)] for _ in range(2)]
    A, B = Point(*a), Point(*b)
    s, df = th.AddPoints(A, B), th.SubtractPoints(A, B)
    ok([s.x, s.y, s.z], [x + y for x, y in zip(a, b)], "AddPoints")
    ok([df.x, df.y, df.z], [y - x for x, y in zip(a, b)], "SubtractPoints (second minus first)")
    ok(th.TranslationNorm(Vector3(*a)), math.sqrt(sum(x * x for x in a)), "TranslationNorm")
    ok(th.PointToVector(A), a + [1.0], "PointToVector")
    run.check(th.PointFromVector(np.array(b + [1.0])) == B, "PointFromVector")
    m = mat(b, QS[run.choose(3, "rotation") * 9 + 1])
    pts = [A, B, Point(0, 0, 1)][:run.choose(4, "points")]
    got = npc.ListPointsToNpArray(pts)
    ok(got, np.array([[p.x, p.y, p.z] for p in pts]).T.reshape(3, len(pts)), "ListPointsToNpArray")
    got = npc.ListPointsToNpArray(pts, m)
    ok(got, np.array([(m @ [p.x, p.y, p.z, 1])[:3] for p in pts]).T.reshape(3, len(pts)),
       "ListPointsToNpArray with a transform")
    if any(a):
        u = norm_point.normalize_point(A)
        ok([u.x, u.y, u.z], np.array(a) / np.linalg.norm(a), "normalize_point")
        u = norm_point.make_unit_point(*a)
        ok([u.x, u.y, u.z], np.array(a) / np.linalg.norm(a), "make_unit_point")
    else:
        for f in (lambda: norm_point.normalize_point(A), lambda: norm_point.make_unit_point(0, 0, 0),
                  lambda: th.NormalizeVector3(a)):
            try:
                f()
            except AssertionError:
                continue
            run.fail("the zero vector is not refused")
    arr = MarkerArray(markers=[Marker(scale=Vector3(*a), id=1), Marker(scale=Vector3(*b), id=2)])
    r = marker_utils.scale_marker_array(arr, 1.5)
    ok([[k.scale.x, k.scale.y, k.scale.z] for k in r.markers], [[1.5 * x for x in v] for v in (a, b)],
       "scale_marker_array")
    run.check(A == Point(*a) and B == Point(*b), "an argument was changed")
    run.state(a, b)


@mc.scenario("poses", "pose, position and quaternion arguments in every accepted form", depth=1)
def poses(run):
    ok = Checker(run)
    t, q = run.pick(TS, "translation"), run.pick(QS, "rotation")
    rospy.world.time = lambda: 77.5
    stamped = PoseStamped(pose=pose(t, q))
    stamped.header.frame_id, stamped.header.stamp = "f", rospy.Time(5)
    kind = run.choose(5, "stamped / pose / seven numbers / six numbers / neither")
    if kind == 0:
        r = conv.convert_to_pose_msg(stamped)
        run.check(r == stamped and r.header.frame_id == "f" and r.header.stamp == rospy.Time(5), "stamped pose changed")
    elif kind == 1:
        r = conv.convert_to_pose_msg(pose(t, q))
        run.check(type(r) is PoseStamped and r.pose == pose(t, q), f"pose became {r}")
        run.check(r.header.stamp == rospy.Time.from_sec(77.5), "the pose is not stamped with the current time")
    elif kind == 2:
        r = conv.convert_to_pose_msg(list(t) + list(q))
        run.check(type(r) is PoseStamped and r.pose == pose(t, q), f"seven numbers became {r}")
        run.check(r.header.stamp == rospy.Time.from_sec(77.5), "the pose is not stamped with the current time")
    elif kind == 3:
        rpy = [run.pick([0, 0.4, -math.pi / 2, 2], "angle") for _ in range(3)]
        r = conv.convert_to_pose_msg(list(t) + rpy)
        ok(of(r.pose), mat(t, conv.quaternion_from_euler(*rpy)), "six numbers")
        cx, sx, cy, sy, cz, sz = (f(x) for x in rpy for f in (math.cos, math.sin))
        R = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]]) @ np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]]) \
            @ np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
        ok(of(r.pose)[:3, :3], R, "roll, pitch, yaw")
        run.check(r.header.stamp == rospy.Time.from_sec(77.5), "the pose is not stamped with the current time")
    else:
        for bad, exc in (([1.0] * 5, ValueError), ([1.0] * 8, ValueError), ([], ValueError), (None, NotImplementedError),
                         (tf(t, q), NotImplementedError)):
            try:
                conv.convert_to_pose_msg(bad)
            except exc:
                continue
            run.fail(f"{bad!r} is not refused with {exc.__name__}")
    p = Point(*t)
    run.check(conv.convert_to_position(p) == Point(*t) and conv.convert_to_position(PointStamped(point=p)) == p
              and conv.convert_to_position(list(t)) == p and conv.convert_to_position(np.array(t)) == p,
              "convert_to_position")
    given = dict(a=p, b=PointStamped(point=Point(1, 2, 3)), c=t)
    r = conv.convert_to_positions(given)
    run.check(list(r) == ["a", "b", "c"] and r["a"] == p and r["b"] == Point(1, 2, 3) and r["c"] == p
              and conv.convert_to_positions({}) == {}, f"convert_to_positions: {r}")
    scale = run.pick([1, -3, 0.25, 1e-6, -1e-12, 1e9], "scale")
    want = [x * (1 if scale > 0 else -1) for x in q]
    n = conv.normalize_quaternion(Quaternion(*[scale * x for x in q]))
    ok([n.x, n.y, n.z, n.w], want, "normalize_quaternion of a message")
    n = conv.normalize_quaternion([scale * x for x in q])
    ok(list(n), want, "normalize_quaternion of a list")
    run.state(kind, t, q)


LEVELS = [0.0, 0.2, 0.4, 0.6, 0.8, 1.0]


@mc.scenario("colour_spaces", "every lattice colour through XYZ, Lab and Msh and back", depth=2)
def colour_spaces(run):
    ok = Checker(run)
    levels = LEVELS if not run.thorough() else [i / 20 for i in range(21)]
    top = run.pick([1.0, 100.0, 255.0], "full scale")
    rgb = [run.pick(levels, "level") * top for _ in range(3)]
    xyz = color.convert_rgb_to_xyz(*rgb)
    m = np.array([[0.4124, 0.3576, 0.1805], [0.2126, 0.7152, 0.0722], [0.0193, 0.1192, 0.9505]])
    ok(xyz, m @ rgb, "convert_rgb_to_xyz")
    ok(color.convert_xyz_to_rgb(*xyz), rgb, "colour through XYZ", 1e-6)
    lab = color.convert_xyz_to_lab(*xyz)

    def f(v):
        return v ** (1 / 3) if v > (6 / 29) ** 3 else v / (3 * (6 / 29) ** 2) + 4 / 29
    fx, fy, fz = (f(v / w) for v, w in zip(m @ rgb, (95.047, 100.0, 108.883)))
    ok(lab, [116 * fy - 16, 500 * (fx - fy), 200 * (fy - fz)], "convert_xyz_to_lab", 1e-6)
    ok(color.convert_lab_to_xyz(*lab), xyz, "colour through Lab", 1e-6)
    msh = color.convert_lab_to_msh(*lab)
    ok(msh[0], math.sqrt(sum(v * v for v in lab)), "magnitude")
    ok(color.convert_msh_to_lab(*msh), lab, "colour through Msh", 1e-6)
    ok(color.rgb_to_msh(*rgb), msh, "rgb_to_msh")
    ok(color.msh_to_rgb(*msh), rgb, "colour through all spaces", 1e-5)
    run.state(rgb)


@mc.scenario("colour_maps", "colour maps over their whole range, and clamping", depth=1)
def colour_maps(run):
    k = run.choose(4, "hot to cold / jet / coolwarm / clamp")
    n = 48
    i = run.choose(n + 1, "value")
    x = i / n
    if k == 0:
        lo, hi = run.pick([(0.0, 1.0), (-2.0, 6.0), (10.0, 11.0)], "range")
        beyond = run.pick([0, -1, 1], "outside")
        v = lo + x * (hi - lo) if not beyond else lo - x - 0.01 if beyond < 0 else hi + x + 0.01
        got = color.interpolate_hot_to_cold(v) if (lo, hi) == (0.0, 1.0) else color.interpolate_hot_to_cold(v, lo, hi)
        f = min(1.0, max(0.0, (v - lo) / (hi - lo)))
        # blue, cyan, green, yellow, red at 0, 1/4, 1/2, 3/4, 1 and linear in between
        knots = [(0, 0, 1), (0, 1, 1), (0, 1, 0), (1, 1, 0), (1, 0, 0)]
        j = min(3, int(f * 4))
        want = [a + (b - a) * (f * 4 - j) for a, b in zip(knots[j], knots[j + 1])]
        run.check(near(got, want, 1e-9), f"hot to cold at {f} of the range: {got}, expected {want}")
        if (lo, hi) == (0.0, 1.0):
            c = color.map_color(v)
            run.check(near([c.r, c.g, c.b, c.a], want + [1.0]), f"map_color({v}) is {c}")
    elif k == 1:
        def base(v):
            return max(0.0, min(1.0, 1.5 - 2 * abs(v)))
        if run.flip("negative range"):
            v = 2 * x - 1
            got = color.interpolate_jet(v, True)
        else:
            v = 2 * x - 1
            got = color.interpolate_jet(x)
        want = [base(v - 0.5), base(v), base(v + 0.5)]
        run.check(near(got, want, 1e-9), f"jet at {v}: {got}, expected {want}")
    elif k == 2:
        c1, c2 = run.pick(ENDS, "from"), run.pick(ENDS, "to")
        got = color.interpolate_coolwarm(c1, c2, x)
        if i in (0, n):
            want = c1 if i == 0 else c2
            # the hue of a nearly grey end is free
            grey = max(want) - min(want) < 3
            run.check(np.allclose(got, want, atol=3.0 if grey else 1e-4), f"coolwarm from {c1} to {c2} at {x}: {got}")
        step = color.interpolate_coolwarm(c1, c2, min(1.0, max(0.0, x + 1e-9 * run.pick([1, -1], "side"))))
        run.check(np.allclose(step, got, atol=1e-4), f"coolwarm from {c1} to {c2} jumps at {x}: {got}, {step}")
        run.check(all(math.isfinite(v) for v in got), f"coolwarm from {c1} to {c2} at {x}: {got}")
        back = color.interpolate_coolwarm(c2, c1, 1 - x)
        (m1, s1, h1), (m2, s2, h2) = color.rgb_to_msh(*c1), color.rgb_to_msh(*c2)
        if s1 > 0.05 and s2 < 0.04 and 0 < i < n // 2:
            # on the way to a lighter grey the hue turns away from purple, else it stays
            turn = math.remainder(color.rgb_to_msh(*got)[2] - h1, 2 * math.pi)
            away = math.copysign(1.0, h1 + math.pi / 3)
            run.check(turn * away > 1e-4 if m2 > m1 + 1 else abs(turn) < 1e-4 if m2 < m1 - 1 else True,
                      f"coolwarm from {c1} to the grey {c2} at {x} turns the hue from {h1} by {turn}")
        if i != n // 2 and 1 - (1 - x) == x:
            run.check(near(got, back, 1e-5), f"coolwarm from {c1} to {c2} at {x}: {got}, and back: {back}")
    else:
        vals = [-1e9, -0.5, -0.0, 0.0, 1e-9, x, 1.0 - 1e-9, 1.0, 1.5, 1e9, float("inf"), float("-inf")]
        v, w = run.pick(vals, "value"), run.pick([0.25, 2.0, -1.0], "other")
        want = min(1.0, max(0.0, v))
        run.check(color.safe_color_val(v) == want, f"safe_color_val({v})")
        o = min(1.0, max(0.0, w))
        run.check(color.make_color(v, w, 0.5, 1.0) == ColorRGBA(r=want, g=o, b=0.5, a=1.0)
                  and color.make_color(w, 0.5, v, w) == ColorRGBA(r=o, g=0.5, b=want, a=o), f"make_color with {v}, {w}")
        names = [("white", (1, 1, 1, 1)), ("#00ffee", (0, 1, 238 / 255, 1)), ((0.25, 0.5, x), (0.25, 0.5, x, 1)),
                 ((x, 0.0, 1.0, 0.5), (x, 0, 1, 0.5)), ("r", (1, 0, 0, 1))]
        c, wc = run.pick(names, "colour")
        m = color.to_color_msg(c)
        run.check(near([m.r, m.g, m.b, m.a], wc), f"to_color_msg({c}) is {m}")
        y = run.pick([-3.0, -0.5, 0.0, 1.0, 3.1], "angle")
        opposite = y + math.copysign(math.pi, -y)
        for y2 in (6.28 * x - 3.14, *(opposite + e for e in (0.0, 1e-2, -1e-2, 1e-4, -1e-4, 1e-7, -1e-7))):
            dd = abs(math.remainder(y - y2, 2 * math.pi))
            run.check(abs(color.rad_diff(y, y2) - dd) < 1e-9, f"rad_diff({y}, {y2})")
    run.step()
    run.state(k, i)


# saturated, unsaturated and dark colours, on a 0..100 scale
ENDS = [(23.0, 30.0, 75.0), (70.0, 2.0, 15.0), (50.0, 50.0, 50.0), (5.0, 60.0, 10.0), (95.0, 95.0, 94.0), (0.0, 0.0, 0.0)]


def diverging(c1, c2, x):
    """Moreland's diverging colour map (Diverging Color Maps for Scientific Visualization, 2009) in Msh space"""
    ends = [tuple(color.rgb_to_msh(*c)) for c in (c1, c2)]
    apart = abs(math.remainder(ends[0][2] - ends[1][2], 2 * math.pi))
    if min(ends[0][1], ends[1][1]) > 0.05 and apart > math.pi / 3:
        white = (max(ends[0][0], ends[1][0], 88.0), 0.0, 0.0)
        ends, x = ([ends[0], white], 2 * x) if x < 0.5 else ([white, ends[1]], 2 * x - 1)
    for i, j in ((0, 1), (1, 0)):
        (m, s, h), (mu, su, _) = ends[i], ends[j]
        if su < 0.05 < s:  # the hue of the unsaturated end
            if mu > m:
                spin = s * math.sqrt(mu * mu - m * m) / (m * math.sin(s))
                h += spin if h > -math.pi / 3 else -spin
            ends[j] = (mu, su, h)
            break
    return color.msh_to_rgb(*((1 - x) * a + x * b for a, b in zip(*ends)))


@mc.scenario("diverging_map", "cool-warm colours between all pairs of colours of a 5 x 5 x 5 grid at nine ratios against the published definition", depth=2)
def diverging_map(run):
    vals = [0.0, 10.0, 35.0, 70.0, 100.0]
    c1 = tuple(run.pick(vals, "from") for _ in range(3))
    c2 = tuple(run.pick(vals, "to") for _ in range(3))
    for k in range(9):
        x = k / 8
        run.step()
        try:
            want = diverging(c1, c2, x)
        except (ZeroDivisionError, OverflowError):
            continue
        got = color.interpolate_coolwarm(c1, c2, x)
        run.check(np.allclose(got, want, atol=1e-5), f"cool-warm from {c1} to {c2} at {x}: {got}, expected {want}")
    if c1 < (35.0, 0.0, 0.0) and c2 < (35.0, 0.0, 0.0):
        run.state(c1, c2)


if __name__ == "__main__":
    sys.exit(mc.main())
