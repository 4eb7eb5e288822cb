import numpy as np
from tf.transformations import quaternion_matrix


def numpify(m, *a):
    n = type(m).__name__
    if n in ("Point", "Vector3"):
        return np.array([m.x, m.y, m.z])
    if n == "Quaternion":
        return np.array([m.x, m.y, m.z, m.w])
    p, q = (m.position, m.orientation) if n == "Pose" else (m.translation, m.rotation)
    r = quaternion_matrix([q.x, q.y, q.z, q.w])
    r[:3, 3] = [p.x, p.y, p.z]
    return r
