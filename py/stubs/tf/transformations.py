"""The functions of tf.transformations the code under test uses, written from their documented definition.
Quaternions are [x, y, z, w]."""
import math

import numpy as np

_EPS = np.finfo(float).eps * 4.0


def quaternion_matrix(quaternion):
    x, y, z, w = (float(v) for v in list(quaternion)[:4])
    n = x * x + y * y + z * z + w * w
    if n < _EPS:
        return np.identity(4)
    s = 2.0 / n
    return np.array([
        [1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w), 0.0],
        [s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w), 0.0],
        [s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y), 0.0],
        [0.0, 0.0, 0.0, 1.0]])


def quaternion_from_matrix(matrix):
    m = np.array(matrix, dtype=float)[:4, :4]
    q = np.empty(4)
    t = np.trace(m)
    if t > m[3, 3]:
        q[3] = t
        q[2] = m[1, 0] - m[0, 1]
        q[1] = m[0, 2] - m[2, 0]
        q[0] = m[2, 1] - m[1, 2]
    else:
        i, j, k = 0, 1, 2
        if m[1, 1] > m[0, 0]:
            i, j, k = 1, 2, 0
        if m[2, 2] > m[i, i]:
            i, j, k = 2, 0, 1
        t = m[i, i] - (m[j, j] + m[k, k]) + m[3, 3]
        q[i] = t
        q[j] = m[i, j] + m[j, i]
        q[k] = m[k, i] + m[i, k]
        q[3] = m[k, j] - m[j, k]
    return q * (0.5 / math.sqrt(t * m[3, 3]))


def quaternion_multiply(q1, q0):
    x0, y0, z0, w0 = q0
    x1, y1, z1, w1 = q1
    return np.array([x1 * w0 + y1 * z0 - z1 * y0 + w1 * x0, -x1 * z0 + y1 * w0 + z1 * x0 + w1 * y0,
                     x1 * y0 - y1 * x0 + z1 * w0 + w1 * z0, -x1 * x0 - y1 * y0 - z1 * z0 + w1 * w0])


def quaternion_inverse(q):
    x, y, z, w = q
    return np.array([-x, -y, -z, w]) / (x * x + y * y + z * z + w * w)


def quaternion_from_euler(ai, aj, ak, axes="sxyz"):
    assert axes == "sxyz"
    qx = [math.sin(ai / 2), 0, 0, math.cos(ai / 2)]
    qy = [0, math.sin(aj / 2), 0, math.cos(aj / 2)]
    qz = [0, 0, math.sin(ak / 2), math.cos(ak / 2)]
    return quaternion_multiply(qz, quaternion_multiply(qy, qx))


def translation_matrix(d):
    m = np.identity(4)
    m[:3, 3] = list(d)[:3]
    return m


def translation_from_matrix(m):
    return np.array(m)[:3, 3].copy()


def inverse_matrix(m):
    return np.linalg.inv(m)


def concatenate_matrices(*ms):
    r = np.identity(4)
    for m in ms:
        r = np.dot(r, m)
    return r


def unit_vector(v):
    v = np.array(v, dtype=float)
    return v / np.linalg.norm(v)
