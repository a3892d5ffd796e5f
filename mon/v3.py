"""Plain-float 3-vector arithmetic for the oracles (independent of the code under test and of numpy)."""
import math


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def mul(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def neg(a):
    return (-a[0], -a[1], -a[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def dist(a, b):
    return norm(sub(a, b))


def madd(a, s, b):
    """a + s*b"""
    return (a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2])


def perp(a, n):
    """component of a perpendicular to the unit vector n"""
    return madd(a, -dot(a, n), n)


def any_perp(n):
    """some unit vector perpendicular to n"""
    k = min(range(3), key=lambda i: abs(n[i]))
    e = [0.0, 0.0, 0.0]
    e[k] = 1.0
    return unit(cross(n, tuple(e)))


def matvec(m, v):
    return (dot(m[0], v), dot(m[1], v), dot(m[2], v))


def rodrigues(v, axis, theta):
    """v turned by theta about the unit axis, right-handed"""
    c, s = math.cos(theta), math.sin(theta)
    return add(add(mul(v, c), mul(cross(axis, v), s)), mul(axis, dot(axis, v) * (1 - c)))


def quat_matrix(w, x, y, z):
    n = math.sqrt(w * w + x * x + y * y + z * z)
    w, x, y, z = w / n, x / n, y / n, z / n
    return ((1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)),
            (2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)),
            (2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)))


def close(a, b, tol):
    return dist(a, b) <= tol


def tup(a):
    return tuple(float(x) for x in a)


def fmt(v):
    if v is None:
        return "None"
    return "(" + ", ".join("%.17g" % x for x in v) + ")"
