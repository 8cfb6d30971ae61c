"""Plain-number reference for the McCode placement convention (independent of the code under test)."""
import math


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(a, v):
    return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]


def tr(a):
    return [[a[j][i] for j in range(3)] for i in range(3)]


EYE = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]


def axis_rotation(axis, rad):
    c, s = math.cos(rad), math.sin(rad)
    return {'x': [[1, 0, 0], [0, c, s], [0, -s, c]],
            'y': [[c, 0, -s], [0, 1, 0], [s, 0, c]],
            'z': [[c, s, 0], [-s, c, 0], [0, 0, 1]]}[axis]


def euler(x, y, z):
    """x, then the new y, then the new z; radian"""
    return mul(axis_rotation('z', z), mul(axis_rotation('y', y), axis_rotation('x', x)))


class Affine:
    """v -> R v + t"""
    def __init__(self, r=None, t=None):
        self.r, self.t = r or EYE, t or [0.0, 0.0, 0.0]

    def then(self, o):
        return Affine(mul(o.r, self.r), [x + y for x, y in zip(apply(o.r, self.t), o.t)])

    def flat(self):
        return [x for i in range(3) for x in (*self.r[i], self.t[i])]


def close(a, b, tol=1e-9):
    return all(abs(x - y) <= tol * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def deg(x):
    return x / 180 * math.pi
