"""Independent reference geometry."""
import math


def rot(roll, pitch, yaw):
    """Body (x fwd, y starboard, z down) to inertial (north, east, down); degrees."""
    r, p, y = (math.radians(a) for a in (roll, pitch, yaw))
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    Rz = [[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]
    Ry = [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]
    Rx = [[1, 0, 0], [0, cr, -sr], [0, sr, cr]]
    return mul(Rz, mul(Ry, Rx))


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def apply(R, v):
    return [sum(R[i][k] * v[k] for k in range(3)) for i in range(3)]


def lerp(t, t0, t1, a, b):
    if a is None or b is None:
        return None
    w = 0.0 if t1 == t0 else (t - t0) / (t1 - t0)
    return (1 - w) * a + w * b


def yaw_lerp(t, t0, t1, a, b):
    w = 0.0 if t1 == t0 else (t - t0) / (t1 - t0)
    d = (b - a + 180.0) % 360.0 - 180.0
    return (a + w * d) % 360.0
