"""Generators of hostile-but-legal inputs."""
import numpy as np
from numpy import linalg as LA


def dim(rng, low=2, high=5):
    # 2 and 3 dimensional spaces are the most used
    return int(rng.choice([2, 2, 3, 3] + list(range(low, high + 1))))


def unit(rng, dimension):
    kind = rng.integers(6)
    if kind == 0:  # axis aligned
        vec = np.zeros(dimension)
        vec[rng.integers(dimension)] = rng.choice([-1.0, 1.0])
        return vec
    if kind == 1:  # small integers, i.e., exact ties / zero entries
        vec = rng.integers(-2, 3, size=dimension).astype(float)
        if not LA.norm(vec):
            vec[0] = 1.0
        return vec / LA.norm(vec)
    vec = rng.normal(size=dimension)
    while LA.norm(vec) < 1e-3:
        vec = rng.normal(size=dimension)
    return vec / LA.norm(vec)


def perpendicular(rng, vec):
    vec = vec / LA.norm(vec)
    while True:
        perp = rng.normal(size=vec.shape[0])
        perp = perp - vec * (perp @ vec)
        if LA.norm(perp) > 1e-2:
            perp = perp / LA.norm(perp)
            perp = perp - vec * (perp @ vec)
            return perp / LA.norm(perp)


def rotated_by(rng, vec, angle):
    """Unit vector at (exactly) `angle` of vec in a random plane."""
    vec = vec / LA.norm(vec)
    return np.cos(angle) * vec + np.sin(angle) * perpendicular(rng, vec)


def angle_special(rng, maximum=np.pi - 1e-3):
    """Angle in [0, maximum], often at a delicate value."""
    kind = rng.integers(8)
    if kind == 0:
        return 0.0
    if kind == 1:
        return float(10.0 ** rng.uniform(-7, -2))
    if kind == 2:
        return min(maximum, np.pi / 2)
    if kind == 3:
        return float(maximum - 10.0 ** rng.uniform(-4, -1))
    return float(rng.uniform(0, maximum))


def magnitude(rng):
    return float(rng.choice([1.0, 1.0, 10.0 ** rng.uniform(-4, 4), rng.uniform(0.1, 5)]))


def rotation_matrix(rng, dimension):
    """Random proper rotation."""
    mat, upper = LA.qr(rng.normal(size=(dimension, dimension)))
    mat = mat * np.sign(np.diag(upper))
    if LA.det(mat) < 0:
        mat[:, 0] = -mat[:, 0]
    return mat


def rotation2d(angle):
    return np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])


def weights(rng, size, total=1.0, zeros=True):
    kind = rng.integers(5)
    if kind == 0 and zeros:
        ww = np.zeros(size)
        ww[rng.integers(size)] = 1.0
    elif kind == 1:
        ww = np.ones(size)
    else:
        ww = rng.uniform(0, 1, size=size) ** rng.choice([1, 4])
        if zeros and size > 1:
            ww[rng.uniform(size=size) < 0.25] = 0.0
        if not np.sum(ww):
            ww[0] = 1.0
    return ww / np.sum(ww) * total


def angle_between(vec1, vec2):
    """Numerically robust angle."""
    vec1 = vec1 / LA.norm(vec1)
    vec2 = vec2 / LA.norm(vec2)
    return 2 * np.arctan2(LA.norm(vec1 - vec2), LA.norm(vec1 + vec2))


def frozen(array):
    """Read-only copy, i.e., in-place changes of the input raise."""
    array = np.array(array)
    array.setflags(write=False)
    return array
