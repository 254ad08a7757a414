import numpy as np
from numpy import linalg as LA

from vartools.linalg import get_orthogonal_basis


def get_angle_from_vector(direction, base):
    """Vector -> direction space (dim-1) angle with respect to the first basis vector."""
    direction = np.asarray(direction, dtype=float)
    norm = LA.norm(direction)
    if not norm:
        return np.zeros(direction.shape[0] - 1)
    local = base.T @ (direction / norm)
    angle = local[1:]
    angle_norm = LA.norm(angle)
    magnitude = np.arctan2(angle_norm, local[0])
    if not angle_norm:
        angle = np.zeros_like(angle)
        if local[0] < 0:
            angle[0] = np.pi
        return angle
    return angle * (magnitude / angle_norm)


def get_vector_from_angle(angle, base):
    angle = np.asarray(angle, dtype=float).reshape(-1)
    norm = LA.norm(angle)
    if not norm:
        return np.array(base[:, 0])
    local = np.hstack((np.cos(norm), np.sin(norm) / norm * angle))
    return base @ local


class UnitDirection:
    def __init__(self, base):
        base = np.asarray(base, dtype=float)
        if base.ndim == 1:
            base = get_orthogonal_basis(base)
        self.base = base
        self._angle = None

    def __repr__(self):
        return f"UnitDirection({self._angle})"

    @property
    def null_direction(self):
        return self.base[:, 0]

    @property
    def dimension(self):
        return self.base.shape[0]

    def from_vector(self, vector):
        self._angle = get_angle_from_vector(vector, self.base)
        return self

    def from_angle(self, angle):
        self._angle = np.asarray(angle, dtype=float).reshape(-1)
        return self

    def as_angle(self):
        return np.array(self._angle)

    def as_vector(self):
        return get_vector_from_angle(self._angle, self.base)

    def norm(self):
        return LA.norm(self._angle)

    def transform_to_base(self, base):
        if isinstance(base, UnitDirection):
            base = base.base
        return UnitDirection(base).from_vector(self.as_vector())

    def get_distance_to(self, other):
        return LA.norm(self.as_angle() - other.as_angle())

    def invert_normal(self):
        base = np.array(self.base)
        base[:, 0] *= -1
        vector = self.as_vector()
        return UnitDirection(base).from_vector(vector)

    def _new(self, angle):
        return UnitDirection(self.base).from_angle(angle)

    def __add__(self, other):
        return self._new(self._angle + other._angle)

    def __sub__(self, other):
        return self._new(self._angle - other._angle)

    def __mul__(self, factor):
        return self._new(self._angle * factor)

    __rmul__ = __mul__

    def __truediv__(self, factor):
        return self._new(self._angle / factor)

    def __neg__(self):
        return self._new(-self._angle)


def _resolve_base(null_direction=None, null_matrix=None, OrthogonalBasisMatrix=None):
    if OrthogonalBasisMatrix is not None:
        return OrthogonalBasisMatrix
    if null_matrix is not None:
        return null_matrix
    return get_orthogonal_basis(null_direction)


def get_angle_space(
    direction, null_direction=None, null_matrix=None, normalize=None, OrthogonalBasisMatrix=None
):
    base = _resolve_base(null_direction, null_matrix, OrthogonalBasisMatrix)
    return get_angle_from_vector(direction, base)


def get_angle_space_inverse(
    dir_angle_space, null_direction=None, null_matrix=None, NullMatrix=None
):
    base = _resolve_base(null_direction, null_matrix, NullMatrix)
    return get_vector_from_angle(dir_angle_space, base)


def _null_at(position, default_system, func_vel_default):
    if default_system is not None:
        if hasattr(default_system, "evaluate"):
            return default_system.evaluate(position)
        return default_system(position)
    if hasattr(func_vel_default, "evaluate"):
        return func_vel_default.evaluate(position)
    return func_vel_default(position)


def get_angle_space_of_array(
    directions,
    positions=None,
    func_vel_default=None,
    null_direction_abs=None,
    null_direction=None,
    default_system=None,
):
    n = directions.shape[1]
    out = np.zeros((directions.shape[0] - 1, n))
    for ii in range(n):
        null = (
            null_direction
            if null_direction is not None
            else _null_at(positions[:, ii], default_system, func_vel_default)
        )
        if not LA.norm(null) or not LA.norm(directions[:, ii]):
            continue
        out[:, ii] = get_angle_space(directions[:, ii], null_direction=null)
    return out


def get_angle_space_inverse_of_array(
    vecs_angle_space,
    positions=None,
    func_vel_default=None,
    null_direction=None,
    default_system=None,
):
    n = vecs_angle_space.shape[1]
    out = np.zeros((vecs_angle_space.shape[0] + 1, n))
    for ii in range(n):
        null = (
            null_direction
            if null_direction is not None
            else _null_at(positions[:, ii], default_system, func_vel_default)
        )
        if not LA.norm(null):
            continue
        out[:, ii] = get_angle_space_inverse(vecs_angle_space[:, ii], null_direction=null)
    return out


def get_directional_weighted_sum(
    null_direction, weights, directions, total_weight=1, normalize=True, normalize_reference=True
):
    weights = np.asarray(weights, dtype=float)
    directions = np.asarray(directions, dtype=float)
    null_direction = np.asarray(null_direction, dtype=float)
    if not LA.norm(null_direction):
        raise ValueError("Zero null-direction.")
    ind = np.logical_and(weights > 0, LA.norm(directions, axis=0) > 0)
    base = get_orthogonal_basis(null_direction)
    angle = np.zeros(null_direction.shape[0] - 1)
    if np.any(ind):
        ww = weights[ind]
        if total_weight < 1:
            ww = ww / np.sum(ww) * total_weight
        for weight, direction in zip(ww, directions[:, ind].T):
            angle = angle + weight * get_angle_from_vector(direction, base)
    return get_vector_from_angle(angle, base)


def get_directional_weighted_sum_from_unit_directions(
    base, weights, unit_directions, total_weight=1
):
    if isinstance(base, UnitDirection):
        base = base.base
    angle = np.zeros(base.shape[0] - 1)
    for weight, direction in zip(weights, unit_directions):
        angle = angle + weight * direction.transform_to_base(base).as_angle()
    return UnitDirection(base).from_angle(angle * total_weight)
