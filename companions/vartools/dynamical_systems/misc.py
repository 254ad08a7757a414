import numpy as np
from numpy import linalg as LA

from vartools.directional_space import UnitDirection
from vartools.linalg import get_orthogonal_basis

from ._base import DynamicalSystem


class AxesFollowingDynamics(DynamicalSystem):
    """Approach a straight line and follow it."""

    def __init__(self, center_position, main_direction, maximum_velocity=1.0, **kwargs):
        super().__init__(center_position=center_position, maximum_velocity=maximum_velocity)
        self.main_direction = np.array(main_direction, dtype=float) / LA.norm(main_direction)

    def evaluate(self, position):
        rel = position - self.pose.position
        offset = rel - self.main_direction * np.dot(rel, self.main_direction)
        velocity = self.main_direction - offset
        return velocity / LA.norm(velocity) * self.maximum_velocity


class QuadraticAxisConvergence(DynamicalSystem):
    def __init__(
        self,
        main_axis=0,
        conv_pow=2,
        stretching_factor=1,
        attractor_position=None,
        dimension=2,
        maximum_velocity=None,
        **kwargs,
    ):
        if attractor_position is None:
            attractor_position = np.zeros(dimension)
        super().__init__(
            attractor_position=attractor_position, maximum_velocity=maximum_velocity
        )
        self.main_axis = main_axis
        self.conv_pow = conv_pow
        self.stretching_factor = stretching_factor

    def evaluate(self, position):
        rel = position - self.attractor_position
        velocity = (-1) * rel.astype(float)
        ind = np.arange(rel.shape[0]) != self.main_axis
        velocity[ind] = (
            -np.copysign(np.abs(rel[ind]) ** self.conv_pow, rel[ind]) * self.stretching_factor
        )
        return self.limit_velocity(velocity)


class LocallyRotated(DynamicalSystem):
    """Linear system, rotated by `max_rotation` around an influence pose."""

    def __init__(
        self,
        max_rotation=None,
        influence_pose=None,
        influence_radius=1.0,
        influence_axes_length=None,
        attractor_position=None,
        maximum_velocity=None,
        dimension=2,
        **kwargs,
    ):
        if attractor_position is None:
            attractor_position = np.zeros(dimension)
        super().__init__(
            attractor_position=attractor_position, maximum_velocity=maximum_velocity
        )
        self.max_rotation = np.array(max_rotation, dtype=float).reshape(-1)
        self.influence_pose = influence_pose
        self.influence_radius = influence_radius

    def get_weight(self, position):
        dist = LA.norm(position - self.influence_pose.position) / self.influence_radius
        if dist <= 1:
            return 1.0
        return 1.0 / dist

    def evaluate(self, position):
        velocity = self.attractor_position - position
        norm = LA.norm(velocity)
        if not norm:
            return np.zeros_like(velocity)
        base = get_orthogonal_basis(velocity)
        rotated = UnitDirection(base).from_angle(self.max_rotation * self.get_weight(position))
        return self.limit_velocity(rotated.as_vector() * norm)
