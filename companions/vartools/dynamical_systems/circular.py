import numpy as np
from numpy import linalg as LA

from ._base import DynamicalSystem


class CircularStable(DynamicalSystem):
    """Stable limit-cycle around the center."""

    def __init__(
        self,
        radius=1.0,
        factor_controler=1.0,
        main_speed=1.0,
        direction=1,
        maximum_velocity=None,
        center_position=None,
        dimension=2,
        **kwargs,
    ):
        super().__init__(
            maximum_velocity=maximum_velocity,
            center_position=np.zeros(dimension) if center_position is None else center_position,
        )
        self.radius = radius
        self.factor_controler = factor_controler
        self.main_speed = main_speed
        self.direction = direction
        self._attractor_position = self.pose.position

    def evaluate(self, position):
        rel = np.asarray(position, dtype=float) - self.pose.position
        norm = LA.norm(rel)
        if not norm:
            return np.zeros_like(rel)
        radial = rel / norm
        tangent = np.array([-radial[1], radial[0]]) * self.direction
        velocity = (
            self.factor_controler * (self.radius - norm) * radial + self.main_speed * tangent
        )
        if self.maximum_velocity is not None:
            velocity = velocity / LA.norm(velocity) * self.maximum_velocity
        return velocity
