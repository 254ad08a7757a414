import numpy as np
from numpy import linalg as LA

from ._base import Obstacle


class EllipseWithAxes(Obstacle):
    def __init__(self, axes_length=None, **kwargs):
        super().__init__(axes_length=axes_length, **kwargs)

    def _local_radius(self, direction):
        norm = LA.norm(direction)
        semi = self.axes_with_margin / 2.0
        if not norm:
            return np.min(semi)
        return 1.0 / LA.norm(direction / norm / semi)

    def _outward_normal(self, position):
        semi = self.axes_with_margin / 2.0
        normal = position / semi**2
        return normal / LA.norm(normal)

    def _intersection_factors(self, start, direction):
        semi = self.axes_with_margin / 2.0
        start, direction = start / semi, direction / semi
        aa = np.sum(direction**2)
        bb = 2 * np.dot(direction, start)
        cc = np.sum(start**2) - 1.0
        dd = bb**2 - 4 * aa * cc
        if dd < 0 or not aa:
            return None
        return (-bb + np.array([-1.0, 1.0]) * np.sqrt(dd)) / (2 * aa)


class Ellipse(EllipseWithAxes):
    """(Historic) ellipse which is described by the half-axes."""

    def __init__(self, axes_length=None, **kwargs):
        super().__init__(axes_length=np.array(axes_length, dtype=float), **kwargs)

    @property
    def axes_with_margin(self):
        sign = -1.0 if self.is_boundary else 1.0
        return 2.0 * (self._axes_length + sign * self.margin_absolut)

    @property
    def semiaxes(self):
        return self._axes_length
