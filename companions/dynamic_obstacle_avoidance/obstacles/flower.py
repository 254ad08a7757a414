import numpy as np
from numpy import linalg as LA
from scipy.optimize import brentq

from ._base import Obstacle


class StarshapedFlower(Obstacle):
    def __init__(
        self, radius_magnitude=1.0, radius_mean=2.0, number_of_edges=4, **kwargs
    ):
        super().__init__(**kwargs)
        self.radius_magnitude = radius_magnitude
        self.radius_mean = radius_mean
        self.number_of_edges = number_of_edges

    def _local_radius(self, direction):
        angle = np.arctan2(direction[1], direction[0])
        radius = self.radius_mean + self.radius_magnitude * np.cos(
            angle * self.number_of_edges
        )
        sign = -1.0 if self.is_boundary else 1.0
        return radius + sign * self.margin_absolut

    def _outward_normal(self, position):
        angle = np.arctan2(position[1], position[0])
        radius = self._local_radius(position)
        deriv = (
            -self.radius_magnitude
            * self.number_of_edges
            * np.sin(angle * self.number_of_edges)
        )
        er = np.array([np.cos(angle), np.sin(angle)])
        et = np.array([-er[1], er[0]])
        tangent = deriv * er + radius * et
        normal = np.array([tangent[1], -tangent[0]])
        return normal / LA.norm(normal)

    def _intersection_factors(self, start, direction):
        norm = LA.norm(direction)
        if not norm:
            return None
        reach = LA.norm(start) + 2 * self.get_maximal_distance() + 1.0

        def func(tt):
            point = start + tt * direction
            return LA.norm(point) - self._local_radius(point)

        samples = np.linspace(-reach / norm, reach / norm, 400)
        values = [func(tt) for tt in samples]
        factors = []
        for t0, t1, v0, v1 in zip(samples[:-1], samples[1:], values[:-1], values[1:]):
            if v0 == 0:
                factors.append(t0)
            elif v0 * v1 < 0:
                factors.append(brentq(func, t0, t1))
        return np.array(factors)

    def get_maximal_distance(self):
        return self.radius_mean + self.radius_magnitude

    get_characteristic_length = get_reference_length = get_maximal_distance
