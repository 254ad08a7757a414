import numpy as np
from numpy import linalg as LA

from ._base import Obstacle


class CuboidXd(Obstacle):
    def __init__(self, axes_length=None, **kwargs):
        super().__init__(axes_length=axes_length, **kwargs)

    def _local_radius(self, direction):
        semi = self.axes_with_margin / 2.0
        norm = LA.norm(direction)
        if not norm:
            return np.min(semi)
        return 1.0 / np.max(np.abs(direction) / norm / semi)

    def _distance_to_surface(self, position):
        semi = self.axes_with_margin / 2.0
        return LA.norm(np.maximum(np.abs(position) - semi, 0.0))

    def _outward_normal(self, position):
        semi = self.axes_with_margin / 2.0
        excess = np.abs(position) - semi
        if self.is_boundary:
            excess = -np.abs(excess) if np.all(excess < 0) else excess
        positive = np.maximum(excess, 0.0)
        if np.any(positive > 0):
            normal = positive * np.sign(position)
        else:
            normal = np.zeros(position.shape[0])
            ind = np.argmax(np.abs(position) / semi)
            normal[ind] = np.sign(position[ind])
        return normal / LA.norm(normal)

    def _intersection_factors(self, start, direction):
        semi = self.axes_with_margin / 2.0
        low, high = -np.inf, np.inf
        for ii in range(start.shape[0]):
            if not direction[ii]:
                if abs(start[ii]) > semi[ii]:
                    return None
                continue
            t0 = (-semi[ii] - start[ii]) / direction[ii]
            t1 = (semi[ii] - start[ii]) / direction[ii]
            low = max(low, min(t0, t1))
            high = min(high, max(t0, t1))
        if low > high:
            return None
        return np.array([low, high])

    def _boundary(self, n_points, margin):
        semi = (self.axes_with_margin if margin else self._axes_length) / 2.0
        xx = np.array([1, -1, -1, 1, 1]) * semi[0]
        yy = np.array([1, 1, -1, -1, 1]) * semi[1]
        return self.pose.transform_positions_from_relative(np.vstack((xx, yy)))
