from abc import ABC, abstractmethod

import numpy as np
from numpy import linalg as LA

from vartools.states import Pose


def allow_max_velocity(func):
    def wrapper(self, position, *args, max_velocity=None, **kwargs):
        velocity = func(self, position, *args, **kwargs)
        limit = max_velocity if max_velocity is not None else self.maximum_velocity
        if limit is None:
            return velocity
        norm = LA.norm(velocity)
        if norm > limit:
            velocity = velocity / norm * limit
        return velocity

    return wrapper


class DynamicalSystem(ABC):
    def __init__(
        self,
        pose=None,
        maximum_velocity=None,
        dimension=None,
        attractor_position=None,
        center_position=None,
        **kwargs,
    ):
        if pose is not None:
            self.pose = pose
        elif center_position is not None:
            self.pose = Pose(np.array(center_position, dtype=float))
        elif dimension is not None:
            self.pose = Pose.create_trivial(dimension)
        elif attractor_position is not None:
            self.pose = Pose.create_trivial(len(attractor_position))
        else:
            self.pose = None
        self.maximum_velocity = maximum_velocity
        self._dimension = dimension
        self._attractor_position = (
            None if attractor_position is None else np.array(attractor_position, dtype=float)
        )

    @property
    def dimension(self):
        if self.pose is not None:
            return self.pose.dimension
        if self._attractor_position is not None:
            return self._attractor_position.shape[0]
        return self._dimension

    @dimension.setter
    def dimension(self, value):
        self._dimension = value

    @property
    def attractor_position(self):
        return self._attractor_position

    @attractor_position.setter
    def attractor_position(self, value):
        self._attractor_position = value

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = value

    def limit_velocity(self, velocity):
        if self.maximum_velocity is None:
            return velocity
        norm = LA.norm(velocity)
        if norm > self.maximum_velocity:
            velocity = velocity / norm * self.maximum_velocity
        return velocity

    def is_close_to_attractor(self, position):
        return False

    def check_convergence(self, position):
        return False

    @abstractmethod
    def evaluate(self, position):
        pass
