import numpy as np
from numpy import linalg as LA

from dynamic_obstacle_avoidance.utils import compute_weights


class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment

    def evaluate(self, position):
        raise NotImplementedError()


class ModulationAvoider(BaseAvoider):
    """(Single obstacle-weighted) modulation; comparison baseline only."""

    def evaluate(self, position):
        return self.avoid(position, self.initial_dynamics.evaluate(position))

    def avoid(self, position, velocity):
        return velocity
