import numpy as np
from scipy.spatial.transform import Rotation


class PositionFilter:
    def __init__(self, update_frequency, initial_position):
        self.update_frequency = update_frequency
        self.position = np.array(initial_position, dtype=float)
        self.velocity = np.zeros_like(self.position)

    def run_once(self, position):
        position = np.array(position, dtype=float)
        self.velocity = (position - self.position) * self.update_frequency
        self.position = position


class SimpleOrientationFilter:
    def __init__(self, update_frequency, initial_orientation):
        self.update_frequency = update_frequency
        self.rotation = initial_orientation
        self.angular_velocity = np.zeros(3)

    @property
    def orientation(self):
        return self.rotation

    def run_once(self, orientation):
        delta = orientation * self.rotation.inv()
        self.angular_velocity = delta.as_rotvec() * self.update_frequency
        self.rotation = orientation
