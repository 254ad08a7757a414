import numpy as np
from numpy import linalg as LA


def evaluate_linear_dynamical_system(position, center_position=None, max_vel=None, **kwargs):
    if center_position is None:
        center_position = np.zeros_like(position)
    velocity = center_position - position
    if max_vel is not None and LA.norm(velocity) > max_vel:
        velocity = velocity / LA.norm(velocity) * max_vel
    return velocity
