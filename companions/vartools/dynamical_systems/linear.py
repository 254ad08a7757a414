import numpy as np
from numpy import linalg as LA

from ._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    def __init__(
        self,
        attractor_position=None,
        A_matrix=None,
        dimension=None,
        maximum_velocity=None,
        distance_decrease=None,
        **kwargs,
    ):
        if attractor_position is None:
            attractor_position = np.zeros(dimension if dimension is not None else 2)
        attractor_position = np.array(attractor_position, dtype=float)
        super().__init__(
            attractor_position=attractor_position,
            maximum_velocity=maximum_velocity,
            dimension=attractor_position.shape[0],
        )
        self.distance_decrease = distance_decrease
        if A_matrix is None:
            A_matrix = -np.eye(attractor_position.shape[0])
        self.A_matrix = np.asarray(A_matrix, dtype=float)

    def evaluate(self, position, max_velocity=None):
        velocity = self.A_matrix @ (np.asarray(position, dtype=float) - self.attractor_position)
        limit = self.maximum_velocity if max_velocity is None else max_velocity
        if limit is None:
            return velocity
        norm = LA.norm(velocity)
        if not norm:
            return velocity
        if self.distance_decrease:
            distance = LA.norm(position - self.attractor_position)
            target = limit * min(1.0, distance / self.distance_decrease)
            return velocity / norm * target
        if norm > limit:
            velocity = velocity / norm * limit
        return velocity

    def is_close_to_attractor(self, position, margin=1e-3):
        return LA.norm(position - self.attractor_position) < margin


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity, **kwargs):
        self.constant_velocity = np.array(velocity, dtype=float)
        super().__init__(dimension=self.constant_velocity.shape[0])

    def evaluate(self, position):
        return np.array(self.constant_velocity)

    evaluate_convergence_velocity = evaluate
