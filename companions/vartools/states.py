from __future__ import annotations

import copy
from dataclasses import dataclass, field
from typing import Optional

import numpy as np
from scipy.spatial.transform import Rotation


def _rotmat2(angle):
    cc, ss = np.cos(angle), np.sin(angle)
    return np.array([[cc, -ss], [ss, cc]])


class Pose:
    """Position + orientation (angle in 2D, scipy-Rotation in 3D)."""

    def __init__(self, position=None, orientation=None):
        if position is None:
            position = np.zeros(2)
        self.position = np.array(position, dtype=float)
        if orientation is None and self.position.shape[0] == 2:
            orientation = 0.0
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        if dimension == 3:
            return cls(np.zeros(3), Rotation.identity())
        return cls(np.zeros(dimension))

    def __repr__(self):
        return f"Pose(position={self.position}, orientation={self.orientation})"

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        return self._matrix()

    def _matrix(self):
        if self.orientation is None:
            return np.eye(self.dimension)
        if isinstance(self.orientation, Rotation):
            return self.orientation.as_matrix()
        if isinstance(self.orientation, np.ndarray) and self.orientation.ndim == 2:
            return self.orientation
        if self.dimension != 2:
            if not self.orientation:
                return np.eye(self.dimension)
            raise NotImplementedError(f"{self.orientation!r} in {self.dimension}D")
        return _rotmat2(float(self.orientation))

    # --- to relative
    def transform_position_to_relative(self, position):
        return self._matrix().T @ (np.asarray(position, dtype=float) - self.position)

    def transform_positions_to_relative(self, positions):
        return self._matrix().T @ (np.asarray(positions, dtype=float).T - self.position).T

    def transform_direction_to_relative(self, direction):
        return self._matrix().T @ np.asarray(direction, dtype=float)

    transform_linear_velocity_to_relative = transform_direction_to_relative
    transform_directions_to_relative = transform_direction_to_relative

    def transform_orientation_to_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if isinstance(self.orientation, Rotation):
            if orientation is None:
                orientation = Rotation.identity()
            return self.orientation.inv() * orientation
        if orientation is None:
            orientation = 0.0
        return orientation - self.orientation

    def transform_pose_to_relative(self, pose):
        return Pose(
            self.transform_position_to_relative(pose.position),
            self.transform_orientation_to_relative(pose.orientation),
        )

    # --- from relative
    def transform_position_from_relative(self, position):
        return self._matrix() @ np.asarray(position, dtype=float) + self.position

    def transform_positions_from_relative(self, positions):
        return ((self._matrix() @ np.asarray(positions, dtype=float)).T + self.position).T

    def transform_direction_from_relative(self, direction):
        return self._matrix() @ np.asarray(direction, dtype=float)

    transform_linear_velocity_from_relative = transform_direction_from_relative
    transform_directions_from_relative = transform_direction_from_relative

    def transform_orientation_from_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if isinstance(self.orientation, Rotation):
            if orientation is None:
                orientation = Rotation.identity()
            return self.orientation * orientation
        if orientation is None:
            orientation = 0.0
        return orientation + self.orientation

    def transform_pose_from_relative(self, pose):
        return Pose(
            self.transform_position_from_relative(pose.position),
            self.transform_orientation_from_relative(pose.orientation),
        )

    # --- historic names
    transform_position_from_reference_to_local = transform_position_to_relative
    transform_position_from_local_to_reference = transform_position_from_relative
    transform_direction_from_reference_to_local = transform_direction_to_relative
    transform_direction_from_local_to_reference = transform_direction_from_relative


class ObjectPose(Pose):
    def __init__(self, position=None, orientation=None):
        super().__init__(position=position, orientation=orientation)


@dataclass
class Twist:
    linear: np.ndarray = None
    angular: Optional[np.ndarray] = None

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else np.zeros(dimension))
