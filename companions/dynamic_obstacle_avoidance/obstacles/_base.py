from __future__ import annotations

import copy
import sys

import numpy as np
from numpy import linalg as LA

from vartools.math import CircleIntersectionType
from vartools.states import Pose, Twist


class Obstacle:
    """Star-shaped (with respect to its center) obstacle.

    Subclasses give the local radius, the outward normal and the surface intersections.
    Conventions (as used by the repository under test):
      * gamma > 1 in free space, = 1 on the surface, < 1 within the obstacle,
      * normal directions point away from the obstacle,
      * reference directions point towards the reference point.
    """

    def __init__(
        self,
        center_position=None,
        orientation=None,
        pose=None,
        axes_length=None,
        margin_absolut=0.0,
        is_boundary=False,
        tail_effect=True,
        distance_scaling=1.0,
        linear_velocity=None,
        angular_velocity=None,
        twist=None,
        relative_reference_point=None,
        repulsion_coeff=1.0,
        name="",
        **kwargs,
    ):
        if pose is not None:
            self.pose = pose
        else:
            if center_position is None:
                center_position = np.zeros(2)
            self.pose = Pose(np.array(center_position, dtype=float), orientation)
        self.margin_absolut = margin_absolut
        self.is_boundary = is_boundary
        self.tail_effect = tail_effect
        self.distance_scaling = distance_scaling
        self.repulsion_coeff = repulsion_coeff
        self.name = name
        self.is_deforming = False
        self.deformation_rate = kwargs.get("deformation_rate")
        dim = self.pose.dimension
        if twist is None:
            twist = Twist(
                np.zeros(dim) if linear_velocity is None else np.array(linear_velocity, float),
                angular_velocity,
            )
        self.twist = twist
        self._axes_length = None if axes_length is None else np.array(axes_length, dtype=float)
        self._relative_reference_point = (
            np.zeros(dim)
            if relative_reference_point is None
            else np.array(relative_reference_point, dtype=float)
        )

    # --- state
    @property
    def dimension(self):
        return self.pose.dimension

    dim = dimension

    @property
    def center_position(self):
        return self.pose.position

    @center_position.setter
    def center_position(self, value):
        self.pose.position = np.array(value, dtype=float)

    position = center_position

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def axes_length(self):
        return self._axes_length

    @axes_length.setter
    def axes_length(self, value):
        self._axes_length = np.array(value, dtype=float)

    @property
    def semiaxes(self):
        return self._axes_length / 2.0

    @property
    def axes_with_margin(self):
        sign = -1.0 if self.is_boundary else 1.0
        return self._axes_length + sign * 2.0 * self.margin_absolut

    @property
    def linear_velocity(self):
        return self.twist.linear

    @linear_velocity.setter
    def linear_velocity(self, value):
        self.twist.linear = value

    @property
    def angular_velocity(self):
        return self.twist.angular

    @angular_velocity.setter
    def angular_velocity(self, value):
        self.twist.angular = value

    # --- frames
    def transform_global2relative(self, position):
        return self.pose.transform_position_to_relative(position)

    def transform_relative2global(self, position):
        return self.pose.transform_position_from_relative(position)

    def transform_global2relative_dir(self, direction):
        return self.pose.transform_direction_to_relative(direction)

    def transform_relative2global_dir(self, direction):
        return self.pose.transform_direction_from_relative(direction)

    @staticmethod
    def _relative(in_obstacle_frame, in_global_frame):
        if in_global_frame is not None:
            return not in_global_frame
        return in_obstacle_frame

    # --- reference point
    @property
    def reference_point(self):
        return self._relative_reference_point

    @reference_point.setter
    def reference_point(self, value):
        self._relative_reference_point = np.array(value, dtype=float)

    @property
    def local_relative_reference_point(self):
        return self._relative_reference_point

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._relative_reference_point)

    global_relative_reference_point = global_reference_point

    def set_reference_point(self, position, in_obstacle_frame=True, in_global_frame=None):
        if self._relative(in_obstacle_frame, in_global_frame):
            self._relative_reference_point = np.array(position, dtype=float)
        else:
            self._relative_reference_point = self.pose.transform_position_to_relative(position)

    def get_reference_point(self, in_obstacle_frame=True, in_global_frame=None):
        if self._relative(in_obstacle_frame, in_global_frame):
            return np.array(self._relative_reference_point)
        return self.global_reference_point

    def get_reference_direction(
        self, position, in_obstacle_frame=True, in_global_frame=None, **kwargs
    ):
        relative = self._relative(in_obstacle_frame, in_global_frame)
        if not relative:
            position = self.pose.transform_position_to_relative(position)
        direction = self._relative_reference_point - position
        norm = LA.norm(direction)
        if norm:
            direction = direction / norm
        else:
            direction = np.zeros(self.dimension)
            direction[0] = 1.0
        if not relative:
            direction = self.pose.transform_direction_from_relative(direction)
        return direction

    # --- shape (relative frame, to be given by the subclass)
    def _local_radius(self, direction):
        raise NotImplementedError()

    def _outward_normal(self, position):
        raise NotImplementedError()

    def _intersection_factors(self, start, direction):
        """Values t where (start + t * direction) is on the surface."""
        raise NotImplementedError()

    def get_local_radius(self, position, in_obstacle_frame=True, in_global_frame=None, **kw):
        if not self._relative(in_obstacle_frame, in_global_frame):
            position = self.pose.transform_position_to_relative(position)
        return self._local_radius(np.asarray(position, dtype=float))

    def get_gamma(
        self, position, in_obstacle_frame=True, in_global_frame=None, **kwargs
    ):
        if not self._relative(in_obstacle_frame, in_global_frame):
            position = self.pose.transform_position_to_relative(position)
        position = np.asarray(position, dtype=float)
        distance = LA.norm(position)
        if not distance:
            return sys.float_info.max if self.is_boundary else 0.0
        radius = self._local_radius(position)
        if self.is_boundary:
            return radius / distance
        if distance < radius:
            return distance / radius
        return self._distance_to_surface(position) * self.distance_scaling + 1.0

    def _distance_to_surface(self, position):
        """Distance of an outside position (here along the ray to the center)."""
        return LA.norm(position) - self._local_radius(position)

    def get_normal_direction(
        self, position, in_obstacle_frame=True, in_global_frame=None, **kwargs
    ):
        relative = self._relative(in_obstacle_frame, in_global_frame)
        if not relative:
            position = self.pose.transform_position_to_relative(position)
        position = np.asarray(position, dtype=float)
        if not LA.norm(position):
            normal = np.zeros(self.dimension)
            normal[0] = 1.0
        else:
            normal = self._outward_normal(position)
        if self.is_boundary:
            normal = (-1) * normal
        if not relative:
            normal = self.pose.transform_direction_from_relative(normal)
        return normal

    def get_outwards_reference_direction(self, *args, **kwargs):
        return (-1) * self.get_reference_direction(*args, **kwargs)

    def get_point_on_surface(
        self, position, in_obstacle_frame=True, in_global_frame=None, **kwargs
    ):
        relative = self._relative(in_obstacle_frame, in_global_frame)
        if not relative:
            position = self.pose.transform_position_to_relative(position)
        norm = LA.norm(position)
        if not norm:
            position = np.zeros(self.dimension)
            position[0] = norm = 1.0
        surface = position / norm * self._local_radius(position)
        if not relative:
            surface = self.pose.transform_position_from_relative(surface)
        return surface

    def get_intersection_with_surface(
        self,
        start_position=None,
        direction=None,
        edge_point=None,
        in_obstacle_frame=True,
        in_global_frame=None,
        intersection_type=None,
        **kwargs,
    ):
        """Intersection with the surface. By default it is the first one of the ray; if there
        is none, the one of the (full) line which is closest to the start."""
        if start_position is None:
            start_position = edge_point
        relative = self._relative(in_obstacle_frame, in_global_frame)
        if not relative:
            if start_position is not None:
                start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        if start_position is None:
            start_position = np.zeros(self.dimension)  # center of the obstacle
        start = np.asarray(start_position, dtype=float)
        direction = np.asarray(direction, dtype=float)
        factors = self._intersection_factors(start, direction)
        if factors is None or not len(factors):
            return None
        factors = np.sort(factors)
        if intersection_type == CircleIntersectionType.CLOSE:
            factor = factors[0]
        elif intersection_type == CircleIntersectionType.FAR:
            factor = factors[-1]
        else:
            forward = factors[factors >= -1e-9]
            factor = forward[0] if len(forward) else factors[-1]
        point = start + factor * direction
        if not relative:
            point = self.pose.transform_position_from_relative(point)
        return point

    def is_collision_free(self, position, in_obstacle_frame=True, in_global_frame=None):
        return (
            self.get_gamma(
                position, in_obstacle_frame=self._relative(in_obstacle_frame, in_global_frame)
            )
            > 1
        )

    def is_inside(self, position, in_obstacle_frame=True, in_global_frame=None):
        return (
            self.get_gamma(
                position, in_obstacle_frame=self._relative(in_obstacle_frame, in_global_frame)
            )
            < 1
        )

    def get_reference_length(self):
        return LA.norm(self._relative_reference_point) + LA.norm(self._axes_length)

    def get_characteristic_length(self):
        return np.prod(self._axes_length + self.margin_absolut) ** (1.0 / self.dimension)

    def get_maximal_distance(self):
        return np.max(self._axes_length) / 2.0

    def get_boundary_xy(self, n_points=50, in_global_frame=True):
        return self._boundary(n_points, margin=False)

    def get_boundary_with_margin_xy(self, n_points=50, in_global_frame=True):
        return self._boundary(n_points, margin=True)

    def _boundary(self, n_points, margin):
        obs = copy.deepcopy(self)
        if not margin:
            obs.margin_absolut = 0.0
        angles = np.linspace(0, 2 * np.pi, n_points)
        points = np.vstack((np.cos(angles), np.sin(angles)))
        for ii in range(n_points):
            points[:, ii] = points[:, ii] * obs._local_radius(points[:, ii])
        return self.pose.transform_positions_from_relative(points)

    @property
    def boundary_points_global_closed(self):
        return self.get_boundary_xy()

    def do_velocity_step(self, delta_time):
        self.pose.position = self.pose.position + self.twist.linear * delta_time

    def update_deformation(self, delta_time):
        if self.deformation_rate is not None:
            self._axes_length = self._axes_length + self.deformation_rate * delta_time

    def create_shape(self):
        from shapely.geometry import Polygon

        return Polygon(self._boundary(120, margin=True).T)

    def get_shapely(self):
        return self.create_shape()

    shape = property(lambda self: self.create_shape())
