from enum import Enum, auto

import numpy as np
from numpy import linalg as LA


class CircleIntersectionType(Enum):
    CLOSE = auto()
    FAR = auto()
    BOTH = auto()


IntersectionType = CircleIntersectionType


def get_intersection_with_circle(
    start_position,
    direction,
    radius,
    only_positive=True,
    intersection_type=None,
):
    """Intersection of the line start + t * direction with the sphere |x| = radius."""
    start_position = np.asarray(start_position, dtype=float)
    direction = np.asarray(direction, dtype=float)
    if not LA.norm(direction):
        raise ValueError("Zero direction.")
    aa = np.sum(direction**2)
    bb = 2 * np.dot(direction, start_position)
    cc = np.sum(start_position**2) - radius**2
    dd = bb**2 - 4 * aa * cc
    if dd < 0:
        return None
    root = np.sqrt(dd)
    far = (-bb + root) / (2 * aa)
    close = (-bb - root) / (2 * aa)
    if intersection_type is None:
        intersection_type = (
            CircleIntersectionType.FAR if only_positive else CircleIntersectionType.BOTH
        )
    if intersection_type == CircleIntersectionType.FAR:
        return start_position + far * direction
    if intersection_type == CircleIntersectionType.CLOSE:
        return start_position + close * direction
    return np.vstack(
        (start_position + close * direction, start_position + far * direction)
    ).T


def get_intersection_between_line_and_plane(
    line_position, line_direction, plane_position, plane_normal, positive_only=True
):
    line_position = np.asarray(line_position, dtype=float)
    line_direction = np.asarray(line_direction, dtype=float)
    fraction = np.dot(line_direction, plane_normal)
    if not fraction:
        return None
    factor = np.dot(np.asarray(plane_position) - line_position, plane_normal) / fraction
    if positive_only and factor < 0:
        # Only in the direction of the ray
        return None
    return line_position + line_direction * factor
