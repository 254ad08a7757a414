"""P26: geometry of intersecting obstacles."""
import numpy as np
from numpy import linalg as LA
from vartools.math import CircleIntersectionType
from vartools.states import Pose
from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse, EllipseWithAxes

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, finite, fingerprint, require

from nonlinear_avoidance import geometry, multiboundary_container, multi_ellipse_obstacle, utils

check = Check(
    "P26",
    rule="random pairs of ellipses (both axes conventions) and cuboids in 2D at any pose, with and "
    "without margin: overlapping, separate and contained; random lines and ellipses in 2D/3D; "
    "non-trivial: distinct configuration",
    assumptions=["shapes overlap or are apart by more than 2% of their size (polygonal approximation)"],
)


def _shape(rng, at):
    kind = rng.integers(3)
    axes = rng.uniform(0.4, 3.0, size=2)
    cls = [EllipseWithAxes, Ellipse, CuboidXd][kind]
    return cls(axes_length=axes, pose=at, margin_absolut=float(rng.choice([0, 0, 0.2])))


def _size(obs):
    return 2 * max(
        obs.get_local_radius(np.array([np.cos(aa), np.sin(aa)]), in_global_frame=False)
        for aa in np.linspace(0, np.pi, 30)
    )


def _distance(obs1, obs2):
    """Signed separation along the best separating direction (> 0: apart)."""
    pts1, pts2 = obs1._boundary(360, margin=True), obs2._boundary(360, margin=True)
    best = -np.inf
    for ang in np.linspace(0, 2 * np.pi, 240):
        dd = np.array([np.cos(ang), np.sin(ang)])
        best = max(best, np.min(dd @ pts2) - np.max(dd @ pts1))
    return best


@check.sub(quick=500, need=("overlap", "apart", "different_types", "margins"))
def common_point(rng, ctx):
    obs1 = _shape(rng, world.pose(rng, 2, spread=5.0))
    obs2 = _shape(rng, Pose(obs1.pose.position + rng.normal(size=2) * rng.choice([0.5, 1.5, 3]), rng.uniform(-3, 3)))
    dist = _distance(obs1, obs2)
    if rng.integers(3) == 0:
        # Only the margins overlap
        for obs in (obs1, obs2):
            obs.margin_absolut = float(rng.uniform(0.3, 0.8))
        way = gen.unit(rng, 2)
        obs2.pose = Pose(obs1.pose.position + 0.1 * way, obs2.pose.orientation)
        while (dist := _distance(obs1, obs2)) < -0.25:
            obs2.pose = Pose(obs2.pose.position + 0.05 * way, obs2.pose.orientation)
        ctx.count("margins")
        if dist > -0.02:
            raise Discard()
    elif abs(dist) < 0.02 * (_size(obs1) + _size(obs2)):
        raise Discard()
    before = fingerprint([obs1, obs2])
    point = geometry.get_intersection_of_obstacles(obs1, obs2)
    back = geometry.get_intersection_of_obstacles(obs2, obs1)
    if dist > 0:
        require(point is None and back is None, "separate obstacles have no intersection")
        ctx.count("apart")
        return
    ctx.count("overlap")
    ctx.count("different_types", type(obs1) is not type(obs2))
    require(point is not None and back is not None, "overlapping obstacles have an intersection")
    finite(point, "intersection is finite")
    for pp in (point, back):
        for obs in (obs1, obs2):
            require(
                obs.get_gamma(pp, in_global_frame=True) < 1.02, "intersection is within both obstacles",
                point=pp, gamma=obs.get_gamma(pp, in_global_frame=True),
            )
    require(fingerprint([obs1, obs2]) == before, "obstacles are not modified")

    # In another frame
    angle, shift = rng.uniform(-np.pi, np.pi), rng.normal(size=2) * 4
    frame = Pose(shift, angle)
    for obs in (obs1, obs2):
        obs.pose = frame.transform_pose_from_relative(obs.pose)
    moved = geometry.get_intersection_of_obstacles(obs1, obs2)
    tol = 0.05 * (_size(obs1) + _size(obs2))
    close(moved, frame.transform_position_from_relative(point), tol, "intersection moves with the frame")
    ctx.state(point, obs1.axes_length, obs2.axes_length)
    ctx.sample("pair", point=point, types=[type(obs1).__name__, type(obs2).__name__], distance=dist)


@check.sub(quick=200)
def boundary_graph(rng, ctx):
    """Consecutive, overlapping boundaries."""
    number = int(rng.integers(2, 5))
    container = multiboundary_container.MultiBoundaryContainer()
    position = rng.normal(size=2) * 4
    for ii in range(number):
        container.append(
            Ellipse(
                center_position=position, axes_length=rng.uniform(1.0, 3.0, size=2),
                orientation=rng.uniform(-3, 3), is_boundary=True,
            ),
            parent=-1,
        )
        position = position + gen.unit(rng, 2) * rng.uniform(0.8, 1.5)
    container.update_intersection_graph(attractor_position=np.zeros(2))
    require(container.get_parent_intersection(0) is None, "the root has no parent intersection")
    for ii in range(1, number):
        point = container.get_parent_intersection(ii)
        for obs in (container[ii], container[ii - 1]):
            require(
                obs.get_gamma(point, in_global_frame=True) > 0.98,
                "connection of two boundaries is in the free space of both", point=point,
            )
        for on_child in (True, False):
            surf = container.get_convergence_boundary_point(
                it_child=ii, project_on_child=on_child, it_parent=ii - 1
            )
            obs = container[ii] if on_child else container[ii - 1]
            if LA.norm(point - obs.center_position) < 0.05:
                continue
            if surf is not None:
                close(obs.get_gamma(surf, in_global_frame=True), 1, 1e-6, "projected connection is on the boundary")
                ctx.count("projected")
        ctx.state(point)


@check.sub(quick=1500, need=("hit", "miss"))
def line_and_ellipse(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    obs = EllipseWithAxes(axes_length=rng.uniform(0.3, 3, size=dim), pose=world.pose(rng, dim))
    start = obs.pose.position + rng.normal(size=dim) * rng.choice([0.5, 2.0])
    direction = gen.unit(rng, dim) * gen.magnitude(rng)
    kinds = [CircleIntersectionType.CLOSE, CircleIntersectionType.FAR]
    func = multi_ellipse_obstacle.get_intersection_with_ellipse
    points = [func(start, direction, obs, in_global_frame=True, intersection_type=kk) for kk in kinds]
    semi = obs.axes_length / 2
    loc_s = obs.pose.transform_position_to_relative(start) / semi
    loc_d = obs.pose.transform_direction_to_relative(direction) / semi
    disc = (loc_s @ loc_d) ** 2 - (loc_d @ loc_d) * (loc_s @ loc_s - 1)
    disc = disc / (loc_d @ loc_d)
    if abs(disc) < 1e-6:
        raise Discard()
    if disc < 0:
        require(points[0] is None and points[1] is None, "no intersection with a line that passes by")
        ctx.count("miss")
        return
    ctx.count("hit")
    unit = direction / LA.norm(direction)
    along = []
    for pp in points:
        require(pp is not None, "a line through the ellipse intersects")
        local = obs.pose.transform_position_to_relative(pp)
        close(LA.norm(local / semi), 1, 1e-6, "intersection is on the ellipse")
        along.append((pp - start) @ unit)
        close(start + along[-1] * unit, pp, 1e-6, "intersection is on the line")
    require(along[0] <= along[1] + 1e-9, "close intersection precedes the far one")
    # local frame
    local = func(
        obs.pose.transform_position_to_relative(start), obs.pose.transform_direction_to_relative(direction),
        obs, in_global_frame=False, intersection_type=kinds[0],
    )
    close(obs.pose.transform_position_from_relative(local), points[0], 1e-7, "intersection in the local frame")
    ctx.state(start, direction)


@check.sub(quick=1500)
def tangent_of_component(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    normal = gen.unit(rng, dim)
    reference = gen.rotated_by(rng, normal, rng.uniform(0, 1.3))
    vector = gen.unit(rng, dim)
    if LA.norm(vector - reference * (vector @ normal) / (reference @ normal)) < 1e-3:
        raise Discard()
    tangent = multi_ellipse_obstacle.MultiEllipseObstacle.get_normalized_tangent_component(
        gen.frozen(vector), gen.frozen(normal), gen.frozen(reference)
    )
    close(LA.norm(tangent), 1, 1e-8, "tangent is a unit vector")
    close(tangent @ normal, 0, 1e-8, "tangent is perpendicular to the normal")
    expected = vector - reference * (vector @ normal) / (reference @ normal)
    close(tangent, expected / LA.norm(expected), 1e-6, "tangent is the vector projected along the reference")
    ctx.state(vector, normal, reference)


@check.sub(quick=400)
def balance_of_obstacles(rng, ctx):
    """Gamma descent: two overlapping bodies -> ends within both; symmetric in the obstacles."""
    dim = int(rng.choice([2, 2, 3]))
    axes = rng.uniform(1.0, 2.0, size=dim)
    obs1 = EllipseWithAxes(axes_length=axes, pose=world.pose(rng, dim))
    step = gen.unit(rng, dim)
    obs2 = EllipseWithAxes(axes_length=axes, pose=Pose(obs1.pose.position + step * 0.5 * np.min(axes), obs1.pose.orientation))
    before = fingerprint([obs1, obs2])
    args = dict(powers=[2, 2], factors=[-1, -1])
    point = utils.gamma_normal_gradient_descent([obs1, obs2], **args)
    finite(point, "balance point is finite")
    for obs in (obs1, obs2):
        require(obs.get_gamma(point, in_global_frame=True) < 1, "balance point is within both obstacles")
    other = utils.gamma_normal_gradient_descent([obs2, obs1], **args)
    close(other, point, 1e-6, "balance point does not depend on the order")
    # Each obstacle has its own factor and power
    factors, powers = rng.uniform(-1, -0.2, size=2), rng.uniform(0.5, 3, size=2)
    kwargs = dict(it_max=int(rng.integers(1, 6)))
    one = utils.gamma_normal_gradient_descent([obs1, obs2], factors=factors, powers=powers, **kwargs)
    two = utils.gamma_normal_gradient_descent([obs2, obs1], factors=factors[::-1], powers=powers[::-1], **kwargs)
    close(one, two, 1e-6, "factor and power belong to their obstacle")
    require(fingerprint([obs1, obs2]) == before, "obstacles are not modified by the descent")
    close(utils.gamma_normal_gradient_descent([obs1, obs2], **args), point, 0, "descent is repeatable")
    ctx.state(point, axes)
