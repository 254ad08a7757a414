"""P29: an obstacle with hulls is solid outside of its hulls, and its dynamics move along the walls."""
import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import LinearSystem
from vartools.states import Pose

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance import multihull_convergence as mhc
from nonlinear_avoidance import multi_hull_and_obstacle as mho

check = Check(
    "P29",
    rule="ellipses and cuboids with zero to four hulls in an arbitrary pose in 2D/3D; positions within "
    "the hulls, the walls, outside, on the surfaces and at the attractor; non-trivial: distinct "
    "(obstacle, position)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def _pose_args(rng, dim):
    return rng.uniform(-3, 3, size=dim), world.orientation(rng, dim)


def _hull_obstacle(rng, dim, number):
    """Obstacle in its own frame, and the transformation of a point to it."""
    args = dict(margin_absolut=0.0, distance_scaling=1.0)
    outer = world.obstacle(rng, dim, at=Pose(rng.normal(size=dim) * 0.3, world.orientation(rng, dim)), low=2, high=5, **args)
    hulls = []
    for _ in range(number):
        center = outer.center_position + 0.7 * rng.uniform() * (world.surface_point(rng, outer) - outer.center_position)
        hulls.append(world.obstacle(rng, dim, at=Pose(center, world.orientation(rng, dim)), low=0.5, high=2, is_boundary=True, **args))
    position, orientation = _pose_args(rng, dim)
    obstacle = mho.MultiHullAndObstacle(outer_obstacle=outer, inner_obstacles=hulls, center_position=position, orientation=orientation)
    return obstacle, Pose(np.array(position), orientation), outer, hulls


def _solid(obs, position):
    """Proportional gamma of the body (independent of being a boundary)."""
    local = obs.pose.transform_position_to_relative(position)
    radius = obs.get_local_radius(local, in_global_frame=False) if LA.norm(local) else 1.0
    return LA.norm(local) / radius


def _sample(rng, outer, hulls):
    body = [outer, *hulls][int(rng.integers(1 + len(hulls)))]
    surface = world.surface_point(rng, body)
    return body.center_position + (surface - body.center_position) * rng.choice([rng.uniform(0, 1), rng.uniform(0.9, 1.1), rng.uniform(1, 3)])


@check.sub(quick=800, need=("free inside", "free outside", "wall", "frame", "share"))
def free_space(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    obstacle, frame, outer, hulls = _hull_obstacle(rng, dim, int(rng.integers(0, 5)))
    require(obstacle.dimension == dim and obstacle.n_elements == len(hulls) + 1, "dimension and number of elements")
    for _ in range(5):
        local = _sample(rng, outer, hulls)
        solids = np.array([_solid(hh, local) for hh in hulls] + [_solid(outer, local)])
        if np.any(np.abs(solids - 1) < 1e-9):
            continue
        colliding = solids[-1] < 1 and not np.any(solids[:-1] < 1)
        before = local.copy()
        require(bool(obstacle.is_inside(local, in_global_frame=False)) == colliding, "collision in the local frame", solids=solids)
        position = frame.transform_position_from_relative(local)
        require(bool(obstacle.is_inside(position, in_global_frame=True)) == colliding, "collision in the global frame", solids=solids)
        close(local, before, 0, "position is unchanged")
        ctx.count("frame")
        ctx.count("wall" if colliding else "free inside" if solids[-1] < 1 else "free outside")
        # weights of the regions
        obstacle._evaluate_weights(local)
        weights = np.array(obstacle.weights)
        free = np.append(solids[:-1] < 1, solids[-1] > 1)
        finite(weights, "weights are finite")
        require(np.all(weights >= 0), "weights are not negative")
        require(np.array_equal(weights > 0, free), "only the regions around the position have a weight", weights=weights, free=free)
        close(np.sum(weights), 1.0 if np.any(free) else 0.0, 1e-9, "weights sum up to one in free space")
        ctx.count("share", np.sum(free) > 1)
        ctx.state(local)


@check.sub(quick=800, need=("outside", "open", "closed", "limit"))
def entrance_weight(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    obstacle, frame, outer, hulls = _hull_obstacle(rng, dim, 1)
    hull = hulls[0]
    for _ in range(5):
        local = _sample(rng, outer, hulls)
        if LA.norm(local - outer.center_position) < 1e-6:
            continue
        power = float(rng.choice([1.5, 1.0, 3.0]))
        weight = mho.get_boundary_intersection_weight(local, inner_obstacle=hull, outer_obstacle=outer, power_factor=power)
        require(0 <= weight <= 1, "entrance weight is within zero and one", weight=weight)
        inner, outside = _solid(hull, local), _solid(outer, local)
        if min(abs(inner - 1), abs(outside - 1)) < 1e-9:
            continue
        projection = outer.center_position + (local - outer.center_position) / outside
        if inner > 1 or outside > 1:
            close(weight, 0, 0, "no entrance weight outside of the hull, or of the obstacle")
            ctx.count("outside")
            continue
        if abs(_solid(hull, projection) - 1) < 1e-6:
            continue
        if _solid(hull, projection) > 1:
            close(weight, 1, 0, "full weight in front of the wall")
            ctx.count("closed")
        else:
            require(weight < 1, "reduced weight in front of an entrance", weight=weight)
            ctx.count("open")
            # moving out along the ray to the projection, the weight fades to the one of the projection
            gamma = hull.get_gamma(projection, in_global_frame=True)
            near = outer.center_position + (projection - outer.center_position) * (1 - 1e-7)
            if _solid(hull, near) < 1:
                close(mho.get_boundary_intersection_weight(near, hull, outer, power_factor=power), gamma ** -power, 1e-3, "weight at the entrance")
                ctx.count("limit")
        ctx.state(local)


@check.sub(quick=500, need=("weights", "none"))
def hull_weights(rng, ctx):
    gammas = rng.choice([0.3, 1.0, 1 + rng.uniform(), 10 ** rng.uniform(0, 4)], size=int(rng.integers(1, 6)))
    before = gammas.copy()
    weights = mhc.get_weight_gamma_for_hulls(gammas)
    close(gammas, before, 0, "gammas are unchanged")
    require(np.all(weights >= 0) and np.all(weights[gammas <= 1] == 0), "no weight behind the wall", weights=weights)
    raw = np.maximum(gammas - 1, 0)
    if raw.sum():
        close(weights, raw / raw.sum(), 1e-9, "weights proportional to the depth within the hull")
        ctx.count("weights")
    else:
        close(weights, raw, 0, "no weights behind all walls")
        ctx.count("none")
    ctx.state(gammas)


def _behind(outer, local, attractor):
    """Attractor, center and position (almost) on one line."""
    ref = outer.get_reference_direction(local, in_global_frame=True)
    direct = attractor - local
    return abs(ref @ direct) > LA.norm(direct) * (1 - 1e-4)


@check.sub(quick=700, need=("solid", "room", "wall", "attractor", "far", "surface", "container"))
def dynamics(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    room = bool(rng.integers(2))
    obstacle, frame, outer, hulls = _hull_obstacle(rng, dim, 1 if room else 0)
    obstacle.evaluate_hirarchy_and_reference_points()
    if room:
        body = hulls[0]
        attractor = body.center_position + rng.uniform(0, 0.9) * (world.surface_point(rng, body) - body.center_position)
        if _solid(outer, attractor) > 0.95:
            raise Discard()
    else:
        body = outer
        attractor = outer.center_position + rng.uniform(1.1, 3) * (world.surface_point(rng, outer) - outer.center_position)
    goal = frame.transform_position_from_relative(attractor)
    container = None
    if rng.integers(2):
        container = mho.MultiRotationalContainer()
        container.append(obstacle)
        container.set_dynamics(LinearSystem(attractor_position=goal))
        ctx.count("container")
    elif rng.integers(2):
        obstacle.set_attractor(goal, in_global_frame=True)
    else:
        obstacle.set_attractor(attractor, in_global_frame=False)
    close(obstacle.get_attractor(), attractor, 1e-9 * (1 + LA.norm(attractor)), "attractor is the given one")
    for _ in range(4):
        surface = world.surface_point(rng, body)
        kind = int(rng.integers(4))
        local = [
            lambda: surface,
            lambda: body.center_position + (surface - body.center_position) * (rng.uniform(0.05, 1) if room else rng.uniform(1, 3)),
            lambda: attractor + rng.choice([0, 1e-3, 0.3]) * rng.normal(size=dim),
            lambda: outer.center_position + rng.uniform(0.1, 1) * (world.surface_point(rng, outer) - outer.center_position),
        ][kind]()
        if kind == 0:
            shift = 1e-7 if not room else -1e-7
            local = local + shift * (local - body.center_position)
        solid, shell = _solid(body, local), _solid(outer, local)
        if abs(solid - 1) < 1e-9 or (room and shell > 1 - 1e-9):
            continue  # regions whose path leads through the entrance
        position = frame.transform_position_from_relative(local)
        before = position.copy()
        velocity = obstacle.evaluate(local, in_global_frame=False)
        rotated = obstacle.evaluate(position, in_global_frame=True)
        close(position, before, 0, "position is unchanged")
        finite(velocity, "velocity is finite", position=local)
        if (solid > 1) == room:
            close(velocity, np.zeros(dim), 0, "no motion within the wall")
            ctx.count("wall")
            continue
        if _behind(body, local, attractor):
            ctx.count("behind")
            require(LA.norm(velocity) <= 1 + 1e-9, "speed is limited")
            continue
        distance = LA.norm(attractor - local)
        close(rotated, frame.transform_direction_from_relative(velocity), 1e-6, "velocity in the global frame")
        if container is not None:
            close(container.evaluate(position), rotated, 1e-9, "velocity of the container")
        close(LA.norm(velocity), min(distance, 1), 1e-6, "speed is the distance to the attractor, limited to one")
        if distance < 1e-2:
            ctx.count("attractor")
        if kind == 0:
            # the surface is not penetrated
            normal = body.get_normal_direction(local, in_global_frame=True)
            normal = normal * np.sign(normal @ (local - body.center_position)) * (-1 if room else 1)
            require(velocity @ normal >= -1e-3 * LA.norm(velocity), "velocity along the wall", inward=-(velocity @ normal))
            ctx.count("surface")
        if not room and solid > 2.5:
            ctx.count("far")
        ctx.count("room" if room else "solid")
        ctx.state(local)


@check.sub(quick=60, need=("outside", "room"))
def motion(rng, ctx):
    """Integrated motion around a solid obstacle, and within a room."""
    room = bool(rng.integers(2))
    obstacle, frame, outer, hulls = _hull_obstacle(rng, 2, 1 if room else 0)
    obstacle.evaluate_hirarchy_and_reference_points()
    body = hulls[0] if room else outer
    place = lambda low, high: body.center_position + rng.uniform(low, high) * (world.surface_point(rng, body) - body.center_position)
    attractor, local = (place(0, 0.8), place(0.1, 0.95)) if room else (place(1.3, 3), place(1.1, 3))
    obstacle.set_attractor(frame.transform_position_from_relative(attractor), in_global_frame=True)
    start = local.copy()
    delta = 0.02
    for _ in range(1500):
        if room and _solid(outer, local) > 1 - 1e-6:
            return
        if _behind(body, local, attractor) and LA.norm(attractor - local) > 0.1 and not room:
            return
        if LA.norm(attractor - local) < 0.05:
            break
        position = frame.transform_position_from_relative(local)
        velocity = obstacle.evaluate(position, in_global_frame=True)
        finite(velocity, "velocity is finite")
        local = frame.transform_position_to_relative(position + delta * velocity)
        solid = _solid(body, local)
        require(solid < 1.02 if room else solid > 0.98, "motion does not enter the wall", start=start, solid=solid)
    require(LA.norm(attractor - local) < 0.06, "motion reaches the attractor", start=start, distance=LA.norm(attractor - local), end=local, attractor=attractor)
    ctx.count("room" if room else "outside")
    ctx.state(start)
