"""P09: avoidance of moving obstacles is relative to their motion."""
import copy

import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose, Twist

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.rotation_container import RotationContainer

check = Check(
    "P09",
    rule="random scenes with translating, rotating and deforming trees and simple obstacles in 2D/3D; "
    "non-trivial: distinct (position, velocity)",
    assumptions=["obstacles, linear dynamics and the relative velocity of simple obstacles: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def angular(rng, dim):
    return float(rng.normal()) if dim == 2 else rng.normal(size=3)


def cross(omega, arm):
    if arm.shape[0] == 2:
        return omega * np.array([-arm[1], arm[0]])
    return np.cross(omega, arm)


def set_motion(rng, tree, deform=None, rotate=None):
    dim = tree.dimension
    rotate = rng.integers(2) if rotate is None else rotate
    tree.twist = Twist(rng.normal(size=dim), angular(rng, dim) if rotate else None)
    deform = rng.integers(3) == 0 if deform is None else deform
    if deform:
        tree.deformation_rate = float(rng.normal() * 0.3)


def point_velocity(tree, pos):
    arm = pos - tree.get_pose().position
    out = np.array(tree.twist.linear, dtype=float)
    if tree.twist.angular is not None:
        out = out + cross(tree.twist.angular, arm)
    if hasattr(tree, "deformation_rate"):
        out = out + tree.deformation_rate * arm
    return out


@check.sub(quick=700, need=("surface", "rotating", "deforming", "away"))
def moving_trees(rng, ctx):
    """On the surface, the velocity relative to the material point does not lead inwards."""
    from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity

    scene = scenes.tree_scene(rng)
    rest = scene.fresh()
    for tree in scene.trees:
        set_motion(rng, tree)
    for _ in range(4):
        obs, offset, pos = scenes.near_position(rng, scene)
        tree = next(t for t in scene.trees if any(o is obs for o in t))
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(gen.frozen(pos))
        finite(velocity, "velocity among moving obstacles is finite")
        ctx.state(pos, velocity)
        carried = compute_multiobstacle_relative_velocity(np.array(pos), scene.env)
        close(
            velocity - carried, rest.func(np.array(pos)), 1e-5 * (LA.norm(initial) + LA.norm(carried)),
            "velocity relative to the environment is the one among resting obstacles",
        )
        gammas = sorted(o.get_gamma(pos, in_global_frame=True) for o in scene.flat)
        if offset > 1e-6 or (len(gammas) > 1 and gammas[1] < 1 + 1e-3):
            ctx.count("away")
            continue
        normal = obs.get_normal_direction(pos, in_global_frame=True)
        relative = velocity - point_velocity(tree, pos)
        scale = LA.norm(initial) + LA.norm(point_velocity(tree, pos))
        # As soon as the position is (numerically) not on the surface, other trees keep a small weight
        bound = 1e-2 if offset or gammas[0] > 1 else 1e-4
        require(
            relative @ normal >= -bound * scale, "velocity relative to a moving obstacle does not enter it",
            inward=-(relative @ normal), scale=scale, offset=offset,
            rotating=tree.twist.angular is not None, deforming=hasattr(tree, "deformation_rate"),
        )
        ctx.count("surface")
        ctx.count("rotating", tree.twist.angular is not None)
        ctx.count("deforming", hasattr(tree, "deformation_rate"))


@check.sub(quick=900, need=("surface", "rotating", "relative", "avoid", "evaluate", "plain"))
def moving_simple_obstacles(rng, ctx):
    scene = scenes.rotational_scene(rng, kind=str(rng.choice(["avoid", "avoid", "evaluate"])))
    for obs in scene.flat:
        obs.linear_velocity = rng.normal(size=scene.dim)
        if rng.integers(2):
            obs.angular_velocity = angular(rng, scene.dim)
    for _ in range(3):
        obs, offset, pos = scenes.near_position(rng, scene)
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(gen.frozen(pos))
        finite(velocity, "velocity among moving obstacles is finite")
        ctx.state(pos, velocity)
        if offset or abs(scene.gamma(pos) - 1) > 1e-9 or LA.norm(initial) < 1e-6:
            continue
        arm = pos - obs.center_position
        local = np.array(obs.linear_velocity)
        if obs.angular_velocity is not None:
            local = local + cross(obs.angular_velocity, arm)
        normal = obs.get_normal_direction(pos, in_global_frame=True)
        scale = LA.norm(initial) + LA.norm(local)
        if scene.kind == "avoid" and sum(oo.get_gamma(pos, in_global_frame=True) < 1 + 1e-6 for oo in scene.flat) == 1 and LA.norm(initial - local) > 1e-6:
            # The same as the avoidance of resting obstacles, seen from the obstacle
            rest = [copy.deepcopy(oo) for oo in scene.flat]
            container = RotationContainer()
            for oo in rest:
                oo.linear_velocity, oo.angular_velocity = np.zeros(scene.dim), None
                container.append(oo)
            resting = scene.avoider.__class__(
                initial_dynamics=scene.dynamics, obstacle_environment=container,
                convergence_system=scene.avoider.convergence_dynamics,
                convergence_radius=scene.convergence_radius, tail_rotation=scene.avoider.tail_rotation,
            )
            seen = resting.avoid(np.array(pos), initial_velocity=initial - local, sticky_surface=scene.sticky)
            if scene.sticky:
                close(velocity - local, seen, 1e-4 * scale, "velocity relative to the obstacle is the one around a resting obstacle")
                ctx.count("relative")
            elif LA.norm(seen + local) > 1e-3 * scale:
                towards = (seen + local) / LA.norm(seen + local)
                close(velocity, towards * LA.norm(initial), 1e-3 * scale, "velocity is the one around a resting obstacle, with the initial speed")
                ctx.count("plain")
        ctx.count(scene.kind)
        if scene.kind == "avoid" and not scene.sticky:
            continue
        require(
            (velocity - local) @ normal >= -1e-4 * scale, "velocity relative to a moving obstacle does not enter it (local avoider)",
            inward=-((velocity - local) @ normal), scale=scale,
        )
        ctx.count("surface")
        ctx.count("rotating", obs.angular_velocity is not None)


@check.sub(quick=700, need=("single", "several", "far", "resting"))
def relative_velocity(rng, ctx):
    """The frame velocity of the trees: weighted mean of the velocities, which fades out."""
    from nonlinear_avoidance.multi_obstacle_avoider import compute_multiobstacle_relative_velocity

    scene = scenes.tree_scene(rng)
    pos = rng.normal(size=scene.dim) * rng.choice([3.0, 10.0])
    close(
        compute_multiobstacle_relative_velocity(pos, scene.env), np.zeros(scene.dim), 0,
        "resting obstacles have no relative velocity",
    )
    ctx.count("resting")
    moving = [tree for tree in scene.trees if rng.uniform() < 0.8]
    for tree in moving:
        set_motion(rng, tree)
    value = compute_multiobstacle_relative_velocity(gen.frozen(pos), scene.env)
    finite(value, "relative velocity is finite")
    bound = max([LA.norm(tree.twist.linear) + LA.norm(point_velocity(tree, pos) - tree.twist.linear) for tree in moving], default=0)
    # rotation and deformation, each
    for tree in moving:
        if hasattr(tree, "deformation_rate"):
            bound = max(bound, LA.norm(tree.twist.linear) + LA.norm(pos - tree.get_pose().position) * (abs(tree.deformation_rate) + LA.norm(tree.twist.angular if tree.twist.angular is not None else 0.0)))
    require(LA.norm(value) <= bound * (1 + 1e-9), "relative velocity is bounded by the velocity of the obstacles", value=LA.norm(value), bound=bound)
    if scene.gamma(pos) <= 1:
        inside = [t for t in scene.trees if t.get_gamma(pos) <= 1]
        if len(inside) == 1 and inside[0].twist is not None:
            close(value, point_velocity(inside[0], pos), 1e-9 * (1 + bound), "within an obstacle, the relative velocity is the one of its material")
            ctx.count("single")
    ctx.count("several", len(moving) > 1)
    ctx.state(pos, value)
    # Purely translating obstacles have no influence far away
    for tree in moving:
        tree.twist.angular = None
        if hasattr(tree, "deformation_rate"):
            del tree.deformation_rate
    last = None
    direction = gen.unit(rng, scene.dim)
    for distance in (1e2, 1e4, 1e6):
        value = LA.norm(compute_multiobstacle_relative_velocity(direction * distance, scene.env))
        speed = sum(LA.norm(t.twist.linear) for t in moving)
        scaling = min(o.distance_scaling for o in scene.flat)
        require(value <= 20 * speed / (distance * scaling) + 1e-15, "relative velocity fades out with the distance", value=value, distance=distance)
        ctx.count("far")


@check.sub(quick=300, need=("parked", "pushed", "at attractor"))
def resting_robot(rng, ctx):
    """Without desired velocity, on the surface of a moving obstacle: it is not run over."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider

    scene = scenes.tree_scene(rng, number=1)
    tree = scene.trees[0]
    set_motion(rng, tree)
    obs, offset, pos = scenes.near_position(rng, scene)
    if offset > 1e-6:
        raise Discard()
    at_attractor = rng.integers(4) == 0
    attractor = np.array(pos) if at_attractor else pos + gen.unit(rng, scene.dim) * 1e-3
    dynamics = LinearSystem(attractor_position=attractor)
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=scene.env, initial_dynamics=dynamics
    )
    velocity = avoider.evaluate(pos)
    finite(velocity, "velocity next to a moving obstacle is finite")
    normal = obs.get_normal_direction(pos, in_global_frame=True)
    local = point_velocity(tree, pos)
    gammas = sorted(o.get_gamma(pos, in_global_frame=True) for o in scene.flat)
    if len(gammas) > 1 and gammas[1] < 1 + 1e-3:
        raise Discard()
    require((velocity - local) @ normal >= -2e-3 * (1 + LA.norm(local)), "an almost resting position is not run over", inward=-((velocity - local) @ normal))
    ctx.count("parked")
    ctx.count("at attractor", at_attractor)
    ctx.count("pushed", local @ normal > 0)
    ctx.state(pos, velocity)


@check.sub(quick=24, thorough=300, need=("run", "met"))
def closed_loop(rng, ctx):
    """A moving tree, avoider in the loop: no collision."""
    scene = scenes.tree_scene(rng, number=1, closed_loop=True, max_components=3)
    tree = scene.trees[0]
    pos = scenes.near_position(rng, scene)[2]
    # Moves roughly towards the position
    heading = pos - tree.get_pose().position
    heading = heading / LA.norm(heading) + rng.normal(size=scene.dim) * 0.3
    tree.twist = Twist(heading * rng.uniform(0.2, 2.0), angular(rng, scene.dim) * 0.2 if rng.integers(2) else None)
    step = 0.02
    lowest = np.inf
    for it in range(800):
        velocity = scene.func(pos)
        finite(velocity, "velocity among moving obstacles is finite")
        pos = pos + step * velocity
        pose = tree.get_pose()
        position = pose.position + step * tree.twist.linear
        orientation = pose.orientation
        if tree.twist.angular is not None:
            if scene.dim == 2:
                orientation = orientation + step * tree.twist.angular
            else:
                from scipy.spatial.transform import Rotation

                orientation = Rotation.from_rotvec(step * tree.twist.angular) * orientation
        tree.update_pose(Pose(position, orientation))
        gamma = scene.gamma(pos)
        lowest = min(lowest, gamma)
        if tree.n_components > 1:
            gammas = sorted(tree.get_component(ii).get_gamma(pos, in_global_frame=True) for ii in range(tree.n_components))
            if gammas[1] < 1.1:
                # Driven into the corner between two components: it is trapped there, until the steps lead into one of them
                ctx.count("corner")
                break
        require(gamma > 1 - 0.03, "a moving obstacle does not run over the position", gamma=gamma, step=it, rotating=tree.twist.angular is not None)
        ctx.count("steps")
    ctx.count("run")
    ctx.count("met", lowest < 2.0)
    ctx.state(pos, lowest)
    ctx.sample("run", min_gamma=lowest, velocity=tree.twist.linear, end=pos)
