"""P05: the local avoiders do not command into an obstacle."""
import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, fingerprint, require

check = Check(
    "P05",
    rule="random scenes of 1-4 disjoint ellipses, circles and cuboids in 2D/3D with linear, "
    "spiralling and wavy dynamics; positions on the surface, at 1e-6, 1e-3, 0.03, 0.3 ... from it, "
    "within the obstacle and at random; non-trivial: distinct (position, velocity)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def judge(scene, obs, offset, pos, velocity, initial, ctx):
    """The claims at a position outside of the obstacles."""
    norm = LA.norm(initial)
    finite(velocity, "velocity is finite", position=pos)
    require(np.shape(velocity) == np.shape(pos), "velocity has the dimension of the space")
    require(
        LA.norm(velocity) <= norm * (1 + 1e-6) + 1e-12, "avoidance does not increase the speed",
        speed=LA.norm(velocity), initial=norm, kind=scene.kind,
    )
    if not norm:
        return
    inward = -(velocity @ obs.get_normal_direction(pos, in_global_frame=True)) / norm
    # Bounds: the rotation is complete on the surface and fades out with the distance
    bound = {0.0: 1e-6, 1e-6: 1e-2, 1e-3: 0.1}.get(offset)
    if bound is not None and abs(scene.gamma(pos) - 1) < 1e-2:
        require(inward <= bound, f"velocity does not enter the obstacle (distance {offset})", inward=inward, position=pos, kind=scene.kind)
        ctx.count("surface")
        ctx.count("turned_away", (initial @ obs.get_normal_direction(pos, in_global_frame=True)) < 0)


@check.sub(quick=1500, need=("surface", "turned_away", "avoid", "evaluate", "sequence"))
def around_obstacles(rng, ctx):
    scene = scenes.rotational_scene(rng)
    ctx.count(scene.kind)
    for _ in range(3):
        obs, offset, pos = scenes.near_position(rng, scene)
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(gen.frozen(pos))
        judge(scene, obs, offset, pos, velocity, initial, ctx)
        ctx.state(pos, velocity)
    ctx.sample("scene", kind=scene.kind, obstacles=len(scene.flat), position=pos, velocity=velocity)


@check.sub(quick=800, need=("inside", "diving"))
def within_obstacle(rng, ctx):
    """A position which has (e.g. numerically) entered is not driven further towards the center."""
    scene = scenes.rotational_scene(rng)
    obs = scene.flat[int(rng.integers(len(scene.flat)))]
    pos = obs.center_position + rng.uniform(0.3, 0.999) * (world.surface_point(rng, obs) - obs.center_position)
    initial = scene.dynamics.evaluate(pos)
    velocity = scene.func(gen.frozen(pos))
    finite(velocity, "velocity within an obstacle is finite")
    normal = obs.get_normal_direction(pos, in_global_frame=True)
    require(
        velocity @ normal >= -1e-6 * LA.norm(initial), "velocity within an obstacle does not lead deeper",
        inward=-(velocity @ normal), kind=scene.kind,
    )
    require(LA.norm(velocity) <= LA.norm(initial) * (1 + 1e-6), "avoidance does not increase the speed (inside)")
    ctx.count("inside")
    ctx.count("diving", initial @ normal < 0)
    ctx.state(pos, velocity)


@check.sub(quick=1000, need=("wall", "wall_near", "avoid", "evaluate", "sequence", "inner", "inner surface", "inner inside"))
def inside_a_boundary(rng, ctx):
    """Enclosing hull, possibly with obstacles in it: the velocity does not leave through the wall."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer

    dim = int(rng.choice([2, 2, 3]))
    hull = world.obstacle(rng, dim, low=4, high=9, is_boundary=True, distance_scaling=1.0, kind=rng.choice(["ellipse", "circle"]))
    attractor = hull.pose.transform_position_from_relative(gen.unit(rng, dim) * rng.uniform(0, 1))
    kind = str(rng.choice(["avoid", "avoid", "evaluate", "sequence"]))
    bodies, inner = [hull], []
    if rng.integers(3) == 0:
        center = hull.pose.transform_position_from_relative(gen.unit(rng, dim) * rng.uniform(0, 0.6))
        inner = [world.obstacle(rng, dim, at=Pose(center, world.orientation(rng, dim)), low=0.3, high=1.0, distance_scaling=1.0, margin_absolut=0.0)]
        if inner[0].get_gamma(attractor, in_global_frame=True) < 1.3:
            raise Discard()
        bodies = bodies + inner if rng.integers(2) else inner + bodies
    dynamics = (
        ConstantValue(rng.normal(size=dim)) if kind == "avoid" and rng.integers(2) else scenes.stable_dynamics(rng, attractor)
    )
    container = RotationContainer()
    for body in bodies:
        container.append(body)
    if kind == "avoid":
        avoider = RotationalAvoider(
            initial_dynamics=dynamics, obstacle_environment=container,
            convergence_system=LinearSystem(attractor_position=attractor),
            convergence_radius=scenes.radius(rng),
        )
        sticky = bool(rng.integers(2))
        func = lambda pos: avoider.avoid(pos, sticky_surface=sticky)
    else:
        avoider = SingularityConvergenceDynamics(
            initial_dynamics=dynamics, obstacle_environment=container,
            obstacle_convergence=ProjectedRotationDynamics(attractor_position=attractor, initial_dynamics=dynamics),
            convergence_radius=scenes.radius(rng),
        )
        func = avoider.evaluate if kind == "evaluate" else avoider.evaluate_sequence
    ctx.count(kind)
    if inner and rng.integers(2):
        # At the obstacle within the hull
        obs = inner[0]
        depth = float(rng.choice([1.0, 1.0, rng.uniform(0.3, 0.999)]))
        pos = obs.center_position + depth * (world.surface_point(rng, obs) - obs.center_position)
        if hull.get_gamma(pos, in_global_frame=True) < 1.05:
            raise Discard()
        initial = dynamics.evaluate(pos)
        velocity = func(gen.frozen(pos))
        finite(velocity, "velocity at an obstacle within a boundary is finite")
        normal = obs.get_normal_direction(pos, in_global_frame=True)
        require(velocity @ normal >= -1e-6 * LA.norm(initial), "velocity does not enter an obstacle within a boundary", inward=-(velocity @ normal), kind=kind, depth=depth)
        ctx.count("inner surface" if depth == 1.0 else "inner inside")
        ctx.state(pos, velocity)
        return
    distance = float(rng.choice([0.0, 1e-6, 1e-3, 0.1, 1.0]))
    pos = world.surface_point(rng, hull, -distance)
    if hull.get_gamma(pos, in_global_frame=True) < 1:
        raise Discard()  # Beyond the wall by rounding: boundaries without the position are skipped
    if inner and inner[0].get_gamma(pos, in_global_frame=True) < 1.05:
        raise Discard()
    initial = dynamics.evaluate(pos)
    reference = hull.get_reference_direction(pos, in_global_frame=True)
    if kind == "sequence" and abs(initial @ reference) > (1 - 1e-6) * LA.norm(initial):
        raise Discard()  # Straight from the wall: there is no unique rotation to the tangent
    velocity = func(gen.frozen(pos))
    finite(velocity, "velocity within a boundary is finite")
    require(LA.norm(velocity) <= LA.norm(initial) * (1 + 1e-6), "avoidance does not increase the speed (boundary)")
    normal = hull.get_normal_direction(pos, in_global_frame=True)
    bound = {0.0: 1e-6, 1e-6: 1e-2, 1e-3: 0.1}.get(distance)
    if bound is not None:
        require(velocity @ normal >= -bound * LA.norm(initial), "velocity does not leave the boundary", outward=-(velocity @ normal), distance=distance, kind=kind)
        ctx.count("wall", distance == 0)
        ctx.count("wall_near", distance > 0)
    ctx.count("inner", len(inner))
    ctx.state(pos, velocity)


@check.sub(quick=600, need=("tangent",))
def tangent_on_the_surface(rng, ctx):
    """Without rotation of the tail, an outgoing velocity remains as it is; an incoming becomes tangent."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.rotation_container import RotationContainer

    dim = int(rng.choice([2, 2, 3]))
    obs = world.obstacle(rng, dim)
    container = RotationContainer()
    container.append(obs)
    attractor = scenes.free_position(rng, [obs], dim, 0.5)
    dynamics = LinearSystem(attractor_position=attractor)
    avoider = RotationalAvoider(initial_dynamics=dynamics, obstacle_environment=container)
    pos = world.surface_point(rng, obs)
    initial = dynamics.evaluate(pos)
    normal = obs.get_normal_direction(pos, in_global_frame=True)
    if abs(initial @ normal) / LA.norm(initial) < 1e-3:
        raise Discard()
    velocity = avoider.avoid(pos)
    if initial @ normal > 0:
        close(velocity, initial, 1e-6 * LA.norm(initial), "velocity which leaves the surface is not modified")
        ctx.count("leaving")
    else:
        reference = obs.get_reference_direction(pos, in_global_frame=True)
        close(velocity @ normal, 0, 1e-6 * LA.norm(initial), "velocity towards the obstacle becomes tangent")
        aligned = initial / LA.norm(initial) @ reference
        if aligned < 1 - 1e-4:
            close(LA.norm(velocity), LA.norm(initial), 1e-5 * LA.norm(initial), "tangent velocity keeps its magnitude")
            ctx.count("tangent")
    ctx.state(pos, velocity)


@check.sub(quick=2500, need=("towards", "away", "rim", "aligned", "wide"))
def tangents(rng, ctx):
    """The tangent is exactly at the convergence radius from the direction to the surface."""
    from nonlinear_avoidance.avoidance import RotationalAvoider

    dim = gen.dim(rng)
    normal = gen.unit(rng, dim)
    radius = float(rng.choice([np.pi / 2, rng.uniform(np.pi / 2, 3.0)]))
    ctx.count("wide", radius > np.pi / 2)
    reference = -gen.rotated_by(rng, normal, rng.uniform(0, 1.4))
    which = str(rng.choice(["any", "rim", "aligned"], p=[0.6, 0.2, 0.2]))
    initial = gen.unit(rng, dim)
    if which == "rim":
        initial = gen.rotated_by(rng, -normal, radius)
    elif which == "aligned":
        initial = np.array(reference)
    angle = lambda vec: float(np.arccos(np.clip(-(vec @ normal) / LA.norm(vec), -1, 1)))
    if which != "aligned" and angle(initial) < np.pi - 1e-3:
        inputs = fingerprint(initial, normal, reference)
        tangent = RotationalAvoider.get_projected_tangent_from_vectors(
            initial_vector=initial, normal=normal, reference=reference, convergence_radius=radius
        )
        require(fingerprint(initial, normal, reference) == inputs, "computing the tangent does not modify the inputs")
        close(LA.norm(tangent), 1, 1e-6, "tangent is a unit vector")
        # Angles close to pi have the precision of the arc cosine
        close(angle(tangent), radius, 1e-5, "tangent is at the convergence radius", initial=angle(initial))
        if which == "rim" and angle(reference) < np.pi - radius - 0.05:
            close(tangent, initial, 1e-4, "direction at the convergence radius remains")
            ctx.count("rim")
        ctx.count("towards" if angle(initial) < radius else "away")
        ctx.state(initial, normal)
    # In the direction space
    inner = gen.unit(rng, dim - 1) * rng.uniform(0, 1.4) if dim > 2 else np.array([rng.uniform(-1.4, 1.4)])
    outer = inner + (0.0 if which == "aligned" else rng.normal(size=dim - 1) * 10 ** rng.uniform(-3, 0.5))
    got = RotationalAvoider.get_tangent_convergence_direction(
        dir_convergence=np.array(outer), dir_reference=np.array(inner), convergence_radius=radius
    )
    close(LA.norm(got), radius, 1e-9, "tangent of the direction space is at the convergence radius", outer=outer, inner=inner)
    if which == "aligned":
        ctx.count("aligned")
    else:
        along = (got - inner) / LA.norm(got - inner)
        close(along, (outer - inner) / LA.norm(outer - inner), 1e-6, "tangent is on the ray from the reference through the convergence")


@check.sub(quick=400, need=("aligned",))
def exactly_behind(rng, ctx):
    """Attractor, center, and position on the surface on a line with exact coordinates."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes

    dim = int(rng.choice([2, 3]))
    obs = EllipseWithAxes(
        axes_length=rng.uniform(0.5, 3, size=dim), pose=Pose(np.zeros(dim), None if dim == 3 else 0.0), margin_absolut=0.0,
        distance_scaling=1.0,
    )
    axis, sign = int(rng.integers(dim)), float(rng.choice([-1, 1]))
    attractor, pos = np.zeros(dim), np.zeros(dim)
    attractor[axis] = sign * rng.uniform(3, 10)
    pos[axis] = -sign * obs.axes_length[axis] / 2
    if obs.get_gamma(pos, in_global_frame=True) > 1:
        raise Discard()  # Next to the surface, a motion straight to the reference point is not modified
    initial = LinearSystem(attractor_position=attractor, maximum_velocity=1.0)
    container = RotationContainer()
    container.append(obs)
    radius = scenes.radius(rng)
    tail = bool(rng.integers(2))
    avoider = RotationalAvoider(
        initial_dynamics=initial, obstacle_environment=container, convergence_system=initial, convergence_radius=radius, tail_rotation=tail,
    )
    other = SingularityConvergenceDynamics(
        initial_dynamics=initial, obstacle_environment=container, convergence_radius=radius, tail_rotation=tail,
        obstacle_convergence=ProjectedRotationDynamics(attractor_position=attractor, initial_dynamics=initial),
    )
    normal = -sign * np.eye(dim)[axis]
    for func in (avoider.avoid, lambda at: avoider.avoid(at, sticky_surface=False), other.evaluate, other.evaluate_sequence):
        velocity = func(gen.frozen(pos))
        finite(velocity, "velocity exactly behind an obstacle is finite")
        require(velocity @ normal >= -1e-6, "velocity exactly behind an obstacle does not enter it", inward=-(velocity @ normal))
        ctx.count("aligned")
    ctx.state(pos, attractor)
