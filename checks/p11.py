"""P11: the avoidance interferes only where it is needed."""
import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import LinearSystem

from vt import gen, scenes, world
from vt.core import Check
from vt.oracle import close, finite, require

check = Check(
    "P11",
    rule="random scenes without obstacle, far away from the obstacles, beyond the cut-off and at the "
    "attractor; non-trivial: distinct (position, velocity)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


@check.sub(quick=1500, need=("avoid", "evaluate", "tree"))
def without_obstacles(rng, ctx):
    """An empty environment: exactly the initial dynamics."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer

    dim = int(rng.choice([2, 3, 4]))
    attractor = rng.normal(size=dim) * 3
    dynamics = scenes.stable_dynamics(rng, attractor)
    kind = str(rng.choice(["avoid", "evaluate", "tree"]))
    if kind == "avoid":
        func = RotationalAvoider(
            initial_dynamics=dynamics, obstacle_environment=RotationContainer(),
            convergence_system=LinearSystem(attractor_position=attractor),
            convergence_radius=scenes.radius(rng), tail_rotation=bool(rng.integers(2)),
        ).avoid
    elif kind == "evaluate":
        avoider = SingularityConvergenceDynamics(
            initial_dynamics=dynamics, obstacle_environment=RotationContainer(),
            obstacle_convergence=ProjectedRotationDynamics(attractor_position=attractor, initial_dynamics=dynamics),
        )
        func = avoider.evaluate if rng.integers(2) else avoider.evaluate_sequence
    else:
        func = MultiObstacleAvoider.create_with_convergence_dynamics(
            obstacle_container=MultiObstacleContainer(), initial_dynamics=dynamics,
            convergence_radius=scenes.radius(rng),
        ).evaluate
    for ii in range(3):
        pos = attractor.copy() if ii == 0 else attractor + rng.normal(size=dim) * rng.choice([1e-5, 1e-3, 0.1, 3.0, 100.0])
        initial = dynamics.evaluate(pos)
        velocity = func(gen.frozen(pos))
        close(velocity, initial, 1e-6 * LA.norm(initial) + 1e-12, f"without obstacle, the velocity is not modified ({kind})", position=pos)
        ctx.state(pos, velocity)
    ctx.count(kind)


@check.sub(quick=1500, need=("avoid", "evaluate", "sequence", "tree"))
def far_away(rng, ctx):
    """The influence of obstacles fades out with the distance."""
    scene = scenes.any_scene(rng, **(dict(distance_scaling=1.0)))
    direction = gen.unit(rng, scene.dim)
    levels = [(1e3, 0.25), (1e5, 0.03)]
    if scene.kind != "tree":
        levels.append((1e8, 1e-3))
    for distance, bound in levels:
        pos = direction * distance
        initial = scene.dynamics.evaluate(pos)
        norm = LA.norm(initial)
        velocity = scene.func(gen.frozen(pos))
        finite(velocity, "velocity is finite far away")
        difference = LA.norm(velocity - initial) / norm
        require(difference <= bound, f"influence of the obstacles fades out (distance {distance:g}, {scene.kind})", difference=difference)
        ctx.state(pos, velocity)
    ctx.count(scene.kind)


@check.sub(quick=800, need=("beyond",))
def beyond_the_cut_off(rng, ctx):
    """RotationalAvoider: no influence beyond its cut-off value."""
    scene = scenes.rotational_scene(rng, kind="avoid")
    scene.avoider.cut_off_gamma = float(rng.uniform(2, 10))
    for _ in range(5):
        pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3, spread=30)
        if scene.gamma(pos) < scene.avoider.cut_off_gamma:
            continue
        initial = scene.dynamics.evaluate(pos)
        close(scene.func(pos), initial, 1e-12 * LA.norm(initial), "beyond the cut-off the velocity is not modified")
        ctx.count("beyond")
        ctx.state(pos, initial)


@check.sub(quick=1000, need=("attractor", "avoid", "evaluate", "sequence", "tree"))
def attractor_remains(rng, ctx):
    """The attractor stays an equilibrium, and the only one along random positions."""
    scene = scenes.any_scene(rng)
    velocity = scene.func(gen.frozen(scene.attractor))
    close(velocity, np.zeros(scene.dim), 1e-12, f"the attractor stays an equilibrium ({scene.kind})")
    ctx.count("attractor")
    ctx.count(scene.kind)
    for _ in range(4):
        pos = scenes.free_position(rng, scene.flat, scene.dim, 0.02)
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(pos)
        if LA.norm(initial) < 1e-6:
            continue
        require(LA.norm(velocity) > 1e-9 * LA.norm(initial), f"no additional equilibrium ({scene.kind})", position=pos)
        ctx.state(pos, velocity)


@check.sub(quick=700, need=("towards", "behind", "sticky", "plain"))
def rotation_of_the_tail(rng, ctx):
    """The option for the tail only matters where the convergence leaves the obstacle."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.rotation_container import RotationContainer

    dim = int(rng.choice([2, 2, 3]))
    obs = world.obstacle(rng, dim)
    container = RotationContainer()
    container.append(obs)
    attractor = scenes.free_position(rng, [obs], dim, 0.3)
    dynamics = scenes.stable_dynamics(rng, attractor)
    convergence = LinearSystem(attractor_position=attractor)
    radius = scenes.radius(rng)
    sticky = bool(rng.integers(2))
    for _ in range(3):
        pos = world.surface_point(rng, obs, float(rng.choice([0.0, 0.01, 0.3, 1.0, 3.0])))
        if LA.norm(pos - attractor) < 1e-2 or obs.get_gamma(pos, in_global_frame=True) < 1:
            continue
        velocities = [
            RotationalAvoider(
                initial_dynamics=dynamics, obstacle_environment=container, convergence_system=convergence,
                convergence_radius=radius, tail_rotation=tail,
            ).avoid(np.array(pos), sticky_surface=sticky)
            for tail in (True, False)
        ]
        heading = convergence.evaluate(pos)
        angle = np.arccos(np.clip(-(heading @ obs.get_normal_direction(pos, in_global_frame=True)) / LA.norm(heading), -1, 1))
        if angle < radius - 1e-6:
            norm = LA.norm(dynamics.evaluate(pos))
            close(velocities[0], velocities[1], 1e-6 * norm, "option for the tail has no effect on a convergence towards the obstacle", angle=angle, radius=radius)
            ctx.count("towards")
        else:
            ctx.count("behind")
        ctx.count("sticky" if sticky else "plain")
        ctx.state(pos, velocities[1])
