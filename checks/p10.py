"""P10: the avoidance does not depend on the choice of the coordinate frame."""
import numpy as np
from numpy import linalg as LA

from vartools.states import Twist

from vt import gen, scenes
from vt.core import Check, Discard
from vt.oracle import close, finite, require

check = Check(
    "P10",
    rule="random scenes (local avoiders and trees) evaluated in two frames (random rotation and "
    "translation) and in a scaled velocity; non-trivial: distinct deflected (position, velocity)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def compare(rng, ctx, scene, kind):
    frame = scenes.random_frame(rng, scene.dim)
    moved = scene.rebuild(frame)
    for _ in range(3):
        if rng.integers(2):
            _, _, pos = scenes.near_position(rng, scene)
        else:
            pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
        initial = scene.dynamics.evaluate(pos)
        if LA.norm(initial) < 1e-6:
            continue
        if any(abs(gg - 1) < 1e-5 for gg in (obs.get_gamma(pos, in_global_frame=True) for obs in scene.flat)):
            # Rounding decides about in- and outside
            ctx.count("on the surface")
            continue
        velocity = scene.func(pos)
        other = moved.func(frame.transform_position_from_relative(pos))
        finite(velocity, "velocity is finite (original frame)")
        finite(other, "velocity is finite (moved frame)")
        close(
            frame.transform_direction_to_relative(other), velocity, 1e-6 * LA.norm(initial),
            "velocity does not depend on the coordinate frame", position=pos, kind=kind,
        )
        if LA.norm(velocity - initial) > 1e-3 * LA.norm(initial):
            ctx.count(f"deflected {kind}")
            ctx.state(pos, velocity)
    ctx.sample(kind, dimension=scene.dim, position=pos, frame=[frame.position])


@check.sub(quick=800, need=("deflected avoid", "deflected evaluate", "deflected sequence"))
def local_avoiders(rng, ctx):
    scene = scenes.rotational_scene(rng)
    compare(rng, ctx, scene, scene.kind)


@check.sub(quick=800, need=("deflected tree",))
def trees(rng, ctx):
    compare(rng, ctx, scenes.tree_scene(rng), "tree")


@check.sub(quick=500, need=("reversed", "swapped", "individual", "cut off"))
def order_of_the_obstacles(rng, ctx):
    """The listing order of obstacles and of components is no information."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
    from nonlinear_avoidance.rotation_container import RotationContainer

    if rng.integers(2):
        scene = scenes.tree_scene(rng, number=int(rng.integers(2, 4)))
        container = MultiObstacleContainer()
        for tree in reversed(scene.trees):
            container.append(tree)
        other = MultiObstacleAvoider.create_with_convergence_dynamics(
            obstacle_container=container, initial_dynamics=scene.dynamics,
            convergence_radius=scene.convergence_radius, default_dynamics=scene.default,
        ).evaluate
        label = "reversed"
        if len(scene.trees) < 2:
            raise Discard()
    else:
        scene = scenes.rotational_scene(rng, kind="avoid")
        if len(scene.flat) < 2:
            raise Discard()
        from nonlinear_avoidance.avoidance import RotationalAvoider

        container = RotationContainer()
        for obs in reversed(scene.flat):
            container.append(obs)
        avoider = RotationalAvoider(
            initial_dynamics=scene.dynamics, obstacle_environment=container,
            convergence_system=scene.avoider.convergence_dynamics,
            convergence_radius=scene.convergence_radius, tail_rotation=scene.avoider.tail_rotation,
        )
        if rng.integers(3) == 0:
            # Individual radiuses
            radiuses = [float(rng.choice([np.pi / 2, rng.uniform(np.pi / 2, 3.0)])) for _ in scene.flat]
            scene.env.convergence_radiuses = radiuses
            container.convergence_radiuses = radiuses[::-1]
            ctx.count("individual")
        if rng.integers(3) == 0:
            scene.avoider.cut_off_gamma = avoider.cut_off_gamma = float(rng.uniform(1.5, 6))
            ctx.count("cut off")
        other = lambda pos: avoider.avoid(pos, sticky_surface=scene.sticky)
        label = "swapped"
    for _ in range(3):
        pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
        velocity = scene.func(pos)
        norm = LA.norm(scene.dynamics.evaluate(pos))
        close(other(pos), velocity, 1e-5 * norm, f"velocity does not depend on the order of the obstacles ({label})", position=pos)
        ctx.state(pos, velocity)
    ctx.count(label)


@check.sub(quick=400, need=("evaluate", "sequence", "out of reach first", "in touch"))
def order_of_the_nonlinear_avoider(rng, ctx):
    """Same as above, for the avoider with the convergence dynamics of every obstacle."""
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer

    scene = scenes.rotational_scene(rng, kind=str(rng.choice(["evaluate", "sequence"])))
    if len(scene.flat) < 2:
        raise Discard()
    order = rng.permutation(len(scene.flat))
    if all(order == np.arange(len(order))):
        order = order[::-1]
    container = RotationContainer()
    for it in order:
        container.append(scene.flat[it])
    avoider = SingularityConvergenceDynamics(
        initial_dynamics=scene.dynamics, obstacle_environment=container,
        obstacle_convergence=ProjectedRotationDynamics(
            attractor_position=scene.attractor, initial_dynamics=scene.dynamics
        ),
        convergence_radius=scene.convergence_radius, tail_rotation=scene.avoider._rotation_avoider.tail_rotation,
    )
    other = avoider.evaluate if scene.kind == "evaluate" else avoider.evaluate_sequence
    cut_off = scene.avoider._rotation_avoider.cut_off_gamma
    for _ in range(3):
        pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
        gammas = np.array([obs.get_gamma(pos, in_global_frame=True) for obs in scene.flat])
        if np.any(np.abs(gammas - cut_off) < 1e-3):
            ctx.count("on the limit")
            continue
        if gammas[0] > cut_off and np.min(gammas) < cut_off:
            ctx.count("out of reach first")
        if np.min(gammas) < 1.5:
            ctx.count("in touch")
        velocity = scene.func(pos)
        norm = LA.norm(scene.dynamics.evaluate(pos))
        close(
            other(pos), velocity, 1e-5 * norm,
            f"velocity does not depend on the order of the obstacles ({scene.kind})", position=pos, gammas=gammas,
        )
        ctx.state(pos, velocity)
    ctx.count(scene.kind)


@check.sub(quick=400, need=("several", "a far one"))
def individual_radiuses(rng, ctx):
    """Each obstacle has its own convergence radius, wherever it is listed."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.rotation_container import RotationContainer

    scene = scenes.rotational_scene(rng, kind="avoid")
    if len(scene.flat) < 2:
        raise Discard()
    wide = bool(rng.integers(2))
    radiuses = [np.pi / 2 if bool(it % 2) == wide else float(rng.uniform(2.2, 3.0)) for it in range(len(scene.flat))]
    cut_off = float(rng.uniform(1.3, 5))

    def build(order):
        container = RotationContainer()
        for it in order:
            container.append(scene.flat[it])
        container.convergence_radiuses = [radiuses[it] for it in order]
        avoider = RotationalAvoider(
            initial_dynamics=scene.dynamics, obstacle_environment=container,
            convergence_system=scene.avoider.convergence_dynamics, tail_rotation=scene.avoider.tail_rotation,
        )
        avoider.cut_off_gamma = cut_off
        return lambda pos: avoider.avoid(pos, sticky_surface=scene.sticky)

    order = list(range(len(scene.flat)))
    func, other = build(order), build(list(rng.permutation(order)[::-1]))
    back = build(order[::-1])
    for _ in range(4):
        for _ in range(20):
            pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
            gammas = [obs.get_gamma(pos, in_global_frame=True) for obs in scene.flat]
            if min(gammas) < 0.7 * cut_off:
                break
        else:
            continue
        velocity = func(pos)
        norm = LA.norm(scene.dynamics.evaluate(pos))
        for name, order_of in (("shuffled", other), ("reversed", back)):
            close(order_of(pos), velocity, 1e-5 * norm, f"velocity does not depend on the order of the obstacles with individual radiuses ({name})", position=pos)
        ctx.count("several")
        ctx.count("a far one", int(max(gammas) > cut_off))
        ctx.state(pos, velocity)


@check.sub(quick=500, need=("scaled",))
def scaled_velocity(rng, ctx):
    """Twice as fast dynamics give the same direction, twice as fast."""
    scene = scenes.any_scene(rng)
    factor = float(rng.choice([0.1, 0.5, 2.0, 10.0]))

    original = scene.dynamics.evaluate
    pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
    velocity = scene.func(pos)
    try:
        scene.dynamics.evaluate = lambda *args, **kwargs: factor * original(*args, **kwargs)
        if hasattr(scene.dynamics, "evaluate_magnitude"):
            magnitude = scene.dynamics.evaluate_magnitude
            scene.dynamics.evaluate_magnitude = lambda *args, **kwargs: factor * magnitude(*args, **kwargs)
    except AttributeError:
        raise Discard()
    faster = scene.func(pos)
    close(faster, factor * velocity, 1e-5 * factor * LA.norm(original(pos)), "velocity scales with the initial velocity", kind=scene.kind, factor=factor)
    ctx.count("scaled")
    ctx.state(pos, velocity)
