"""P07: the multi-obstacle avoider does not command into a composite obstacle."""
import numpy as np
from numpy import linalg as LA

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

check = Check(
    "P07",
    rule="random scenes of 1-3 disjoint trees of up to 5 intersecting ellipses, circles and cuboids "
    "in 2D/3D, linear / spiralling / wavy dynamics; positions on, close to and away from the outer "
    "surface, and hostile positions (centers, reference points, attractor, opposite of the "
    "attractor, within, far away); non-trivial: distinct (position, velocity)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def basic(velocity, pos, initial):
    finite(velocity, "velocity is finite", position=pos)
    require(np.shape(velocity) == np.shape(pos), "velocity has the dimension of the space")
    require(
        LA.norm(velocity) <= LA.norm(initial) * (1 + 1e-6) + 1e-12,
        "avoidance does not increase the speed", speed=LA.norm(velocity), initial=LA.norm(initial),
    )


@check.sub(quick=1000, need=("surface", "towards", "near"))
def around_trees(rng, ctx):
    scene = scenes.tree_scene(rng)
    for _ in range(4):
        obs, offset, pos = scenes.near_position(rng, scene)
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(gen.frozen(pos))
        basic(velocity, pos, initial)
        bound = {0.0: 1e-4, 1e-6: 1e-2, 1e-3: 0.1}.get(offset)
        norm = LA.norm(initial)
        if bound is None or not norm:
            continue
        # On an intersection of components, the outward direction is not unique
        gammas = sorted(o.get_gamma(pos, in_global_frame=True) for o in scene.flat)
        if len(gammas) > 1 and gammas[1] - 1 < 1e-3 + 100 * offset:
            ctx.count("edge")
            continue
        normal = obs.get_normal_direction(pos, in_global_frame=True)
        inward = -(velocity @ normal) / norm
        require(inward <= bound, f"velocity does not enter the obstacle (distance {offset})", inward=inward, position=pos)
        ctx.count("surface" if not offset else "near")
        ctx.count("towards", initial @ normal < 0)
        ctx.state(pos, velocity)
    ctx.sample("scene", dimension=scene.dim, trees=[len(t) for t in scene.trees], position=pos, velocity=velocity)


@check.sub(quick=1000, need=tuple(f"hostile {k}" for k in range(9)))
def hostile_positions(rng, ctx):
    scene = scenes.tree_scene(rng)
    if rng.uniform() < 0.2:
        # Attractor close to / within a component
        comp = scene.flat[int(rng.integers(len(scene.flat)))]
        att = comp.center_position + rng.normal(size=scene.dim) * rng.choice([0.0, 0.3])
        scene.dynamics.attractor_position = np.array(att)
        scene.avoider.convergence_dynamics.attractor_position = np.array(att)
        if getattr(scene, "default", None) is not None:
            scene.default.attractor_position = np.array(att)
        ctx.count("covered attractor")
    att = scene.dynamics.attractor_position
    for _ in range(5):
        kind = int(rng.integers(9))
        comp = scene.flat[int(rng.integers(len(scene.flat)))]
        reference = comp.get_reference_point(in_global_frame=True)
        surface = world.surface_point(rng, comp)
        pos = [
            lambda: comp.center_position,
            lambda: reference,
            lambda: att,
            lambda: att - (reference - att) * rng.choice([1.0, rng.uniform(0.1, 2)]),
            lambda: att + (reference - att) * rng.uniform(0.1, 2),
            lambda: world.surface_point(rng, comp, -1e-9),
            lambda: comp.center_position + rng.uniform() * (surface - comp.center_position),
            lambda: rng.normal(size=scene.dim) * 1e3,
            lambda: att + rng.normal(size=scene.dim) * 1e-6,
        ][kind]()
        initial = scene.dynamics.evaluate(pos)
        velocity = scene.func(gen.frozen(pos))
        basic(velocity, pos, initial)
        ctx.count(f"hostile {kind}")
        ctx.state(pos, velocity)


@check.sub(quick=300, need=("repelled",))
def within_a_component(rng, ctx):
    """Once (numerically) within a single obstacle: the motion leads outwards."""
    scene = scenes.tree_scene(rng, number=1, max_components=1)
    obs = scene.flat[0]
    factor = rng.uniform(0.2, 0.999)
    pos = obs.center_position + factor * (world.surface_point(rng, obs) - obs.center_position)
    initial = scene.dynamics.evaluate(pos)
    if LA.norm(initial) < 1e-9:
        raise Discard()
    velocity = scene.func(pos)
    basic(velocity, pos, initial)
    normal = obs.get_normal_direction(pos, in_global_frame=True)
    require(velocity @ normal >= -1e-4 * LA.norm(initial), "velocity within an obstacle does not lead deeper", inward=-(velocity @ normal), factor=factor)
    ctx.count("repelled", initial @ normal < 0)
    ctx.state(pos, velocity)


@check.sub(quick=400, need=("cyclic", "constant"))
def dynamics_without_attractor(rng, ctx):
    """Global dynamics without attractor (cyclic motion, constant wind)."""
    from nonlinear_avoidance.dynamics.circular_dynamics import SimpleCircularDynamics
    from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from vartools.states import Pose

    which = "cyclic" if rng.integers(2) else "constant"
    scene = scenes.tree_scene(rng, dim=2 if which == "cyclic" else None)
    if which == "cyclic":
        reference = None
        dynamics = SimpleCircularDynamics(
            radius=float(rng.uniform(0.5, 4)), pose=Pose(scene.attractor, 0.0),
        )
    else:
        dynamics = ConstantValueWithSequence(rng.normal(size=scene.dim))
        reference = dynamics
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=scene.env, initial_dynamics=dynamics, reference_dynamics=reference,
    )
    obs, offset, pos = scenes.near_position(rng, scene)
    initial = dynamics.evaluate(pos)
    if LA.norm(initial) < 1e-6:
        raise Discard()
    velocity = avoider.evaluate(pos)
    basic(velocity, pos, initial)
    gammas = sorted(o.get_gamma(pos, in_global_frame=True) for o in scene.flat)
    bound = {0.0: 1e-4, 1e-6: 1e-2}.get(offset)
    if bound is not None and not (len(gammas) > 1 and gammas[1] < 1 + 1e-3):
        normal = obs.get_normal_direction(pos, in_global_frame=True)
        inward = -(velocity @ normal) / LA.norm(initial)
        require(inward <= bound, "velocity does not enter the obstacle (dynamics without attractor)", inward=inward)
        ctx.count(which)
    ctx.state(pos, velocity)


def _unit_to(start, end):
    return (end - start) / LA.norm(end - start)


@check.sub(quick=500, need=("child", "root", "third level", "straight"))
def direction_of_the_root(rng, ctx):
    """In contact, all components of a tree converge to the same (straight) motion: the one of the root."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from vartools.dynamical_systems import LinearSystem

    scene = scenes.tree_scene(rng, number=1)
    tree, att = scene.trees[0], scene.attractor
    dynamics = LinearSystem(attractor_position=att, maximum_velocity=1.0)
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=scene.env, initial_dynamics=dynamics, convergence_radius=scene.convergence_radius
    )
    if avoider.compute_tree_weight(tree) < 1:
        raise Discard()
    reference = [comp.get_reference_point(in_global_frame=True) for comp in tree]
    for it in range(len(reference)):
        parent = tree.get_parent_idx(it)
        if parent is not None and _unit_to(att, reference[it]) @ _unit_to(att, reference[parent]) < -0.9:
            # The rotation between opposite directions is arbitrary
            raise Discard()
    expected = _unit_to(reference[tree.root_idx], att)
    for _ in range(4):
        ind = int(rng.integers(len(reference)))
        pos = world.surface_point(rng, scene.flat[ind], float(rng.choice([0.0, 1e-9, 1e-7])))
        if LA.norm(pos - att) < 1e-2 or any(_unit_to(att, pos) @ _unit_to(att, ref) < -0.9 for ref in reference):
            continue
        direction = avoider.compute_convergence_direction(pos)
        close(LA.norm(direction), 1, 1e-6, "convergence direction is a unit vector")
        close(
            direction, expected, 5e-3, "in contact with a tree the motion converges to the one of the root",
            position=pos, component=ind,
        )
        ctx.count("straight")
        ctx.count("root" if ind == tree.root_idx else "child")
        if ind != tree.root_idx and tree.get_parent_idx(ind) != tree.root_idx:
            ctx.count("third level")
        ctx.state(pos, direction)
