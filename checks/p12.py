"""P12: an evaluation depends only on the present state, and has no side-effects."""
import copy

import numpy as np
from numpy import linalg as LA

from vt import gen, scenes
from vt.core import Check
from vt.oracle import require

check = Check(
    "P12",
    rule="random scenes, sequences of evaluations at 3-6 positions interleaved with repeated evaluation, "
    "moving obstacles and comparison with a newly constructed scene; non-trivial: distinct (position, velocity)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def same(vel1, vel2, norm, mechanism, **detail):
    vel1, vel2 = np.asarray(vel1), np.asarray(vel2)
    require(
        vel1.shape == vel2.shape and bool(np.all(np.abs(vel1 - vel2) <= 1e-9 * norm + 1e-14)),
        mechanism, first=vel1, second=vel2, **detail,
    )


def positions(rng, scene, number):
    out = []
    for _ in range(number):
        if rng.integers(2):
            out.append(scenes.near_position(rng, scene)[2])
        else:
            out.append(rng.uniform(-8, 8, size=scene.dim))
    return out


def environment(scene):
    """What the environment is observed to be: poses, velocities, shapes and boundary functions."""
    rows = []
    for obs in scene.flat:
        rows.append(np.array(obs.center_position))
        rows.append(np.array(obs.axes_length))
        rows.append(np.array(obs.get_reference_point(in_global_frame=True)))
        rows.append(np.array(obs.linear_velocity))
        rows.append(np.ravel(obs.pose.transform_direction_from_relative(np.eye(scene.dim)[0])))
    return np.concatenate(rows)


@check.sub(quick=1500, need=("avoid", "evaluate", "sequence", "tree", "repeated"))
def history(rng, ctx):
    """Whatever has been evaluated before: same result as a newly constructed scene."""
    scene = scenes.any_scene(rng)
    moving = rng.integers(3) == 0
    if moving:
        for obs in scene.flat if scene.kind != "tree" else ():
            obs.linear_velocity = rng.normal(size=scene.dim)
    fresh = scene.fresh
    before = environment(scene)
    points = positions(rng, scene, int(rng.integers(3, 7)))
    first = []
    for pos in points:
        saved = np.array(pos)
        velocity = scene.func(pos)
        require(np.array_equal(pos, saved), f"the input position is not modified ({scene.kind})")
        first.append(np.array(velocity))
        if isinstance(velocity, np.ndarray) and velocity.flags.writeable and rng.integers(3) == 0:
            velocity += 1e3  # The caller is free to change what it obtained
        ctx.state(pos, first[-1])
    # Again, in different order
    for ii in rng.permutation(len(points)):
        norm = LA.norm(scene.dynamics.evaluate(points[ii])) + LA.norm(first[ii])
        same(scene.func(points[ii]), first[ii], norm, f"repeated evaluation gives the same velocity ({scene.kind})", position=points[ii])
        ctx.count("repeated")
    for ii, pos in enumerate(points):
        norm = LA.norm(scene.dynamics.evaluate(pos)) + LA.norm(first[ii])
        same(fresh().func(pos), first[ii], norm, f"same velocity as newly constructed avoider ({scene.kind})", position=pos)
    after = environment(scene)
    require(np.array_equal(before, after), f"evaluation does not change the obstacles ({scene.kind})")
    ctx.count(scene.kind)


@check.sub(quick=600, need=("moved", "avoid", "tree"))
def after_motion(rng, ctx):
    """Obstacles which have been moved: same result as if they had always been there."""
    scene = scenes.any_scene(rng)
    frame = scenes.random_frame(rng, scene.dim, spread=2.0)
    target = scene.rebuild(frame)
    # Evaluate in the old configuration first
    for pos in positions(rng, scene, 2):
        scene.func(pos)
    if scene.kind == "tree":
        for tree, other in zip(scene.trees, target.trees):
            tree.update_pose(copy.deepcopy(other.get_pose()))
    else:
        for obs, other in zip(scene.flat, target.flat):
            obs.pose = copy.deepcopy(other.pose)
    # Same (not moved) dynamics and attractor
    reference = scene.fresh()
    if scene.kind == "tree":
        for tree, other in zip(reference.trees, target.trees):
            tree.update_pose(copy.deepcopy(other.get_pose()))
    else:
        for obs, other in zip(reference.flat, target.flat):
            obs.pose = copy.deepcopy(other.pose)
    for pos in positions(rng, target, 3):
        norm = LA.norm(scene.dynamics.evaluate(pos))
        velocity = reference.func(pos)
        same(scene.func(pos), velocity, norm + LA.norm(velocity), f"evaluations before the motion of the obstacles have no effect ({scene.kind})", position=pos)
        ctx.state(pos, velocity)
    ctx.count("moved")
    ctx.count(scene.kind)


@check.sub(quick=500, need=("dynamics",))
def dynamics_unchanged(rng, ctx):
    """The dynamics which are handed over are not modified by the avoidance."""
    scene = scenes.any_scene(rng)
    probes = rng.normal(size=(4, scene.dim)) * 4

    def observed():
        return [np.array(scene.dynamics.attractor_position)] + [scene.dynamics.evaluate(pp) for pp in probes]

    before = copy.deepcopy(observed())
    for pos in positions(rng, scene, 4):
        scene.func(gen.frozen(pos))
    for old, new in zip(before, observed()):
        require(np.array_equal(old, new), f"the initial dynamics are not modified ({scene.kind})")
    ctx.count("dynamics")
    ctx.state(scene.attractor, scene.kind)


class Stored:
    """Dynamics which hand out what they store."""

    def __init__(self, velocity):
        self.velocity = velocity
        self.dimension = velocity.shape[0]
        self.attractor_position = None

    def evaluate(self, position):
        return self.velocity


@check.sub(quick=600, need=("stored", "argument", "moving"))
def arrays_of_the_caller(rng, ctx):
    """Velocities which are handed over (stored or as argument) are not modified."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.rotation_container import RotationContainer

    scene = scenes.rotational_scene(rng, kind="avoid")
    velocity = rng.normal(size=scene.dim)
    saved = np.array(velocity)
    for obs in scene.flat:
        if rng.integers(2):
            obs.linear_velocity = rng.normal(size=scene.dim)
            ctx.count("moving")
    container = RotationContainer()
    for obs in scene.flat:
        container.append(obs)
    if rng.integers(2):
        dynamics = Stored(velocity)
        avoider = RotationalAvoider(
            initial_dynamics=dynamics, obstacle_environment=container, convergence_system=dynamics,
            convergence_radius=scene.convergence_radius,
        )
        func = avoider.avoid
        ctx.count("stored")
    else:
        def func(pos, sticky_surface):
            return scene.avoider.avoid(
                pos, initial_velocity=velocity, convergence_velocity=velocity, sticky_surface=sticky_surface
            )
        ctx.count("argument")
    sticky = bool(rng.integers(2))
    for pos in positions(rng, scene, 3):
        first = np.array(func(pos, sticky_surface=sticky))
        require(np.array_equal(velocity, saved), "the velocity which is handed over is not modified")
        same(func(pos, sticky_surface=sticky), first, LA.norm(saved) + LA.norm(first), "repeated evaluation gives the same velocity (constant dynamics)")
        ctx.state(pos, first)


@check.sub(quick=400, need=("radius", "initial", "convergence", "list", "function"))
def arguments(rng, ctx):
    """Optional arguments of one evaluation have no effect on another one with the same arguments."""
    from nonlinear_avoidance.avoidance import obstacle_avoidance_rotational
    from nonlinear_avoidance.rotation_container import RotationContainer

    scene = scenes.rotational_scene(rng, kind="avoid")
    others = RotationContainer()
    for obs in scenes.scatter(rng, scene.dim, 2):
        others.append(obs)

    def draw():
        kwargs = {"convergence_radius": scenes.radius(rng), "obstacle_list": scene.env, "sticky_surface": bool(rng.integers(2))}
        if rng.integers(2):
            kwargs["initial_velocity"] = rng.normal(size=scene.dim)
            ctx.count("initial")
        if rng.integers(2):
            kwargs["convergence_velocity"] = rng.normal(size=scene.dim)
            ctx.count("convergence")
        if rng.integers(3) == 0:
            kwargs["obstacle_list"] = others
            ctx.count("list")
        return kwargs

    calls = [(scenes.free_position(rng, list(scene.flat) + list(others), scene.dim, 1e-3), draw()) for _ in range(3)]
    first = []
    for pos, kwargs in calls:
        # Newly constructed, i.e., without any history
        avoider = scene.fresh().avoider
        first.append(np.array(avoider.avoid(np.array(pos), **kwargs)))
    for it in list(rng.permutation(3)) + list(rng.permutation(3)):
        pos, kwargs = calls[int(it)]
        again = scene.avoider.avoid(np.array(pos), **kwargs)
        same(again, first[int(it)], LA.norm(first[int(it)]) + LA.norm(scene.dynamics.evaluate(pos)), "arguments of previous evaluations have no effect")
        ctx.count("radius")
        ctx.state(pos, again)
        if "initial_velocity" not in kwargs:
            handed = dict(kwargs, initial_velocity=scene.dynamics.evaluate(np.array(pos)))
            same(
                scene.avoider.avoid(np.array(pos), **handed), first[int(it)], LA.norm(again) + LA.norm(scene.dynamics.evaluate(pos)),
                "handing over the initial velocity has no effect",
            )
            ctx.count("handed")
    # Everything as arguments of a function / nothing at all
    pos = scenes.free_position(rng, scene.flat, scene.dim, 1e-3)
    initial = scene.dynamics.evaluate(np.array(pos))
    free = np.array(pos) + gen.unit(rng, scene.dim) * 1e-3
    convergence = rng.normal(size=scene.dim) if rng.integers(2) else scene.dynamics.evaluate(free)
    radius = scenes.radius(rng)
    fresh = scene.fresh().avoider
    expected = np.array(fresh.avoid(
        np.array(pos), initial_velocity=gen.frozen(initial), convergence_velocity=gen.frozen(convergence), convergence_radius=radius))
    if not fresh.tail_rotation:
        actual = obstacle_avoidance_rotational(
            gen.frozen(pos), gen.frozen(initial), scene.env, convergence_velocity=gen.frozen(convergence), convergence_radius=radius)
        same(actual, expected, LA.norm(initial) + LA.norm(expected), "the function gives the velocity of the avoider")
        ctx.count("function")
    expected = np.array(scene.fresh().avoider.avoid(np.array(pos)))
    same(scene.fresh().avoider.evaluate(gen.frozen(pos)), expected, LA.norm(initial) + LA.norm(expected),
         "evaluation is the avoidance of the initial dynamics")
