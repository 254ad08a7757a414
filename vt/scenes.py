"""Complete scenes (obstacles + dynamics + avoider)."""
import copy

import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose

from vt import gen, world
from vt.core import Discard


def reach(obs):
    """Radius of the ball around the center which contains the obstacle."""
    return LA.norm(obs.axes_with_margin) / 2


def gap(tree1, tree2):
    """Lower bound of the distance of two (lists of) obstacles."""
    return min(
        LA.norm(o1.center_position - o2.center_position) - reach(o1) - reach(o2)
        for o1 in tree1
        for o2 in tree2
    )


def scatter(rng, dim, number, spread=4.0, minimum=0.2, **kwargs):
    """Disjoint obstacles."""
    out = []
    for _ in range(number):
        for _ in range(25):
            obs = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=spread), **kwargs)
            if all(gap([obs], [other]) > minimum for other in out):
                out.append(obs)
                break
    return out


def min_gamma(obstacles, position):
    return min(obs.get_gamma(position, in_global_frame=True) for obs in obstacles)


def free_position(rng, obstacles, dim, margin, spread=7.0):
    for _ in range(400):
        pos = rng.uniform(-spread, spread, size=dim)
        if not len(obstacles) or min_gamma(obstacles, pos) > 1 + margin:
            return pos
    raise Discard()


def spiral_matrix(rng, dim, factor=1.0):
    skew = np.zeros((dim, dim))
    skew[0, 1], skew[1, 0] = 1, -1
    rot = gen.rotation_matrix(rng, dim)
    return -np.eye(dim) + rot @ skew @ rot.T * rng.uniform(-factor, factor)


def stable_dynamics(rng, attractor, wavy=True, limited=None):
    """Dynamics with a single, globally stable attractor."""
    dim = attractor.shape[0]
    kind = rng.integers(3)
    limit = 1.0 if limited or (limited is None and rng.integers(2)) else None
    if kind == 0:
        return LinearSystem(attractor_position=attractor, maximum_velocity=limit)
    if kind == 1 or dim != 2 or not wavy:
        return LinearSystem(
            attractor_position=attractor, A_matrix=spiral_matrix(rng, dim), maximum_velocity=limit
        )
    from nonlinear_avoidance.dynamics import WavyLinearDynamics

    return WavyLinearDynamics(
        attractor_position=attractor, maximum_velocity=limit,
        maximum_deviation=float(rng.uniform(0.1, 0.35) * np.pi),
    )


def radius(rng):
    """Convergence radius."""
    return float(rng.choice([np.pi / 2, np.pi / 2, rng.uniform(np.pi / 2, np.pi * 0.95)]))


class Scene:
    """avoider.evaluate (`func`), flat list of obstacles, environment, attractor, dynamics"""

    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)

    def gamma(self, position):
        return min_gamma(self.flat, position)

    def moved(self, frame):
        """Same scene in another frame."""
        return self.rebuild(frame)


def _move_obstacle(obs, frame):
    obs = copy.deepcopy(obs)
    obs.pose = frame.transform_pose_from_relative(obs.pose)
    obs.linear_velocity = frame.transform_direction_from_relative(obs.linear_velocity)
    if obs.dimension == 3 and obs.angular_velocity is not None:
        obs.angular_velocity = frame.transform_direction_from_relative(obs.angular_velocity)
    return obs


class MovedDynamics:
    """Dynamics which are evaluated in a moved frame."""

    def __init__(self, dynamics, frame):
        self._dynamics = dynamics
        self._frame = frame
        if getattr(dynamics, "attractor_position", None) is not None:
            self.attractor_position = frame.transform_position_from_relative(
                dynamics.attractor_position
            )
        self.dimension = dynamics.dimension

    def evaluate(self, position):
        return self._frame.transform_direction_from_relative(
            self._dynamics.evaluate(self._frame.transform_position_to_relative(position))
        )


def random_frame(rng, dim, spread=5.0):
    return Pose(rng.normal(size=dim) * spread, world.orientation(rng, dim, trivial=0.0))


def rotational_scene(rng, kind=None, dim=None, closed_loop=False, **kwargs):
    """Scene with simple obstacles; kind in (avoid, evaluate, sequence)."""
    from nonlinear_avoidance.avoidance import RotationalAvoider
    from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer

    dim = dim or int(rng.choice([2, 2, 3]))
    kind = kind or str(rng.choice(["avoid", "evaluate", "sequence"]))
    if closed_loop:
        kwargs.setdefault("distance_scaling", 1.0)
    obstacles = scatter(rng, dim, int(rng.integers(1, 5)), **kwargs)
    attractor = free_position(rng, obstacles, dim, 0.4)
    dynamics = stable_dynamics(rng, attractor, limited=True if closed_loop else None)
    conv_radius = radius(rng)
    sticky = bool(rng.integers(2))
    tail = bool(rng.integers(2))

    def build(obstacles, dynamics, attractor):
        container = RotationContainer()
        for obs in obstacles:
            container.append(obs)
        if kind == "avoid":
            avoider = RotationalAvoider(
                initial_dynamics=dynamics,
                obstacle_environment=container,
                convergence_system=LinearSystem(attractor_position=attractor, maximum_velocity=1.0),
                convergence_radius=conv_radius,
                tail_rotation=tail,
            )

            def func(pos):
                return avoider.avoid(pos, sticky_surface=sticky)
        else:
            avoider = SingularityConvergenceDynamics(
                initial_dynamics=dynamics,
                obstacle_environment=container,
                obstacle_convergence=ProjectedRotationDynamics(
                    attractor_position=attractor, initial_dynamics=dynamics
                ),
                convergence_radius=conv_radius,
                tail_rotation=tail,
            )
            func = avoider.evaluate if kind == "evaluate" else avoider.evaluate_sequence
        scene = Scene(
            dim=dim, flat=list(obstacles), env=container, dynamics=dynamics, attractor=attractor,
            avoider=avoider, func=func, kind=kind, convergence_radius=conv_radius, sticky=sticky,
        )
        scene.rebuild = lambda frame: build(
            [_move_obstacle(obs, frame) for obs in obstacles], MovedDynamics(dynamics, frame),
            frame.transform_position_from_relative(attractor),
        )
        scene.fresh = lambda: build(
            [copy.deepcopy(obs) for obs in obstacles], copy.deepcopy(dynamics), np.array(attractor)
        )
        scene.with_dynamics = lambda other: build(obstacles, other, attractor)
        return scene

    return build(obstacles, dynamics, attractor)


def tree_scene(rng, dim=None, number=None, closed_loop=False, max_components=5, spread=6.0, kinds=("ellipse", "circle", "cuboid"), **kwargs):
    """Scene with trees of obstacles and the multi-obstacle avoider."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

    dim = dim or int(rng.choice([2, 2, 3]))
    if closed_loop:
        kwargs.setdefault("distance_scaling", 1.0)
    layouts = []
    for _ in range(number or int(rng.integers(1, 4))):
        for _ in range(25):
            layout = world.tree_layout(rng, dim, max_components=max_components, kinds=list(kinds), **kwargs)
            if rng.integers(4) == 0:
                # No avoidance behind these obstacles
                for item in layout:
                    item["obs"].tail_effect = False
            pose = world.pose(rng, dim, spread=spread)
            tree = world.build_tree(layout, pose)
            if all(gap(tree, world.build_tree(*other)) > 0.1 for other in layouts):
                layouts.append((layout, pose))
                break
    trees = [world.build_tree(*item) for item in layouts]
    attractor = free_position(rng, [obs for tree in trees for obs in tree], dim, 0.3, spread=8.0)
    dynamics = stable_dynamics(rng, attractor, limited=True if closed_loop else None)
    conv_radius = radius(rng)
    default = None
    if not closed_loop and rng.integers(4) == 0:
        # Dynamics which replace the initial ones at the roots
        default = LinearSystem(attractor_position=attractor, maximum_velocity=1.0)

    def build(poses, dynamics, default=default):
        container = MultiObstacleContainer()
        trees = [world.build_tree(layout, copy.deepcopy(pose)) for (layout, _), pose in zip(layouts, poses)]
        for tree in trees:
            container.append(tree)
        avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
            obstacle_container=container, initial_dynamics=dynamics, convergence_radius=conv_radius,
            default_dynamics=default,
        )
        scene = Scene(
            dim=dim, default=default, flat=[obs for tree in trees for obs in tree], trees=trees, env=container,
            dynamics=dynamics, attractor=dynamics.attractor_position, avoider=avoider,
            func=avoider.evaluate, kind="tree", convergence_radius=conv_radius,
        )
        scene.rebuild = lambda frame: build(
            [frame.transform_pose_from_relative(pose) for pose in poses], MovedDynamics(dynamics, frame),
            None if default is None else MovedDynamics(default, frame),
        )
        scene.fresh = lambda: build(copy.deepcopy(poses), copy.deepcopy(dynamics), copy.deepcopy(default))
        scene.with_dynamics = lambda other: build(poses, other, default)
        return scene

    return build([pose for _, pose in layouts], dynamics)


def any_scene(rng, **kwargs):
    if rng.integers(2):
        return rotational_scene(rng, **kwargs)
    return tree_scene(rng, **kwargs)


def near_position(rng, scene):
    """Position on / close to / away from a surface, outside of all obstacles."""
    for _ in range(60):
        obs = scene.flat[int(rng.integers(len(scene.flat)))]
        offset = float(rng.choice([0.0, 1e-6, 1e-3, 0.03, 0.3, 1.0, 3.0]))
        pos = world.surface_point(rng, obs, offset)
        if scene.gamma(pos) > 1 - 1e-9:
            return obs, offset, pos
    raise Discard()
