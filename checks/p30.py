"""P30: continuity of directions, weights and velocities along paths."""
import numpy as np
from numpy import linalg as LA

from vartools.dynamical_systems import LinearSystem
from vartools.states import Pose

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
from nonlinear_avoidance.arch_obstacle import create_arch_obstacle
from nonlinear_avoidance.dynamics.circular_dynamics import CircularRotationDynamics, SimpleCircularDynamics
from nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics import LocallyRotatedFromObtacle
from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingDynamics3D
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
from nonlinear_avoidance.multi_ellipse_obstacle import MultiEllipseObstacle
from nonlinear_avoidance.vector_rotation import VectorRotationTree

check = Check(
    "P30",
    rule="segments of any length through scenes with trees / simple obstacles and through the fields of "
    "the initial dynamics; the largest step between 30-40 samples is bisected down to a length of "
    "1e-8: a remaining difference is a jump; non-trivial: distinct (scene, segment)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def largest_step(func, start, end, samples=40, halvings=30):
    """Remaining difference of `func` at the steepest place of the segment, and this place."""
    values = np.linspace(0, 1, samples)
    points = [start + (end - start) * value for value in values]
    outs = [np.atleast_1d(np.array(func(point), dtype=float)) for point in points]
    finite(np.array(outs), "values are finite")
    steps = [LA.norm(after - before) for before, after in zip(outs[:-1], outs[1:])]
    it = int(np.argmax(steps))
    low, high, flow, fhigh = points[it], points[it + 1], outs[it], outs[it + 1]
    for _ in range(halvings):
        mid = (low + high) / 2
        fmid = np.atleast_1d(np.array(func(mid), dtype=float))
        if LA.norm(fmid - flow) > LA.norm(fhigh - fmid):
            high, fhigh = mid, fmid
        else:
            low, flow = mid, fmid
    return LA.norm(fhigh - flow), low, flow, fhigh


def _segment(rng, dim, spread):
    start = rng.uniform(-spread, spread, size=dim)
    return start, start + gen.unit(rng, dim) * rng.uniform(0.1, spread / 2)


def _unit_to(target, position):
    return (target - position) / max(LA.norm(target - position), 1e-12)


def mild_dynamics(rng, dim, attractor):
    """The direction is within 60 degrees of the one towards the attractor."""
    matrix = -np.eye(dim)
    matrix[:2, :2] = -gen.rotation2d(rng.uniform(-1, 1))
    return LinearSystem(attractor_position=attractor, A_matrix=matrix)


def _worst_alignment(scene, position):
    """Smallest cosine between the directions which have to be interpolated."""
    att = scene.attractor
    worst = 1.0
    for tree in scene.trees:
        for it, comp in enumerate(tree):
            ref = comp.get_reference_point(in_global_frame=True)
            worst = min(worst, _unit_to(att, position) @ _unit_to(att, ref))
            parent = tree.get_parent_idx(it)
            if parent is not None:
                above = tree.get_component(parent).get_reference_point(in_global_frame=True)
                worst = min(worst, _unit_to(att, ref) @ _unit_to(att, above))
    return worst


def _total_weight(scene, position):
    total = 0.0
    for tree in scene.trees:
        factor = scene.avoider.compute_tree_weight(tree)
        for it, comp in enumerate(tree):
            weight = scene.avoider.convergence_dynamics.evaluate_projected_weight(position, comp)
            total += factor * weight * (weight > (1e-6 if it == tree.root_idx else 1e-2))
    return total


@check.sub(quick=160, thorough=4000, need=("influence", "several", "component", "second tree"))
def convergence_direction(rng, ctx):
    """The direction towards which the motion converges, in an environment of trees."""
    scene = scenes.tree_scene(rng)
    scene = scene.with_dynamics(mild_dynamics(rng, scene.dim, scene.attractor))
    func = scene.avoider.compute_convergence_direction
    for _ in range(2):
        start, end = _segment(rng, scene.dim, 8)
        jump, place, before, after = largest_step(func, start, end)
        total = _total_weight(scene, place)
        if _worst_alignment(scene, place) < -0.95 or abs(total - 1) < 0.05 or LA.norm(place - scene.attractor) < 1e-3:
            continue
        require(jump < 0.05, "convergence direction is continuous", jump=jump, position=place, before=before, after=after)
        ctx.count("influence", total > 0.1)
        ctx.count("several", total > 1)
        ctx.count("component", len(scene.flat) > len(scene.trees))
        ctx.count("second tree", len(scene.trees) > 1)
        ctx.state(start, end)


@check.sub(quick=1200, need=("covered", "outside", "partial"))
def covered_attractor(rng, ctx):
    """A tree has no influence on the convergence as soon as it covers the attractor."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
    from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

    dim = int(rng.choice([2, 2, 3]))
    layout = world.tree_layout(rng, dim, max_components=4, kinds=["ellipse", "circle", "cuboid"])
    tree = world.build_tree(layout, world.pose(rng, dim, spread=3))
    container = MultiObstacleContainer()
    container.append(tree)
    comp = list(tree)[int(rng.integers(len(layout)))]
    offset = float(rng.choice([-0.3, -1e-3, 1e-9, 1e-6, 1e-4, 0.1, 0.5]))
    attractor = world.surface_point(rng, comp, 0.0)
    attractor = attractor + offset * _unit_to(attractor, comp.center_position)
    gamma = tree.get_gamma(attractor, in_global_frame=True)
    dynamics = mild_dynamics(rng, dim, attractor)
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=container, initial_dynamics=dynamics, convergence_radius=scenes.radius(rng)
    )
    scene = scenes.Scene(attractor=attractor, trees=[tree], avoider=avoider)
    for _ in range(3):
        pos = world.surface_point(rng, comp, float(rng.choice([0.0, 1e-3, 0.3, 2.0])))
        if LA.norm(pos - attractor) < 1e-2 or _worst_alignment(scene, pos) < -0.95:
            continue
        direction = avoider.compute_convergence_direction(gen.frozen(pos))
        initial = dynamics.evaluate(pos) / LA.norm(dynamics.evaluate(pos))
        close(LA.norm(direction), 1, 1e-6, "convergence direction is a unit vector")
        if gamma < 1 + 1e-5:
            # At most a share of (number of components) * 1e-5
            close(direction, initial, 1e-3, "a tree which covers the attractor has no influence", position=pos, attractor=attractor)
            ctx.count("covered" if gamma < 1 else "outside")
        else:
            ctx.count("partial", gamma < 2)
        ctx.state(pos, attractor)


@check.sub(quick=500, need=("close", "sticky", "plain"))
def single_obstacle(rng, ctx):
    """Velocity around a single obstacle, except behind/in front of it."""
    scene = scenes.rotational_scene(rng, kind="avoid")
    if len(scene.flat) != 1 or not getattr(scene.flat[0], "tail_effect", True):
        raise Discard()
    obs = scene.flat[0]
    for _ in range(4):
        start, end = _segment(rng, scene.dim, 5)
        center = obs.center_position
        start, end = start + center, end + center
        points = [start + (end - start) * value for value in np.linspace(0, 1, 30)]
        if min(scene.gamma(point) for point in points) < 1:
            continue
        jump, place, before, after = largest_step(scene.func, start, end, samples=30)
        initial = scene.dynamics.evaluate(place)
        norm = LA.norm(initial)
        inward = -obs.get_reference_direction(place, in_global_frame=True)
        aligned = max(_unit_to(scene.attractor, place) @ inward, initial @ inward / max(norm, 1e-9))
        if norm < 1e-2 or aligned > 0.5:
            continue
        require(jump < 0.05 * norm, "velocity around a single obstacle is continuous", jump=jump, position=place, before=before, after=after)
        ctx.count("close", scene.gamma(place) < 2)
        ctx.count("sticky" if scene.sticky else "plain")
        ctx.state(start, end)


@check.sub(quick=500, need=("positive",))
def projected_weight(rng, ctx):
    """Weight of an obstacle on the convergence."""
    scene = scenes.tree_scene(rng)
    obs = scene.flat[int(rng.integers(len(scene.flat)))]
    convergence = scene.avoider.convergence_dynamics
    func = lambda pos: convergence.evaluate_projected_weight(pos, obs)
    start, end = _segment(rng, scene.dim, 8)
    jump, place, before, after = largest_step(func, start, end)
    if obs.get_gamma(place, in_global_frame=True) < 1 + 1e-6 or LA.norm(place - scene.attractor) < 1e-3:
        raise Discard()
    reference = obs.get_reference_point(in_global_frame=True)
    if _unit_to(scene.attractor, place) @ _unit_to(scene.attractor, reference) < -0.999:
        raise Discard()
    require(jump < 0.02, "weight of the obstacle is continuous", jump=jump, position=place, before=before, after=after)
    ctx.count("positive", max(before[0], after[0]) > 0.05)
    ctx.state(start, end)


@check.sub(quick=700, need=("crossing", "smooth"))
def weight_of_the_rotation(rng, ctx):
    """The weights of a local avoider, as a function of the convergence direction."""
    from nonlinear_avoidance.avoidance import RotationalAvoider

    dim = int(rng.integers(2, 4))
    normal = gen.unit(rng, dim)
    reference = -normal + gen.unit(rng, dim) * rng.uniform(0, 0.9)
    reference = reference / LA.norm(reference)
    gamma = float(rng.uniform(1.05, 8))
    power = float(rng.choice([0.3, 1.0, 2.0]))
    if rng.integers(2):
        start, end = gen.unit(rng, dim), gen.unit(rng, dim)
        if LA.norm(start + end) < 0.3:
            raise Discard()

        def func(convergence):
            return RotationalAvoider.get_rotation_weight(
                normal, reference, convergence / LA.norm(convergence), gamma, smooth_continuation_power=power
            )

        label = "crossing" if (start @ normal) * (end @ normal) < 0 else "same side"
    else:
        from nonlinear_avoidance.rotation_container import RotationContainer
        from vartools.linalg import get_orthogonal_basis

        avoider = RotationalAvoider(
            initial_dynamics=LinearSystem(attractor_position=np.zeros(dim)),
            obstacle_environment=RotationContainer(), convergence_radius=float(rng.uniform(np.pi / 2, 2.5)),
        )
        base = get_orthogonal_basis(-normal)
        start, end = gen.unit(rng, dim), gen.unit(rng, dim)
        if LA.norm(start + end) < 0.3:
            raise Discard()
        func = lambda convergence: avoider.get_smooth_continuation_weight(
            gamma, reference, convergence / LA.norm(convergence), base
        )
        label = "smooth"
    jump, place, before, after = largest_step(func, start, end)
    place = place / LA.norm(place)
    if place @ normal > 0.9999:
        raise Discard()
    require(jump < 0.01, "weight of the rotation is continuous", jump=jump, convergence=place, normal=normal, reference=reference, gamma=gamma, before=before, after=after)
    ctx.count(label)
    ctx.state(start, end, normal)


def _initial_field(rng, kind):
    """Function, dimension, largest speed, and distance to where it is not defined / not unique."""
    if kind == "circle":
        dim = int(rng.choice([2, 3]))
        pose = world.pose(rng, dim, spread=2)
        radius, speed = float(rng.uniform(0.3, 4)), float(10.0 ** rng.uniform(-1, 1))
        dynamics = SimpleCircularDynamics(pose=pose, radius=radius, maximum_velocity=speed)
        return dynamics.evaluate, dim, speed, lambda pos: LA.norm(pose.transform_position_to_relative(pos)[:2])
    if kind == "rotation":
        center = rng.uniform(-2, 2, size=2)
        speed = float(10.0 ** rng.uniform(-1, 1))
        dynamics = CircularRotationDynamics(
            radius=float(rng.uniform(0.3, 4)), constant_velocity=speed, direction=int(rng.choice([-1, 1])),
            outside_approaching_factor=float(rng.uniform(0.2, 3)), inside_approaching_factor=float(rng.uniform(0.2, 3)),
            pose=Pose(center),
        )
        return dynamics.evaluate, 2, speed, lambda pos: LA.norm(pos - center)
    if kind == "wavy":
        center = rng.uniform(-2, 2, size=2)
        speed = float(rng.choice([1.0, rng.uniform(0.2, 3)]))
        dynamics = WavyLinearDynamics(
            center, distance_strech_factor=float(rng.uniform(0.3, 8)), maximum_deviation=float(rng.uniform(0, np.pi / 2)),
            maximum_velocity=speed,
        )
        return dynamics.evaluate, 2, speed, lambda pos: LA.norm(pos - center)
    if kind == "spiral":
        center, direction, speed = rng.uniform(-2, 2, size=3), gen.unit(rng, 3), float(10.0 ** rng.uniform(-1, 1))
        dynamics = SpiralingDynamics3D.create_from_direction(center, direction, radius=float(rng.uniform(0.3, 4)), speed=speed)
        return dynamics.evaluate, 3, speed, lambda pos: LA.norm(np.cross(pos - center, direction))
    dim = int(rng.choice([2, 3]))
    obs = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=2))
    center = np.array(obs.center_position)
    attractor = center + gen.unit(rng, dim) * rng.uniform(0.5, 8)
    axis = _unit_to(attractor, center)
    speed = float(10.0 ** rng.uniform(-1, 1))
    reference = gen.rotated_by(rng, axis, rng.uniform(-2.8, 2.8)) * speed
    dynamics = LocallyRotatedFromObtacle(obs, attractor.copy(), reference)
    # No unique rotation opposite of the obstacle
    return dynamics.evaluate, dim, speed, lambda pos: min(LA.norm(pos - attractor), 1 + _unit_to(attractor, pos) @ axis)


@check.sub(quick=1500, need=("circle", "rotation", "wavy", "spiral", "local", "close", "far"))
def initial_fields(rng, ctx):
    """Velocities of the initial dynamics."""
    kind = str(rng.choice(["circle", "rotation", "wavy", "spiral", "local"]))
    func, dim, speed, distance = _initial_field(rng, kind)
    start, end = _segment(rng, dim, 6)
    jump, place, before, after = largest_step(func, start, end, samples=30)
    if distance(place) < 0.05:
        raise Discard()
    require(jump < 0.01 * speed, f"velocity of the initial dynamics is continuous ({kind})", jump=jump, position=place, before=before, after=after)
    ctx.count(kind)
    ctx.count("close" if LA.norm(place) < 2 else "far")
    ctx.state(kind, start, end)


def _body(rng, kind):
    if kind == "arch":
        arch = create_arch_obstacle(
            wall_width=float(rng.uniform(0.2, 0.6)), axes_length=rng.uniform(2, 5, size=2), pose=world.pose(rng, 2), margin_absolut=float(rng.choice([0, 0.2])),
        )
        return lambda pos: arch.get_gamma(pos, in_global_frame=True), 2
    if kind == "ellipses":
        body = MultiEllipseObstacle()
        for _ in range(int(rng.integers(1, 4))):
            body.append(EllipseWithAxes(axes_length=rng.uniform(0.8, 3, size=2), pose=world.pose(rng, 2, spread=1)))
        body.set_root(obs_id=0)
        return lambda pos: body.get_gamma(pos, in_global_frame=True), 2
    dim = int(rng.choice([2, 3]))
    tree = world.build_tree(world.tree_layout(rng, dim), world.pose(rng, dim, spread=2))
    return lambda pos: tree.get_gamma(pos, in_global_frame=True), dim


@check.sub(quick=1500, need=("tree", "arch", "ellipses"))
def bodies(rng, ctx):
    """Distance to bodies with several components."""
    kind = str(rng.choice(["tree", "arch", "ellipses"]))
    func, dim = _body(rng, kind)
    start, end = _segment(rng, dim, 6)
    jump, place, before, after = largest_step(func, start, end, samples=30)
    require(jump < 1e-3 * (1 + abs(float(before[0]))), f"distance to the body is continuous ({kind})", jump=jump, position=place, before=before, after=after)
    ctx.count(kind)
    ctx.state(kind, start, end)


@check.sub(quick=500, need=("behind", "limited"))
def weights_of_the_segments(rng, ctx):
    """Weights of a path, away from its points and from its end."""
    from nonlinear_avoidance.dynamics.segmented_dynamics import create_segment_from_points

    points = [rng.uniform(-3, 3, size=2)]
    for _ in range(int(rng.integers(1, 5))):
        points.append(points[-1] + gen.unit(rng, 2) * rng.uniform(1.5, 5))
    dynamics = create_segment_from_points(points, margin=float(rng.choice([0.1, 0.5])))
    start, end = _segment(rng, 2, float(rng.choice([4, 15, 60])))
    jump, place, before, after = largest_step(lambda pos: dynamics.get_weights(pos), start, end)
    if LA.norm(place - dynamics.attractor_position) < 1e-2 or min(ss.get_distance(place) for ss in dynamics.segments) < 1e-4:
        raise Discard()
    require(jump < 1e-3, "weights of the segments are continuous", jump=jump, position=place, before=before, after=after)
    ctx.count("limited" if after[-1] > 0 else "full")
    ctx.count("behind", (dynamics.attractor_position - place) @ dynamics.segments[-1].direction < 0)
    ctx.state(start, end)


@check.sub(quick=800, need=("weights", "directions", "appears"))
def weighted_rotations(rng, ctx):
    """The mean of a tree of rotations, along a path of weights or of a direction."""
    dim = int(rng.choice([2, 3, 4]))
    number = int(rng.integers(3, 8))
    parents = [None] + [int(rng.integers(it)) for it in range(1, number)]
    directions = [gen.unit(rng, dim)]
    for parent in parents[1:]:
        directions.append(gen.rotated_by(rng, directions[parent], rng.uniform(0.01, 2.5)))
    weights = gen.weights(rng, number)

    def mean(values, angle=0.0, axis=None, node=0):
        tree = VectorRotationTree()
        tree.set_root(0, directions[0])
        for it in range(1, number):
            direction = directions[it]
            if it == node:
                direction = np.cos(angle) * direction + np.sin(angle) * axis
            tree.add_node(node_id=it, direction=direction, parent_id=parents[it])
        return tree.get_weighted_mean(node_list=list(range(number)), weights=list(values))

    if rng.integers(2):
        others = gen.weights(rng, number)
        ctx.count("appears", bool(np.any((weights == 0) & (others > 0))))
        jump, place, before, after = largest_step(mean, np.array(weights), np.array(others), samples=25)
        ctx.count("weights")
    else:
        # A leaf remains far from the opposite of its parent
        node = int(rng.choice([it for it in range(1, number) if it not in parents]))
        axis = gen.perpendicular(rng, directions[node])
        func = lambda angle: mean(weights, float(angle[0]), axis, node)
        start, end = np.array([-0.5]), np.array([0.5])
        if any(directions[parents[node]] @ (np.cos(a) * directions[node] + np.sin(a) * axis) < -0.95 for a in np.linspace(-0.5, 0.5, 20)):
            raise Discard()
        jump, place, before, after = largest_step(func, start, end, samples=25)
        ctx.count("directions")
    require(jump < 1e-3, "mean of the rotations is continuous", jump=jump, place=place, before=before, after=after)
    ctx.state(dim, *directions)
