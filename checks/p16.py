"""P16: the base dynamical systems have their documented shape everywhere."""
import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation
from vartools.dynamical_systems import ConstantValue, LinearSystem
from vartools.states import Pose
from dynamic_obstacle_avoidance.containers import ObstacleContainer

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, finite, fingerprint, require

from nonlinear_avoidance.dynamics.circular_dynamics import (
    CircularRotationDynamics,
    DynamicDynamics,
    SimpleCircularDynamics,
)
from nonlinear_avoidance.dynamics.constant_value import ConstantValueWithSequence
from nonlinear_avoidance.dynamics.deviation_dynamics import ObstacleRotatedDynamics
from nonlinear_avoidance.dynamics.locally_rotated_linear_dynamics import LocallyRotatedFromObtacle
from nonlinear_avoidance.dynamics.segmented_dynamics import (
    DynamicsSegment,
    WavyPathFollowing,
    create_segment_from_points,
)
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
from nonlinear_avoidance.dynamics.spiral_dynamics import SpiralingAttractorDynamics3D, SpiralingDynamics3D
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics

check = Check(
    "P16",
    rule="base dynamical systems with random parameters and poses, probed on the limit cycle, at the "
    "attractor, on the axes, inside the slow-down region and far away; non-trivial: distinct "
    "(system, parameters, probe)",
)


def _local_probe(rng, radius, dim):
    """Point relative to a limit cycle in the first two coordinates, and its planar radius."""
    kind = rng.integers(7)
    rr = radius * {
        0: 1.0,
        1: 1 / 3,
        2: rng.uniform(0.01, 0.33),
        3: rng.uniform(0.34, 0.99),
        4: rng.uniform(1.01, 3),
        5: 10.0 ** rng.uniform(0.5, 3),
        6: 10.0 ** rng.uniform(-6, -2),
    }[int(kind)]
    angle = rng.choice([0, np.pi / 2, np.pi, -np.pi / 2, rng.uniform(-np.pi, np.pi)])
    loc = np.zeros(dim)
    loc[:2] = rr * np.cos(angle), rr * np.sin(angle)
    if dim > 2 and rng.uniform() < 0.7:
        loc[2:] = rng.normal(size=dim - 2) * radius * 10.0 ** rng.uniform(-3, 1)
    return loc, rr


@check.sub(quick=4000, need=("on-circle", "inside", "outside", "slow", "center", "plane", "default-pose"))
def simple_circular(rng, ctx):
    dim = int(rng.choice([2, 3]))
    radius = float(rng.choice([1.0, 2.0, 0.1, 10.0 ** rng.uniform(-2, 2)]))
    speed = float(rng.choice([1.0, 1.0, 2.0, 0.3, 10.0 ** rng.uniform(-2, 2)]))
    kind = rng.integers(4)
    if kind == 0:
        pose = Pose.create_trivial(dim)
        dynamics = SimpleCircularDynamics(dimension=dim, radius=radius, maximum_velocity=speed)
        ctx.count("default-pose")
    elif kind == 1 and dim == 3:
        matrix = gen.rotation_matrix(rng, 3)
        pose = Pose(rng.uniform(-5, 5, size=3), Rotation.from_matrix(matrix))
        given = Pose(pose.position.copy(), Rotation.identity())
        dynamics = SimpleCircularDynamics(base_matrix=matrix, pose=given, radius=radius, maximum_velocity=speed)
    else:
        pose = world.pose(rng, dim, spread=5)
        dynamics = SimpleCircularDynamics(pose=pose, radius=radius, maximum_velocity=speed)
    close(dynamics.attractor_position, pose.position, 1e-12, "center of the circle is the pose position")

    center = pose.transform_position_from_relative(np.zeros(dim))
    if LA.norm(pose.transform_position_to_relative(center)) == 0:
        close(dynamics.evaluate(center), np.zeros(dim), 1e-12, "zero velocity at the center of the circle")
        ctx.count("center")

    loc, rr = _local_probe(rng, radius, dim)
    position = pose.transform_position_from_relative(loc)
    before = position.copy()
    vel = dynamics.evaluate(position)
    finite(vel, "circular velocity finite", position=position)
    close(position, before, 0, "evaluate leaves the position unchanged")
    ctx.state("circ", dim, radius, speed, loc)
    slack = 1e-6 + 1e-12 * (1 + LA.norm(position)) / max(rr, 1e-300)
    if slack > 0.01:
        raise Discard()
    scale = min(1.0, LA.norm(loc) / (radius / 3))
    close(LA.norm(vel), speed * scale, speed * slack * 3, "speed of the circular dynamics", local=loc, radius=radius, maximum=speed)
    if scale < 1:
        ctx.count("slow")
    direction = pose.transform_direction_to_relative(vel) / LA.norm(vel)
    radial = loc[:2] / rr
    tangent = np.array([-radial[1], radial[0]])
    require(direction[:2] @ tangent > 0, "circular motion is counter-clockwise", local=loc, direction=direction)
    out = direction[:2] @ radial
    if abs(rr / radius - 1) < 1e-9:
        # the velocity is the square root of the distance to the cycle
        close(out, 0, 1e-3, "motion on the circle is tangential", local=loc, radius=radius)
        ctx.count("on-circle")
    elif rr < radius * 0.99:
        require(out > 0, "motion inside of the circle is outward", local=loc, radius=radius)
        ctx.count("inside")
    elif rr > radius * 1.009:
        require(out < 0, "motion outside of the circle is inward", local=loc, radius=radius)
        ctx.count("outside")
    if dim > 2:
        if abs(loc[2]) > 1e-6:
            require(direction[2] * loc[2] < 0, "motion is towards the plane of the circle", local=loc)
            ctx.count("plane")
        elif abs(loc[2]) <= 1e-9 * min(rr, radius):
            close(direction[2], 0, 1e-5, "motion stays in the plane of the circle", local=loc)
    # same motion in the frame of the circle
    canonical = SimpleCircularDynamics(pose=Pose.create_trivial(dim), radius=radius, maximum_velocity=speed)
    close(pose.transform_direction_to_relative(vel), canonical.evaluate(loc), speed * max(1e-3, slack), "circular dynamics move with the pose")
    # the same motion at any scale
    factor = 10.0 ** rng.uniform(-1, 1)
    larger = SimpleCircularDynamics(pose=Pose.create_trivial(dim), radius=radius * factor, maximum_velocity=speed)
    close(larger.evaluate(loc * factor), canonical.evaluate(loc), 1e-3 * speed, "the motion around a larger circle is the same", factor=factor, radius=radius, local=loc)


@check.sub(quick=60, thorough=400, need=("converged",))
def simple_circular_converges(rng, ctx):
    dim = int(rng.choice([2, 3]))
    radius = float(rng.uniform(0.3, 4))
    pose = world.pose(rng, dim, spread=5)
    dynamics = SimpleCircularDynamics(pose=pose, radius=radius)
    loc = rng.normal(size=dim) * radius * rng.choice([0.3, 1, 3])
    if LA.norm(loc[:2]) < 0.05 * radius:
        raise Discard()
    position = pose.transform_position_from_relative(loc)
    dt = radius * 0.02
    for _ in range(1500):
        position = position + dt * dynamics.evaluate(position)
    loc = pose.transform_position_to_relative(position)
    ctx.state("conv", loc)
    close(LA.norm(loc[:2]), radius, 0.08 * radius, "motion converges to the limit cycle", local=loc, radius=radius)
    if dim == 3:
        close(loc[2], 0, 0.05 * radius, "motion converges to the plane of the limit cycle", local=loc)
    ctx.count("converged")


@check.sub(quick=4000, need=("on-circle", "inside", "outside", "center", "moved", "rotated"))
def circular_rotation(rng, ctx):
    radius = float(rng.choice([1.0, 2.0, 10.0 ** rng.uniform(-2, 2)]))
    speed = float(rng.choice([1.0, 2.0, 10.0 ** rng.uniform(-2, 2)]))
    sign = int(rng.choice([1, -1]))
    matrix = gen.rotation2d(rng.uniform(-np.pi, np.pi)) if rng.uniform() < 0.5 else None
    center = rng.uniform(-5, 5, size=2) if rng.uniform() < 0.5 else np.zeros(2)
    ctx.count("moved", int(LA.norm(center) > 0))
    ctx.count("rotated", int(matrix is not None))
    outer, inner = rng.choice([1.0, 12.0, 6.0, 0.2], size=2)
    dynamics = CircularRotationDynamics(
        radius=radius,
        constant_velocity=speed,
        outside_approaching_factor=outer,
        inside_approaching_factor=inner,
        direction=sign,
        pose=Pose(center) if LA.norm(center) or rng.uniform() < 0.5 else None,
        base_matrix=matrix,
    )
    close(dynamics.evaluate(center.copy()), np.zeros(2), 0, "zero velocity at the center of the rotation")
    ctx.count("center")
    loc, rr = _local_probe(rng, radius, 2)
    weight = dynamics.get_rotation_weight(loc)
    require(0 < weight < 2, "rotation weight is in ]0, 2[", weight=weight, local=loc)
    further = dynamics.get_rotation_weight(loc * rng.uniform(1, 3))
    require(further >= weight - 1e-12, "rotation weight grows with the distance to the center", weight=weight, further=further)
    if abs(rr / radius - 1) < 1e-9:
        close(weight, 1, 1e-6, "rotation weight is one on the radius")

    position = loc + center
    if LA.norm(center) and LA.norm(loc) < 1e-3:
        raise Discard()
    vel = dynamics.evaluate(position)
    finite(vel, "circular velocity finite")
    ctx.state("rot", radius, sign, loc, center)
    close(LA.norm(vel), speed, 1e-6 * speed, "speed of the circular rotation is constant", local=loc)
    # rotation of the base turns both, position and velocity, i.e. a circle looks the same from all sides
    radial = loc / rr
    tangent = np.array([-radial[1], radial[0]])
    out, turn = vel @ radial / speed, vel @ tangent / speed
    if 0.02 < weight < 1.98:
        require(turn * sign > 0, "sense of the rotation", local=loc, direction=sign, weight=weight)
    if abs(rr / radius - 1) < 1e-9:
        close(out, 0, 1e-5, "motion on the circle is tangential", local=loc)
        ctx.count("on-circle")
    elif rr < radius * 0.99:
        require(out > 0, "motion inside of the circle is outward", local=loc)
        ctx.count("inside")
    elif rr > radius * 1.009:
        require(out < 0, "motion outside of the circle is inward", local=loc)
        ctx.count("outside")
    close(out, np.cos(weight * np.pi / 2), 1e-5, "velocity is the radial direction turned by the rotation weight", weight=weight)
    # the same motion at any scale
    factor = 10.0 ** rng.uniform(-1, 1)
    larger = CircularRotationDynamics(
        radius=radius * factor,
        constant_velocity=speed,
        outside_approaching_factor=outer,
        inside_approaching_factor=inner,
        direction=sign,
        pose=Pose(center),
        base_matrix=matrix,
    )
    close(larger.evaluate(center + loc * factor), vel, 1e-5 * speed, "the motion around a larger circle is the same", factor=factor, radius=radius, local=loc)


@check.sub(quick=600, need=("full", "partial", "none"))
def moving_base(rng, ctx):
    dim = int(rng.choice([2, 3]))
    main = SimpleCircularDynamics(pose=world.pose(rng, dim, spread=3), radius=float(rng.uniform(0.5, 2)))
    velocity = rng.normal(size=dim)
    radius, freq = float(rng.uniform(0.5, 3)), float(rng.choice([10.0, 100.0]))
    kwargs = {"influence_radius": radius, "frequency": freq}
    if rng.uniform() < 0.3:
        radius, freq, kwargs = 2.0, 100.0, {}
    dynamics = DynamicDynamics(main, ConstantValue(velocity=velocity), **kwargs)
    for _ in range(5):
        base = np.array(dynamics.position)
        ratio = float(rng.choice([0.0, 0.5, 0.999, 1.5, 1.999, 2.001, 4.0, rng.uniform(0, 3)]))
        position = base + gen.unit(rng, dim) * ratio * radius
        before = main.evaluate(position)
        close(dynamics.evaluate(position), before, 0, "moving dynamics evaluate the main dynamics")
        close(dynamics.position, base, 0, "evaluation does not move the base")
        dynamics.update_base(position)
        weight = min(1.0, max(0.0, 2 - ratio))
        close(dynamics.position, base + velocity * weight / freq, 1e-9 * (1 + LA.norm(base)),
              "base moves with its own dynamics, less with increasing distance", ratio=ratio)
        close(main.pose.position, dynamics.position, 0, "the base is the one of the main dynamics")
        ctx.count("full" if ratio < 1 else "partial" if ratio < 2 else "none")
        ctx.state("base", base, ratio)


@check.sub(quick=3000, need=("on-cylinder", "inside", "outside", "axis", "attractor", "vanishing"))
def spiral(rng, ctx):
    center = rng.uniform(-5, 5, size=3) * rng.choice([0, 1, 1])
    direction = gen.unit(rng, 3)
    radius = float(rng.choice([1.0, rng.uniform(0.1, 4)]))
    speed = float(rng.choice([1.0, 10.0 ** rng.uniform(-2, 2)]))
    dynamics = SpiralingDynamics3D.create_from_direction(center, direction, radius=radius, speed=speed)
    perp = gen.perpendicular(rng, direction)
    rr = radius * float(rng.choice([0, 1.0, rng.uniform(0.05, 0.98), rng.uniform(1.02, 10)]))
    position = center + direction * rng.uniform(-10, 10) + rr * perp
    vel = dynamics.evaluate(position)
    finite(vel, "spiral velocity finite")
    ctx.state("spiral", center, direction, position)
    close(LA.norm(vel), speed, 1e-9 * speed, "speed of the spiral is constant")
    along = vel @ direction / speed
    require(along > 0.5, "spiral advances along its direction", along=along, position=position)
    if rr == 0:
        require(along > 1 - 1e-6, "spiral moves straight on its axis", along=along)
        ctx.count("axis")
    else:
        out, turn = vel @ perp / speed, vel @ np.cross(direction, perp) / speed
        if rr > radius / 3 * 1.01:
            close(along, np.sqrt(0.5), 1e-6, "spiral advances as fast as it turns", along=along)
        if rr == radius:
            close(out, 0, 1e-3, "spiral stays on the cylinder", out=out, radius=radius)
            ctx.count("on-cylinder")
        elif rr < radius:
            require(out > 0, "spiral inside of the cylinder widens", out=out)
            ctx.count("inside")
        else:
            require(out < 0, "spiral outside of the cylinder narrows", out=out)
            ctx.count("outside")
        require(abs(turn) > 0, "spiral turns around its axis")
    shift = rng.uniform(-5, 5, size=3)
    moved = SpiralingDynamics3D.create_from_direction(center + shift, direction, radius=radius, speed=speed)
    if rr != radius:
        close(moved.evaluate(position + shift), vel, 1e-5 * speed, "spiral moves with its center")
    stretch = float(rng.choice([0.2, 3.0]))
    stretched = SpiralingDynamics3D.create_from_direction(center, stretch * direction, radius=radius, speed=speed).evaluate(position)
    close(LA.norm(stretched), speed, 1e-9 * speed, "speed of the spiral is constant for a direction of any length", stretch=stretch)
    require((stretched @ direction / speed - along) * (stretch - 1) >= -1e-9, "a longer direction gives a faster advance", along=along)
    close(dynamics.evaluate_convergence_around_obstacle(position, None), direction, 1e-12, "convergence direction of the spiral is its axis")

    attr = SpiralingAttractorDynamics3D.create_from_direction(center, direction, radius=radius, speed=speed)
    close(attr.attractor_position, center, 0, "attractor of the spiral")
    if rng.uniform() < 0.2:
        attr.attractor_position = np.zeros(3)
        vel = attr.evaluate(np.zeros(3))
        close(vel, np.zeros(3), 1e-12, "spiral rests at the attractor")
        ctx.count("vanishing")
        return
    position = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 1)
    vel = attr.evaluate(position)
    finite(vel, "spiral velocity finite")
    close(LA.norm(vel), speed, 1e-9 * speed, "speed of the spiral is constant")
    # the height is not influenced by the rotation
    if abs(center[1] - position[1]) > 1e-6:
        require((center[1] - position[1]) * vel[1] > 0, "attracting spiral approaches the height of the attractor")
    # Same motion after a turn around the vertical axis
    turn = gen.rotation2d(rng.uniform(-np.pi, np.pi))
    around = np.eye(3)
    around[np.ix_([0, 2], [0, 2])] = turn
    moved = SpiralingAttractorDynamics3D.create_from_direction(around @ center, direction, radius=radius, speed=speed)
    if abs(LA.norm(position[[0, 2]]) - radius) > 1e-3 * radius:
        close(moved.evaluate(around @ position), around @ vel, 1e-5 * speed, "attracting spiral is symmetric around its vertical axis")
    ctx.count("attractor")


@check.sub(quick=3000, need=("attractor", "near", "far", "deviated"))
def wavy_attractor(rng, ctx):
    attractor = rng.uniform(-5, 5, size=2)
    stretch = float(rng.choice([1, rng.uniform(0.1, 8)]))
    maximum = float(rng.choice([np.pi * 0.3, rng.uniform(0, np.pi / 2)]))
    vmax = float(rng.choice([1.0, rng.uniform(0.2, 3)]))
    dynamics = WavyLinearDynamics(attractor, distance_strech_factor=stretch, maximum_deviation=maximum, maximum_velocity=vmax)
    close(dynamics.evaluate(attractor.copy()), np.zeros(2), 1e-12, "zero velocity at the attractor")
    ctx.count("attractor")
    dist = 10.0 ** rng.uniform(-3, 2)
    position = attractor + gen.unit(rng, 2) * dist
    vel = dynamics.evaluate(position)
    linear = LinearSystem(attractor_position=attractor, maximum_velocity=vmax).evaluate(position)
    ctx.state("wavy", position, attractor)
    finite(vel, "velocity finite")
    close(LA.norm(vel), LA.norm(linear), 1e-9 * (1 + vmax), "the wave changes the direction, not the speed")
    cosine = np.clip(vel @ linear / LA.norm(linear) ** 2, -1, 1)
    require(np.arccos(cosine) <= maximum + 1e-6, "deviation from the attractor is bounded", angle=np.arccos(cosine), maximum=maximum)
    if maximum < np.pi / 2 - 1e-3:
        require(vel @ (attractor - position) > 0, "motion approaches the attractor")
    # depends on the distance only
    turn = gen.rotation2d(rng.uniform(-np.pi, np.pi))
    close(dynamics.evaluate(attractor + turn @ (position - attractor)), turn @ vel, 1e-6 * (1 + vmax), "wave is rotationally symmetric")
    ctx.count("near" if dist < 1 else "far")
    ctx.count("deviated", int(cosine < 0.99))


def _segment_distance(start, end, position):
    tt = np.clip((position - start) @ (end - start) / ((end - start) @ (end - start)), 0, 1)
    return LA.norm(start + tt * (end - start) - position)


@check.sub(quick=3000, need=("on-line", "beside"))
def segment(rng, ctx):
    start, end = rng.uniform(-5, 5, size=2), rng.uniform(-5, 5, size=2)
    if LA.norm(start - end) < 0.05:
        raise Discard()
    seg = DynamicsSegment(start.copy(), end.copy())
    axis = (end - start) / LA.norm(end - start)
    if rng.uniform() < 0.3:
        position = start + axis * rng.uniform(-10, 10)
    else:
        position = rng.uniform(-10, 10, size=2)
    dist = seg.get_distance(position)
    close(dist, _segment_distance(start, end, position), 1e-9, "distance to the segment", position=position, start=start, end=end)
    vel = seg.evaluate(position)
    ctx.state("segment", start, end, position)
    close(LA.norm(vel), 1, 1e-9, "direction of the segment is normalised")
    require(vel @ axis > 0, "segment is followed from start to end")
    offset = (position - start) - axis * ((position - start) @ axis)
    if LA.norm(offset) < 1e-9:
        close(vel, axis, 1e-6, "motion on the segment is along the segment")
        ctx.count("on-line")
    else:
        require(vel @ offset < 0, "motion beside the segment is towards it")
        ctx.count("beside")
        nearer = seg.evaluate(position - offset * 0.5)
        require(nearer @ axis >= vel @ axis - 1e-12, "the nearer to the segment, the straighter the motion")


def _turn(start, end):
    """Signed angle in the plane."""
    return float(np.arctan2(start[0] * end[1] - start[1] * end[0], start @ end))


@check.sub(quick=500, need=("on-segment", "attractor", "free", "behind", "slow", "beyond", "wound"))
def path_following(rng, ctx):
    points = [rng.uniform(-3, 3, size=2)]
    heading = rng.uniform(-np.pi, np.pi)
    for _ in range(int(rng.integers(1, 5))):
        points.append(points[-1] + rng.uniform(1.5, 4) * np.array([np.cos(heading), np.sin(heading)]))
        heading += rng.uniform(-2.2, 2.2)
    margin = float(rng.choice([0.1, 0.5, rng.uniform(0, 0.6)]))
    dynamics = create_segment_from_points([pp.copy() for pp in points], margin=margin)
    require(dynamics.n_segments == len(points) - 1, "one segment for each two consecutive points")
    axes = [(bb - aa) / LA.norm(bb - aa) for aa, bb in zip(points[:-1], points[1:])]
    for seg, aa, bb, axis in zip(dynamics.segments, points[:-1], points[1:], axes):
        close(seg.start, aa + margin * axis, 1e-9, "segment starts after the margin")
        close(seg.end, bb - margin * axis, 1e-9, "segment ends before the margin")
    attractor = points[-1] - margin * axes[-1]
    close(dynamics.attractor_position, attractor, 1e-9, "attractor is the end of the last segment")
    close(dynamics.evaluate(np.array(dynamics.attractor_position)), np.zeros(2), 1e-12, "zero velocity at the attractor")
    ctx.count("attractor")

    kind = rng.choice(["on-segment", "free", "behind"])
    if kind == "on-segment":
        ind = int(rng.integers(len(axes)))
        # exactly representable points of a segment: its ends
        position = np.array(dynamics.segments[ind].start)
    elif kind == "behind":
        position = attractor + gen.rotation2d(rng.uniform(-0.2, 0.2)) @ axes[-1] * rng.uniform(0.2, 6)
    else:
        position = rng.uniform(-6, 6, size=2)
    if LA.norm(position - attractor) < 1e-6:
        raise Discard()
    weights = dynamics.get_weights(position)
    require(len(weights) == len(axes) + 1, "one weight for each segment and the attractor")
    require(np.all(weights >= 0), "weights of the segments are nonnegative", weights=weights)
    close(np.sum(weights), 1, 1e-9, "weights of the segments sum to one", weights=weights)
    near = np.argsort([_segment_distance(ss.start, ss.end, position) for ss in dynamics.segments])
    for aa, bb in zip(near[:-1], near[1:]):
        require(weights[aa] >= weights[bb] - 1e-9, "the nearer the segment the higher the weight", weights=weights)
    beyond = attractor + axes[-1] * rng.uniform(0.1, 5)
    dists = [_segment_distance(ss.start, ss.end, beyond) for ss in dynamics.segments]
    if min(dists) > 1e-3:
        close(dynamics.get_weights(beyond)[-1], 1, 1e-6, "straight to the attractor from beyond the end of the path", position=beyond)
        ctx.count("beyond")
    vmax, slowdown = 1.0, 1.0
    if rng.uniform() < 0.5:
        vmax, slowdown = float(10.0 ** rng.uniform(-1, 1)), float(rng.uniform(0.2, 5))
        dynamics.maximum_velocity, dynamics.slowdown_distance = vmax, slowdown
    velocity = dynamics.evaluate(position)
    finite(velocity, "velocity finite", position=position)
    ctx.state("path", len(axes), position)
    speed = vmax * min(1.0, LA.norm(position - attractor) / slowdown)
    close(LA.norm(velocity), speed, 1e-6 * max(1, vmax), "speed of the path following", position=position)
    ctx.count("slow", int(speed < vmax))
    ctx.count(str(kind))
    if kind == "on-segment":
        # no other segment is at zero distance
        dists = [_segment_distance(ss.start, ss.end, position) for ss in dynamics.segments]
        if sum(dd < 1e-3 for dd in dists) == 1:
            close(weights[ind], 1, 1e-6, "full weight on the segment", weights=weights)
            cosine = velocity @ axes[ind] / LA.norm(velocity)
            require(cosine > 1 - 1e-6, "motion on a segment follows the segment", velocity=velocity, axis=axes[ind], position=position)
    if LA.norm(velocity) > 1e-6:
        # The directions are averaged along the path, i.e., each relative to the following one
        heads = [ss.evaluate(position) for ss in dynamics.segments]
        to_attr = (attractor - position) / LA.norm(attractor - position)
        turns, last, clear = [], to_attr, True
        total = 0.0
        for axis, head in zip(axes[::-1], heads[::-1]):
            step, own = _turn(last, axis), _turn(axis, head)
            clear = clear and max(abs(step), abs(own)) < np.pi - 1e-3
            total += step
            turns.append(total + own)
            last = axis
        if clear:
            mean = np.dot(weights[:-1], turns[::-1])
            want = gen.rotation2d(mean) @ to_attr
            close(velocity / LA.norm(velocity), want, 1e-5, "mean direction is averaged along the path", weights=weights, turns=turns)
            ctx.count("averaged")
            ctx.count("wound", max(np.abs(turns)) > np.pi)
    # the same motion in a moved frame
    turn, shift = gen.rotation2d(rng.uniform(-np.pi, np.pi)), rng.uniform(-3, 3, size=2)
    other = create_segment_from_points([turn @ pp + shift for pp in points], margin=margin)
    other.maximum_velocity, other.slowdown_distance = vmax, slowdown
    got = other.evaluate(turn @ position + shift)
    if kind == "free":
        heads = [ss.evaluate(position) for ss in dynamics.segments]
        to_attr = (attractor - position) / LA.norm(attractor - position)
        if to_attr @ axes[-1] > -0.99:
            close(got, turn @ velocity, 1e-5 * max(1, vmax), "path following moves with the path", heads=heads)


def _obstacle_system(rng, dim):
    obs = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=3))
    center = np.array(obs.center_position)
    attractor = center + gen.unit(rng, dim) * rng.uniform(0.5, 12)
    axis = (attractor - center) / LA.norm(attractor - center)
    angle = float(rng.choice([0.0, np.pi / 2, rng.uniform(0, 3.0), -rng.uniform(0, 3.0)]))
    reference = gen.rotated_by(rng, axis, angle) * 10.0 ** rng.uniform(-1, 1)
    return obs, center, attractor, axis, abs(angle), reference


@check.sub(quick=3000, need=("attractor", "center", "far", "near", "perpendicular", "opposite", "at-attractor", "arrival", "fading", "core in 3D"))
def locally_rotated(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    obs, center, attractor, axis, angle, reference = _obstacle_system(rng, dim)
    vmax = LA.norm(reference)
    if rng.uniform() < 0.1:
        dynamics = LocallyRotatedFromObtacle(obs, center.copy(), reference)
        position = center + gen.unit(rng, dim) * 10.0 ** rng.uniform(-2, 1)
        vel = dynamics.evaluate(position)
        dist = LA.norm(center - position)
        close(vel, (center - position) / dist * min(dist, vmax), 1e-9, "no deviation with the obstacle at the attractor")
        close(dynamics.evaluate(center.copy()), np.zeros(dim), 1e-12, "zero velocity at the attractor")
        ctx.count("at-attractor")
        return
    limits = {} if rng.uniform() < 0.5 else {"min_gamma": float(rng.uniform(1, 2)), "max_gamma": float(rng.uniform(3, 20))}
    max_gamma = limits.get("max_gamma", 10)
    dynamics = LocallyRotatedFromObtacle(obs, attractor.copy(), reference.copy(), **limits)
    close(dynamics.evaluate(attractor.copy()), np.zeros(dim), 1e-12, "zero velocity at the attractor")
    ctx.count("attractor")
    dist = LA.norm(attractor - center)
    vel = dynamics.evaluate(center.copy())
    close(vel, reference / vmax * min(dist, vmax), 1e-6 * max(1, vmax), "velocity at the obstacle center is the reference velocity", got=vel)
    ctx.count("center")
    kind = rng.choice(["near", "far", "perpendicular", "opposite"])
    if kind == "near":
        position = center + gen.unit(rng, dim) * rng.uniform(0.01, 6)
    elif kind == "far":
        position = center + gen.unit(rng, dim) * rng.uniform(20, 300)
    elif kind == "perpendicular":
        position = attractor + gen.perpendicular(rng, axis) * rng.uniform(0.2, 5)
    else:
        position = attractor + axis * rng.uniform(0.1, 5)
    if LA.norm(attractor - position) < 1e-6:
        raise Discard()
    vel = dynamics.evaluate(position)
    finite(vel, "velocity finite", position=position)
    ctx.state("local", center, attractor, position)
    dist = LA.norm(attractor - position)
    to_attr = (attractor - position) / dist
    close(LA.norm(vel), min(dist, vmax), 1e-6 * max(1, vmax), "speed is limited by the distance to the attractor and the reference")
    gamma = obs.get_gamma(position, in_global_frame=True)
    cosine = np.clip(vel @ to_attr / LA.norm(vel), -1, 1)
    require(np.arccos(cosine) <= angle + 1e-3, "velocity is never rotated further than the reference", turned=np.arccos(cosine), angle=angle)
    # Within the core the motion turns relative to the attractor by the angle of the reference
    inner = center + gen.unit(rng, dim) * rng.uniform(0.01, 1)
    inner_dir = (attractor - inner) / max(LA.norm(attractor - inner), 1e-12)
    if obs.get_gamma(inner, in_global_frame=True) <= limits.get("min_gamma", 1) and inner_dir @ axis > -0.9 and angle < 3.0:
        inner_vel = dynamics.evaluate(inner)
        turned = np.arccos(np.clip(inner_vel @ inner_dir / LA.norm(inner_vel), -1, 1))
        close(turned, angle, 1e-4, "within the obstacle the motion is turned like the reference", position=inner)
        ctx.count("core")
        ctx.count("core in 3D", dim > 2 and inner_dir @ axis < 0.99)
    if gamma > max_gamma:
        require(cosine > 1 - 1e-9, "straight motion to the attractor far from the obstacle", gamma=gamma)
    if to_attr @ axis < -0.999 and gamma > 1.2 * limits.get("min_gamma", 1):
        require(cosine > 1 - 1e-3, "straight motion opposite of the obstacle", position=position)
        ctx.count("opposite")
    elif abs(to_attr @ axis) < 1e-6:
        # no jump at the plane through the attractor
        moved = dynamics.evaluate(position - axis * 1e-6 * dist)
        close(vel, moved, 1e-3 * max(1, vmax), "velocity is continuous beside the attractor", position=position)
        ctx.count("perpendicular")
    ctx.count(str(kind) if kind in ("near", "far") else "other")

    min_gamma = limits.get("min_gamma", 1)
    # the deviation vanishes towards the attractor (if this is outside of the core)
    if obs.get_gamma(attractor, in_global_frame=True) > min_gamma * 1.1:
        position = attractor + gen.unit(rng, dim) * 1e-7
        velocity = dynamics.evaluate(position)
        close(velocity / LA.norm(velocity), (attractor - position) / LA.norm(attractor - position), 1e-3, "straight motion close to the attractor", position=position)
        ctx.count("arrival")
    # no jump where the deviation starts to fade
    outward = gen.unit(rng, dim)
    lower, upper = 0.0, 1e3
    for _ in range(60):
        middle = 0.5 * (lower + upper)
        if obs.get_gamma(center + middle * outward, in_global_frame=True) < min_gamma:
            lower = middle
        else:
            upper = middle
    before, after = center + (upper - 1e-7) * outward, center + (upper + 1e-7) * outward
    if LA.norm(attractor - after) > 1e-2 and (attractor - after) @ axis > -0.9 * LA.norm(attractor - after):
        close(dynamics.evaluate(before), dynamics.evaluate(after), 1e-4 * max(1, vmax), "velocity is continuous where the deviation starts to fade", position=after)
        ctx.count("fading")


class _Shear:
    attractor_position = None

    def __init__(self, matrix, offset):
        self.matrix, self.offset = matrix, offset

    def evaluate(self, position):
        return self.matrix @ position + self.offset


@check.sub(quick=1500, need=("attractor", "default", "free", "zero", "constant", "own"))
def sequence_of_dynamics(rng, ctx):
    dim = int(rng.choice([2, 3, 4]))
    position = rng.uniform(-5, 5, size=dim)
    kind = rng.choice(["attractor", "default", "free", "zero", "constant", "own"])
    attractor = rng.uniform(-5, 5, size=dim)
    free = _Shear(rng.normal(size=(dim, dim)), rng.normal(size=dim))
    if kind == "constant":
        value = gen.unit(rng, dim) * gen.magnitude(rng)
        dynamics = ConstantValueWithSequence(value.copy())
        close(dynamics.evaluate(position), value, 0, "constant dynamics return their value")
        sequence = evaluate_dynamics_sequence(position, dynamics)
        first, final = value, value
    elif kind == "own":
        class Own(_Shear):
            def evaluate_dynamics_sequence(self, position):
                return ("own", tuple(position))

        got = evaluate_dynamics_sequence(position, Own(free.matrix, free.offset))
        require(got == ("own", tuple(position)), "dynamics with their own sequence are asked for it")
        ctx.count("own")
        return
    elif kind == "default":
        linear = LinearSystem(attractor_position=attractor)
        sequence = evaluate_dynamics_sequence(position, free, default_dynamics=linear)
        first, final = linear.evaluate(position), free.evaluate(position)
    elif kind == "attractor":
        free.attractor_position = attractor
        sequence = evaluate_dynamics_sequence(position, free)
        first, final = attractor - position, free.evaluate(position)
    elif kind == "free":
        class NoAttractor:
            evaluate = staticmethod(free.evaluate)

        sequence = evaluate_dynamics_sequence(position, NoAttractor())
        first = final = free.evaluate(position)
    else:
        require(evaluate_dynamics_sequence(attractor, LinearSystem(attractor_position=attractor)) is None,
                "no sequence without direction")
        free.attractor_position = attractor
        require(evaluate_dynamics_sequence(attractor, free) is None, "no sequence without direction")
        ctx.count("zero")
        return
    ctx.count(str(kind))
    ctx.state("seq", str(kind), position)
    first, final = first / LA.norm(first), final / LA.norm(final)
    if first @ final < -0.999:
        raise Discard()
    require(sequence is not None, "sequence exists where the velocity is nonzero")
    close(sequence.basis_array[:, 0, 0], first, 1e-6, "sequence starts at the convergence direction")
    close(sequence.get_end_vector(), final, 1e-6, "sequence ends at the direction of the dynamics")


@check.sub(quick=800, need=("inside", "order"))
def obstacle_rotated(rng, ctx):
    dim = 2
    placed = []
    for _ in range(int(rng.integers(1, 4))):
        placed.append(world.obstacle(rng, dim, at=world.pose(rng, dim, spread=8)))
    dynamics = _Shear(rng.normal(size=(dim, dim)), rng.normal(size=dim))

    def field(obstacles):
        container = ObstacleContainer()
        for obs in obstacles:
            container.append(obs)
        return ObstacleRotatedDynamics(container, dynamics)

    pick = placed[int(rng.integers(len(placed)))]
    position = np.array(pick.center_position) + 0.01 * gen.unit(rng, dim) * rng.choice([0, 1, 10])
    inside = [obs for obs in placed if obs.get_gamma(position, in_global_frame=True) <= 1]
    if LA.norm(position) < 0.1 or any(LA.norm(obs.center_position) < 0.1 for obs in placed):
        raise Discard()
    for obs in placed:
        one = dynamics.evaluate(np.array(obs.center_position))
        zero = -np.array(obs.center_position)
        if one @ zero / LA.norm(one) / LA.norm(zero) < -0.99:
            raise Discard()
    ctx.state("obsrot", position, len(placed))
    if len(inside) == 1:
        got = field(placed).evaluate(position.copy())
        finite(got, "velocity finite inside of the obstacle", position=position)
        close(got, field(inside).evaluate(position.copy()), 1e-6, "inside of an obstacle, only this obstacle has an influence")
        ctx.count("inside")
    elsewhere = rng.uniform(-10, 10, size=dim)
    vel = field(placed).evaluate(elsewhere.copy())
    if not np.all(np.isfinite(vel)):
        raise Discard()
    close(field(placed[::-1]).evaluate(elsewhere.copy()), vel, 1e-6, "the order of the obstacles has no influence")
    used = field(placed)
    for _ in range(3):
        used.evaluate(rng.uniform(-10, 10, size=dim))
    close(used.evaluate(elsewhere.copy()), vel, 1e-9, "previous evaluations have no influence")
    ctx.count("order")
