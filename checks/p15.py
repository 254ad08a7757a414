"""P15: the projection around an obstacle is consistent and its influence bounded."""
import numpy as np
from numpy import linalg as LA
from vartools.dynamical_systems import LinearSystem

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, finite, fingerprint, require

from nonlinear_avoidance.dynamics.projected_rotation_dynamics import ProjectedRotationDynamics
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics

check = Check(
    "P15",
    rule="random ellipses and cuboids of any pose in 2D/3D with an attractor outside of them; "
    "positions all around (close to the attractor, opposite of it, on the surface, far away); "
    "non-trivial: distinct position relative to obstacle and attractor",
    assumptions=["the reference point is the center for evaluations of the inflation in the global frame"],
)


class _Turned:
    """(Nonlinear) straight-stable dynamics, turned by a distance-dependent angle."""

    def __init__(self, rng, attractor):
        self.attractor_position = attractor
        dim = attractor.shape[0]
        self.basis = gen.rotation_matrix(rng, dim)
        self.angle, self.freq = rng.uniform(-1.2, 1.2), rng.uniform(0, 0.5)
        self.speed = float(rng.uniform(0.3, 3))

    def evaluate(self, position):
        delta = self.attractor_position - position
        dist = LA.norm(delta)
        if not dist:
            return np.zeros(delta.shape)
        turn = np.eye(delta.shape[0])
        turn[:2, :2] = gen.rotation2d(self.angle * np.cos(dist * self.freq))
        vel = self.basis @ turn @ self.basis.T @ delta
        return vel / dist * min(self.speed, dist)


def _setup(rng, boundary=False):
    dim = int(rng.choice([2, 2, 3]))
    obstacle = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=4))
    direction = gen.unit(rng, dim)
    reach = obstacle.get_local_radius(direction, in_global_frame=False)
    attractor = obstacle.pose.transform_position_from_relative(
        direction * (reach + float(rng.choice([0.1, 0.5, 2.0, 8.0])))
    )
    initial = LinearSystem(attractor_position=attractor) if rng.uniform() < 0.3 else _Turned(rng, attractor)
    dynamics = ProjectedRotationDynamics(
        attractor_position=attractor, obstacle=obstacle, initial_dynamics=initial
    )
    return dim, obstacle, attractor, initial, dynamics


def _position(rng, obstacle, attractor):
    """Anywhere outside of the obstacle."""
    dim = attractor.shape[0]
    kind = rng.integers(5)
    if kind == 0:
        return world.surface_point(rng, obstacle, offset=float(10.0 ** rng.uniform(-6, -1)))
    if kind == 1:
        return attractor + gen.unit(rng, dim) * 10.0 ** rng.uniform(-4, -1)
    if kind == 2:  # Close to the opposite
        away = attractor - obstacle.global_reference_point
        return attractor + gen.rotated_by(rng, away, 10.0 ** rng.uniform(-4, -0.5)) * rng.uniform(0.3, 5)
    if kind == 3:
        return obstacle.center_position + gen.unit(rng, dim) * 10.0 ** rng.uniform(1, 2.5)
    return rng.uniform(-8, 8, size=dim)


@check.sub(quick=2500)
def inflation(rng, ctx):
    """Deflating and inflating the obstacle are inverse of each other."""
    dim, obstacle, attractor, _, dyn = _setup(rng)
    position = gen.frozen(_position(rng, obstacle, attractor))
    local = gen.frozen(obstacle.pose.transform_position_to_relative(position))
    radius = obstacle.get_local_radius(local, in_global_frame=False)
    if LA.norm(local) < radius + 1e-9:
        inner = dyn._get_position_after_deflating_obstacle(local, in_obstacle_frame=True)
        if LA.norm(local) < radius:
            close(inner, np.zeros(dim), 1e-12, "obstacle is shrunk to its center")
            ctx.count("inside")
        raise Discard()
    shrunk = dyn._get_position_after_deflating_obstacle(local, in_obstacle_frame=True)
    close(LA.norm(shrunk), LA.norm(local) - radius, 1e-9 * (1 + LA.norm(local)), "distance to the center is reduced by the radius")
    if LA.norm(shrunk) > 1e-5:
        close(shrunk / LA.norm(shrunk), local / LA.norm(local), 1e-6, "shrinking is along the ray to the center")
        back = dyn._get_position_after_inflating_obstacle(shrunk, in_obstacle_frame=True)
        close(back, local, 1e-8 * (1 + LA.norm(local)), "inflating restores the deflated position")
        ctx.count("restored")
    other = gen.unit(rng, dim) * 10.0 ** rng.uniform(-3, 2)
    grown = dyn._get_position_after_inflating_obstacle(gen.frozen(other), in_obstacle_frame=True)
    require(obstacle.get_gamma(grown, in_global_frame=False) >= 1 - 1e-9, "inflated position is outside of the obstacle")
    close(dyn._get_position_after_deflating_obstacle(grown, in_obstacle_frame=True), other, 1e-8 * (1 + LA.norm(other)),
          "deflating restores the inflated position")
    center = dyn._get_position_after_inflating_obstacle(np.zeros(dim), in_obstacle_frame=True)
    require(obstacle.get_gamma(center, in_global_frame=False) >= 1 - 1e-9, "inflated center is outside of the obstacle")
    # Partially
    part = float(rng.uniform(0, 1))
    if LA.norm(local) > radius + 1e-3:
        shrunk = dyn._get_position_after_deflating_obstacle(local, in_obstacle_frame=True, deflation_weight=part)
        close(LA.norm(shrunk), LA.norm(local) - part * radius, 1e-9 * (1 + LA.norm(local)), "distance is reduced by a part of the radius")
        back = dyn._get_position_after_inflating_obstacle(gen.frozen(shrunk), in_obstacle_frame=True, deflation_weight=part)
        close(back, local, 1e-8 * (1 + LA.norm(local)), "inflating restores the partially deflated position")
    ctx.state(local, other)


@check.sub(quick=2500, need=("folded", "global", "power"))
def folding(rng, ctx):
    """The plane around attractor and obstacle is unfolded without loss."""
    dim, obstacle, attractor, _, dyn = _setup(rng)
    position = _position(rng, obstacle, attractor)
    local_frame = bool(rng.integers(2))
    if local_frame:
        position = obstacle.pose.transform_position_to_relative(position)
        attr, center = obstacle.pose.transform_position_to_relative(attractor), np.zeros(dim)
    else:
        ctx.count("global")
        attr, center = attractor, np.array(obstacle.global_reference_point)
    to_obs, to_pos = center - attr, position - attr
    angle = gen.angle_between(to_obs, to_pos)
    if np.pi - angle < 1e-3 or LA.norm(to_pos) < 1e-6:
        raise Discard()
    position, attr = gen.frozen(position), gen.frozen(attr)
    if rng.integers(3) == 0 and angle > 0.05:
        dyn.dotprod_projection_power = float(rng.choice([1, 1.5]))
        ctx.count("power")
    folded = dyn._get_folded_position_opposite_kernel_point(position, attr, in_obstacle_frame=local_frame)
    finite(folded, "folded position is finite")
    back = dyn._get_unfolded_position_opposite_kernel_point(gen.frozen(folded), attr, in_obstacle_frame=local_frame)
    scale = 1 + LA.norm(position) + LA.norm(to_pos) / max(np.pi - angle, 1e-3)
    close(back, position, 1e-5 * scale, "unfolding restores the folded position", local_frame=local_frame, angle=angle)
    ctx.count("folded")
    # The center is the fixed point
    close(dyn._get_folded_position_opposite_kernel_point(center.copy(), attr, in_obstacle_frame=local_frame), center, 1e-6 * (1 + LA.norm(center)),
          "center of the obstacle remains when folding")
    # Towards the opposite and towards the attractor it moves far away
    ctx.state(position, attr)


@check.sub(quick=500, need=("toward_attractor", "toward_opposite"))
def infinity(rng, ctx):
    """Both, attractor and the opposite half-line, are moved to infinity."""
    dim, obstacle, attractor, _, dyn = _setup(rng)
    center = np.array(obstacle.global_reference_point)
    away = attractor - center
    if rng.uniform() < 0.5:
        direction = gen.unit(rng, dim)
        if gen.angle_between(direction, away) < 0.3:
            raise Discard()
        positions = [attractor + direction * dd for dd in (1e-1, 1e-3, 1e-6, 1e-12)] + [np.array(attractor)]
        kind = "toward_attractor"
    else:
        length, side = rng.uniform(0.3, 4), gen.perpendicular(rng, away)
        unit = away / LA.norm(away)
        positions = [attractor + length * (np.cos(aa) * unit + np.sin(aa) * side) for aa in (0.3, 1e-2, 1e-4, 1e-6, 0.0)]
        kind = "toward_opposite"
    distances, weights = [], []
    for position in positions:
        projected = dyn.get_projected_position(gen.frozen(position))
        finite(projected, "projected position is finite")
        if obstacle.get_gamma(position, in_global_frame=True) <= 1:
            raise Discard()
        distances.append(LA.norm(projected - center))
        weights.append(dyn.evaluate_projected_weight(position, obstacle))
    ctx.count(kind)
    require(weights[-1] < 1e-2, "no influence of the obstacle at the attractor and opposite of it", weights=weights, kind=kind)
    require(distances[-1] > 10 * LA.norm(away), "attractor and opposite are projected far away", distances=distances, kind=kind)
    if kind == "toward_opposite":
        require(all(b >= a * (1 - 1e-6) for a, b in zip(distances[1:], distances[2:])),
                "projection moves away when approaching the opposite", distances=distances)
    ctx.state(positions[0], attractor)


@check.sub(quick=2500, need=("outside", "surface", "inside", "far"))
def weight(rng, ctx):
    dim, obstacle, attractor, initial, dyn = _setup(rng)
    kind = rng.choice(["any", "any", "surface", "inside", "far"])
    if kind == "any":
        position = _position(rng, obstacle, attractor)
    elif kind == "surface":
        position = world.surface_point(rng, obstacle, offset=1e-9)
    elif kind == "inside":
        local = gen.unit(rng, dim)
        position = obstacle.pose.transform_position_from_relative(
            local * obstacle.get_local_radius(local, in_global_frame=False) * rng.uniform(0, 0.99))
    else:
        position = obstacle.center_position + gen.unit(rng, dim) * 1e5
    position = gen.frozen(position)
    before = fingerprint([obstacle, attractor, vars(initial)])
    value = dyn.evaluate_projected_weight(position, obstacle)
    projected = dyn.get_projected_position(position)
    finite([value], "influence is finite")
    finite(projected, "projected position is finite")
    require(0 <= value <= 1, "influence is between zero and one", value=value)
    gamma = obstacle.get_gamma(position, in_global_frame=True)
    if gamma <= 1:
        close(value, 1, 1e-12, "full influence within the obstacle")
        close(projected, position, 0, "position within the obstacle is not projected")
        ctx.count("inside")
    else:
        ctx.count("outside")
        require(obstacle.get_gamma(projected, in_global_frame=True) > 1 - 1e-6, "outside remains outside of the obstacle", gamma=gamma)
        if kind == "surface":
            require(value > 0.99, "full influence on the surface", value=value)
            ctx.count("surface")
        if kind == "far":
            require(value < 0.1, "no influence far away", value=value)
            ctx.count("far")
    # Of the obstacle which is asked for, and without memory
    other = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=4))
    if other.get_gamma(attractor, in_global_frame=True) > 1:
        dyn.evaluate_projected_weight(position, other)
        close(dyn.evaluate_projected_weight(position, obstacle), value, 1e-12, "influence does not depend on the preceding evaluation")
        fresh = ProjectedRotationDynamics(attractor_position=attractor, initial_dynamics=initial)
        close(fresh.evaluate_projected_weight(position, obstacle), value, 1e-12, "influence is the one of the given obstacle")
    require(fingerprint([obstacle, attractor, vars(initial)]) == before, "evaluation does not modify obstacle, attractor and dynamics")
    ctx.state(position, value)
    ctx.sample(str(kind), gamma=gamma, weight=value)


@check.sub(quick=1500, need=("same_frame",))
def frame_independent(rng, ctx):
    """Influence and projected distance do not depend on where the scene is (same orientation)."""
    dim, obstacle, attractor, initial, dyn = _setup(rng)
    position = _position(rng, obstacle, attractor)
    if obstacle.get_gamma(position, in_global_frame=True) <= 1:
        raise Discard()
    value = dyn.evaluate_projected_weight(position, obstacle)
    import copy

    frame = world.pose(rng, dim)
    moved = copy.deepcopy(obstacle)
    moved.pose = frame.transform_pose_from_relative(obstacle.pose)
    dyn2 = ProjectedRotationDynamics(attractor_position=frame.transform_position_from_relative(attractor))
    got = dyn2.evaluate_projected_weight(frame.transform_position_from_relative(position), moved)
    angle = gen.angle_between(position - attractor, attractor - obstacle.center_position) if LA.norm(position - attractor) > 1e-3 else 0
    if angle < 1e-2:
        raise Discard()
    close(got, value, 1e-5, "influence moves along with the scene")
    ctx.count("same_frame")
    ctx.state(position, value)


@check.sub(quick=2500, need=("opposite", "attractor", "rotation"))
def transform(rng, ctx):
    """Rotation from the position to the obstacle, as seen from the attractor."""
    dim, obstacle, attractor, initial, dyn = _setup(rng)
    if rng.uniform() < 0.3:
        obstacle.set_reference_point(gen.unit(rng, dim) * 0.1, in_global_frame=False)
    center = obstacle.global_reference_point
    kind = rng.choice(["any", "any", "any", "attractor", "opposite"])
    if kind == "attractor":
        position = np.array(attractor)
    elif kind == "opposite":
        position = attractor + (attractor - center) * rng.choice([1.0, 0.5])
    else:
        position = rng.uniform(-8, 8, size=dim)
    for func in (
        lambda: dyn.evaluate_rotation_position_to_transform(position, obstacle),
        lambda: dyn.evaluate_rotation_start_to_end(position, center, attractor),
    ):
        rotation = func()
        if kind == "attractor":
            require(rotation is None, "no rotation at the attractor")
            ctx.count("attractor")
            continue
        if kind == "opposite":
            if rotation is None:
                ctx.count("opposite")
                continue
        require(rotation is not None, "rotation from the position to the obstacle")
        start, end = attractor - position, attractor - center
        start, end = start / LA.norm(start), end / LA.norm(end)
        tol = 1e-6 / max(1e-6, np.pi - gen.angle_between(start, end)) ** 0.5
        if np.pi - gen.angle_between(start, end) < 1e-5:
            continue
        close(rotation.rotate(start), end, max(1e-6, tol * 1e-2), "rotates the direction of the position to the one of the obstacle")
        close(rotation.inverse_rotate(end), start, max(1e-6, tol * 1e-2), "inverse rotation goes back to the position")
        ctx.count("rotation")
    ctx.state(position, attractor)


@check.sub(quick=2500, need=("inside", "none", "between", "sequence"))
def convergence(rng, ctx):
    """Convergence direction around the obstacle."""
    dim, obstacle, attractor, initial, dyn = _setup(rng)
    kind = rng.choice(["any", "any", "inside", "opposite", "attractor"])
    center = np.array(obstacle.global_reference_point)
    if kind == "inside":
        local = gen.unit(rng, dim)
        position = obstacle.pose.transform_position_from_relative(
            local * obstacle.get_local_radius(local, in_global_frame=False) * rng.uniform(0, 0.99))
    elif kind == "opposite":
        position = attractor + (attractor - center) * rng.choice([1.0, 0.5])
    elif kind == "attractor":
        position = np.array(attractor)
    else:
        position = _position(rng, obstacle, attractor)
    position = gen.frozen(position)
    own = initial.evaluate(position)
    reference = initial.evaluate(center)
    angle = np.pi - gen.angle_between(attractor - position, attractor - center) if kind != "attractor" else 0
    if kind == "any" and angle < 1e-3:
        raise Discard()
    got = dyn.evaluate_convergence_around_obstacle(position, obstacle)
    finite(got, "convergence velocity is finite")
    close(LA.norm(got), LA.norm(own), 1e-6 * (1 + LA.norm(own)), "convergence velocity has the speed of the initial one", kind=str(kind))
    if kind in ("opposite", "attractor"):
        close(got, own, 1e-6 + 2e-2 * LA.norm(own), "no influence at the attractor and opposite of it")
        ctx.count("none")
    elif kind == "inside":
        close(got / LA.norm(got), reference / LA.norm(reference), 1e-5, "velocity of the reference point within the obstacle")
        ctx.count("inside")
    else:
        ctx.count("between")
    sequence = evaluate_dynamics_sequence(position, initial)
    if sequence is None:
        ctx.state(position, got)
        return
    out = dyn.evaluate_convergence_sequence_around_obstacle(position, obstacle, sequence)
    if out is sequence or kind == "opposite":
        ctx.state(position, got)
        return
    start = attractor - position
    close(out.basis_array[:, 0, 0], start / LA.norm(start), 1e-6, "sequence starts at the direction to the attractor")
    close(out.get_end_vector(), reference / LA.norm(reference), 1e-5, "sequence ends at the velocity of the reference point")
    ctx.count("sequence")
    ctx.state(position, got)
