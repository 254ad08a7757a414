"""P28: the speed is bounded by, and proportional to, the one of the initial dynamics."""
import warnings

import numpy as np
from numpy import linalg as LA

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.avoidance import RotationalAvoider

check = Check(
    "P28",
    rule="velocities and (averaged) normals of any relative direction and length, gammas from within to "
    "far away; scenes with simple obstacles and trees whose dynamics are scaled over six decades; "
    "non-trivial: distinct (velocity, normal) and (position, factor)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


@check.sub(quick=4000, need=("contact pushing", "contact leaving", "leaving", "approaching", "zero velocity", "zero normal", "long"))
def scaling(rng, ctx):
    dim = gen.dim(rng)
    velocity = gen.unit(rng, dim) * (rng.choice([1.0, 1.0, 10 ** rng.uniform(-3, 3)]) if rng.integers(20) else 0.0)
    normal = gen.unit(rng, dim) * (rng.choice([1.0, rng.uniform(0, 1)]) if rng.integers(20) else 0.0)
    if rng.integers(4) == 0 and LA.norm(velocity):
        normal = -velocity / LA.norm(velocity)
    ctx.count("long", LA.norm(velocity) > 1.3)
    gammas = np.sort(np.hstack(([0.3, 1.0], 1 + 10 ** rng.uniform(-6, 4, size=6))))
    initial = float(10 ** rng.uniform(-3, 3))
    before = velocity.copy(), normal.copy()
    factors, outs = [], []
    for gamma in gammas:
        factors.append(RotationalAvoider.compute_safe_scaling(velocity=velocity, averaged_normal=normal, gamma=gamma))
        outs.append(
            RotationalAvoider.compute_safe_magnitude(rotated_velocity=velocity, initial_norm=initial, averaged_normal=normal, gamma=gamma)
        )
    close(velocity, before[0], 0, "velocity is unchanged")
    close(normal, before[1], 0, "normal is unchanged")
    factors = np.array(factors, dtype=float)
    finite(factors, "scaling is finite")
    finite(outs, "scaled velocity is finite")
    require(np.all((factors >= 0) & (factors <= 1)), "scaling is within zero and one", factors=factors)
    speed = LA.norm(velocity)
    if not speed:
        close(np.array(outs), np.zeros((len(gammas), dim)), 0, "zero velocity remains zero")
        ctx.count("zero velocity")
        return
    for factor, out in zip(factors, outs):
        close(out, velocity / speed * initial * factor, 1e-9 * initial, "velocity keeps its direction, with the scaled initial speed")
    require(np.all(np.diff(factors[gammas > 1]) >= -1e-9), "scaling increases with the distance", factors=factors)
    inward = -(velocity @ normal) / speed
    if not LA.norm(normal):
        close(factors, np.ones(len(gammas)), 0, "no scaling without normal")
        ctx.count("zero normal")
    elif inward < 0:
        close(factors, np.ones(len(gammas)), 0, "no scaling if moving away")
        ctx.count("leaving")
        ctx.count("contact leaving")
    elif inward > 2e-3:
        close(factors[gammas <= 1], np.zeros(np.sum(gammas <= 1)), 0, "stop if moving into an obstacle in contact")
        require(np.all(factors[gammas > 1] < 1), "slowed down if approaching")
        ctx.count("contact pushing")
        ctx.count("approaching")
    ctx.state(velocity, normal)


class _Scaled:
    """Initial dynamics times a constant."""

    def __init__(self, inner, factor):
        self._inner, self._factor = inner, factor
        for name in ("attractor_position", "dimension", "pose"):
            if hasattr(inner, name):
                setattr(self, name, getattr(inner, name))

    def evaluate(self, position):
        return self._factor * self._inner.evaluate(position)


def _scene(rng):
    if rng.integers(2):
        return scenes.tree_scene(rng)
    return scenes.rotational_scene(rng)


@check.sub(quick=700, need=("tree", "avoid", "evaluate", "sequence", "near", "bounded", "towards", "several towards", "away"))
def homogeneous(rng, ctx):
    scene = _scene(rng)
    for _ in range(3):
        if rng.integers(3):
            obs, offset, pos = scenes.near_position(rng, scene)
            ctx.count("near")
        else:
            pos = rng.uniform(-7, 7, size=scene.dim)
        initial = scene.dynamics.evaluate(pos)
        norm = LA.norm(initial)
        if norm < 1e-6:
            continue
        factor = float(10 ** rng.uniform(-3, 3))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            base = scene.func(pos)
            scaled = scene.with_dynamics(_Scaled(scene.dynamics, factor)).func(pos)
        finite(scaled, "velocity is finite")
        close(scaled / factor, base, 1e-6 * norm, "velocity is proportional to the initial speed", kind=scene.kind, factor=factor)
        require(LA.norm(base) <= norm * (1 + 1e-6), "avoidance does not increase the speed", kind=scene.kind)
        ctx.count("bounded")
        near = []
        if scene.kind == "avoid":
            near = [
                oo for oo in scene.flat
                if 1 <= oo.get_gamma(pos, in_global_frame=True) < scene.avoider.cut_off_gamma
            ]
        if len(near) and scene.sticky and LA.norm(base) > 1e-9 * norm:
            # The closer the obstacle which is approached the steepest, the more the motion is slowed down
            heading = base / LA.norm(base)
            approach = np.array([heading @ oo.get_normal_direction(pos, in_global_frame=True) for oo in near])
            gammas = np.array([oo.get_gamma(pos, in_global_frame=True) for oo in near])
            order = np.sort(approach)
            if order[0] < 0 and (len(near) == 1 or order[1] > order[0] + 1e-6):
                limit = 1 + order[0] / gammas[int(np.argmin(approach))]
                close(LA.norm(base), norm * limit, 1e-6 * norm, "slowed down towards the obstacle", limit=limit, gammas=gammas, approach=approach)
                ctx.count("towards", limit < 0.9)
                ctx.count("several towards", len(near) > 1)
            elif order[0] > 1e-6:
                close(LA.norm(base), norm, 1e-6 * norm, "not slowed down away from the obstacles", approach=approach)
                ctx.count("away")
        ctx.count(scene.kind)
        ctx.state(pos, np.array([factor]))
