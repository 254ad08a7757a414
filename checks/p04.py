"""P04: the influence of obstacles is a partition of (at most) one which increases with the proximity."""
import contextlib
import copy
import warnings

import numpy as np
from numpy import linalg as LA

from vt import gen, scenes, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from vartools.linalg import get_orthogonal_basis

from nonlinear_avoidance import multi_obstacle_avoider as moa
from nonlinear_avoidance.avoidance import RotationalAvoider
from nonlinear_avoidance.vector_rotation import VectorRotationTree

check = Check(
    "P04",
    rule="weight lists with ties, exact zeros and ones and values next to them; distances on, below and "
    "next to the surface, and infinite; scenes of 1-3 trees, disjoint or overlapping, with a monitor on "
    "every weighted reduction of a direction tree; non-trivial: distinct (weights, position)",
    assumptions=["obstacles, linear dynamics: stand-ins for dynamic_obstacle_avoidance / vartools"],
)


def _partition(weights, mechanism, total=None):
    finite(weights, f"{mechanism}: finite")
    require(np.all(weights >= 0), f"{mechanism}: not negative", weights=weights)
    require(np.sum(weights) <= 1 + 1e-9, f"{mechanism}: sum of at most one", weights=weights)
    if total is not None:
        close(np.sum(weights), total, 1e-9, f"{mechanism}: sum")


def _monotone(keys, weights, mechanism, tol=1e-12):
    """The larger the key, the larger the weight."""
    order = np.argsort(keys, kind="stable")
    sorted_weights = np.asarray(weights, dtype=float)[order]
    require(np.all(np.diff(sorted_weights) >= -tol), f"{mechanism}: larger influence of the closer one", keys=np.asarray(keys)[order], weights=sorted_weights)


@check.sub(quick=3000, need=("below one", "limited", "full", "several full", "list"))
def limited_sum(rng, ctx):
    size = int(rng.integers(1, 7))
    kind = int(rng.integers(4))
    weights = rng.uniform(0, 1, size=size) * (1.0 / size if kind == 0 else 1.0)
    if kind == 2:
        weights = rng.choice([0.0, 1.0, 0.5, 1 - 1e-12, 1e-12], size=size)
    if kind == 3:
        weights[rng.integers(size)] = 1.0
    argument = list(weights) if rng.integers(2) else gen.frozen(weights)
    ctx.count("list", isinstance(argument, list))
    new, total = moa.get_limited_weights_to_max_sum(argument)
    new = np.asarray(new, dtype=float)
    require(new.shape == weights.shape, "one weight for each input")
    _partition(new, "limited weights")
    close(total, np.sum(new), 1e-9, "total weight is the sum of the limited weights")
    if weights.sum() < 1 - 1e-9:
        close(new, weights, 0, "weights with a sum below one are unchanged")
        ctx.count("below one")
    elif weights.sum() > 1 + 1e-9:
        close(total, 1, 1e-9, "total weight is limited to one")
        _monotone(weights, new, "limited weights")
        full = weights >= 1
        if np.any(full):
            close(new, full / np.sum(full), 1e-9, "full weights take precedence and share")
            ctx.count("full")
            ctx.count("several full", np.sum(full) > 1)
        else:
            ctx.count("limited")
    order = rng.permutation(size)
    again, _ = moa.get_limited_weights_to_max_sum(weights[order])
    close(again, new[order], 1e-9, "limited weights do not depend on the order")
    ctx.state(weights)


@check.sub(quick=3000, need=("on", "next", "away", "infinite", "normalized"))
def from_distances(rng, ctx):
    size = int(rng.integers(1, 7))
    minimum = float(rng.choice([1.0, 1.0, 0.0, 0.5, 2.0]))
    power = float(rng.choice([1, 1, 2, 0.5]))
    distances = minimum + 10 ** rng.uniform(-6, 4, size=size)
    kind = int(rng.integers(4))
    if kind == 1:
        distances[rng.integers(size)] = minimum - rng.choice([0, 0, 1]) * rng.uniform()
    if kind == 2:
        distances[rng.integers(size, size=2)] = minimum
    if kind == 3:
        distances[rng.integers(size)] = np.inf
        ctx.count("infinite")
    before = distances.copy()
    close_ones = distances <= minimum
    calls = {
        "gamma weights": lambda dd: moa.compute_gamma_weights(dd, minimum, power),
        "weights from distances": lambda dd: moa.MultiObstacleAvoider.compute_weights_from_distances(dd, minimum),
    }
    for name, func in calls.items():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            weights = np.asarray(func(distances), dtype=float)
        require(np.array_equal(distances, before), f"{name}: distances are unchanged")
        require(weights.shape == (size,), f"{name}: one weight for each distance")
        _partition(weights, name)
        _monotone(-distances, weights, name)
        if np.any(close_ones):
            close(weights, close_ones / np.sum(close_ones), 1e-12, f"{name}: obstacles in contact share the influence")
            ctx.count("on")
        else:
            exponent = power if name == "gamma weights" else 1
            raw = (1.0 / (distances - minimum)) ** exponent
            close(weights, raw / max(1.0, raw.sum()), 1e-6, f"{name}: inverse of the distance")
            ctx.count("next" if raw.sum() > 1 else "away")
            ctx.count("normalized", raw.sum() > 1 and size > 1)
        order = rng.permutation(size)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            close(func(distances[order]), weights[order], 1e-9, f"{name}: independent of the order")
    ctx.state(distances)


@check.sub(quick=2500, need=("contact", "pointing away", "towards", "far"))
def rotation_weight(rng, ctx):
    dim = gen.dim(rng)
    normal = gen.unit(rng, dim)
    reference = -gen.rotated_by(rng, normal, rng.uniform(0, 0.45 * np.pi) * rng.choice([0, 1, 1]))
    if rng.integers(4):
        convergence = gen.unit(rng, dim)
    else:
        convergence = gen.rotated_by(rng, -normal, rng.uniform(0.5, 1) * np.pi)
    if abs(abs(convergence @ normal) - 1) < 1e-9:
        raise Discard()
    if reference @ normal > 0:
        reference = -reference
    gammas = np.sort(np.hstack(([0.5, 1.0], 1 + 10 ** rng.uniform(-4, 4, size=6))))
    radius = float(rng.choice([np.pi / 2, rng.uniform(np.pi / 2, np.pi * 0.9)]))
    power = float(rng.choice([1.0, 0.3]))
    values = []
    for gamma in gammas:
        values.append(
            RotationalAvoider.get_rotation_weight(
                normal_vector=normal, reference_vector=reference, convergence_vector=convergence,
                gamma_value=gamma, convergence_radius=radius, smooth_continuation_power=power,
            )
        )
    values = np.array(values, dtype=float)
    finite(values, "rotation weight is finite")
    require(np.all((values >= 0) & (values <= 1)), "rotation weight is within zero and one", values=values)
    close(values[gammas <= 1], np.ones(np.sum(gammas <= 1)), 0, "full rotation in contact")
    ctx.count("contact")
    outside = gammas > 1
    require(np.all(values[outside] <= 1 / gammas[outside] + 1e-12), "rotation weight is at most the inverse of gamma", values=values, gammas=gammas)
    _monotone(-gammas, values, "rotation weight")
    require(values[-1] < 0.9 or gammas[-1] < 1.2, "rotation weight vanishes away from the obstacle")
    if radius == np.pi / 2 and abs(convergence @ normal) > 1e-6:
        opposite = [
            RotationalAvoider.get_rotation_weight(
                normal_vector=normal, reference_vector=reference, convergence_vector=-convergence,
                gamma_value=gamma, convergence_radius=radius, smooth_continuation_power=power,
            )
            for gamma in gammas
        ]
        close(np.array(opposite), values, 1e-5, "rotation weight of a departing motion is the one of the opposite, approaching one")
        ctx.count("mirrored")
    ctx.count("far", gammas[-1] > 10)
    ctx.count("pointing away" if convergence @ normal > 0 else "towards")
    ctx.state(normal, convergence)


@check.sub(quick=2000, need=("contact", "pointing away", "towards", "aligned", "rim"))
def smooth_weight(rng, ctx):
    """Influence of an obstacle, which vanishes where the motion is straight to its reference."""
    dim = gen.dim(rng)
    radius = float(rng.choice([np.pi / 2, rng.uniform(np.pi / 2, np.pi * 0.9)]))
    avoider = RotationalAvoider(convergence_radius=radius)
    normal = gen.unit(rng, dim)
    base = get_orthogonal_basis(-normal)
    reference = gen.rotated_by(rng, -normal, rng.uniform(0, 0.45 * np.pi) * rng.choice([0, 1, 1]))
    gammas = np.sort(np.hstack(([0.5, 1.0], 1 + 10 ** rng.uniform(-4, 4, size=5))))

    def weights(convergence):
        out = np.array([
            avoider.get_smooth_continuation_weight(
                gamma=gg, vector_reference=gen.frozen(reference), vector_convergence=gen.frozen(convergence), base=base
            )
            for gg in gammas
        ], dtype=float)
        finite(out, "smooth weight is finite")
        require(np.all((out >= 0) & (out <= 1)), "smooth weight is within zero and one", values=out)
        close(out[gammas <= 1], np.ones(np.sum(gammas <= 1)), 0, "full influence in contact")
        require(np.all(out <= 1 / np.maximum(gammas, 1) + 1e-9), "smooth weight is at most the inverse of gamma", values=out, gammas=gammas)
        _monotone(-gammas, out, "smooth weight")
        return out

    outside = gammas > 1
    # Directions from the reference to the opposite of the reference
    turning = gen.perpendicular(rng, reference)
    last = weights(reference)
    require(np.all(last[outside] <= (1 / gammas[outside]) ** 5 + 1e-12), "no influence on a motion to the reference point", values=last, gammas=gammas)
    ctx.count("aligned")
    for angle in np.sort(rng.uniform(1e-3, np.pi * 0.99, size=6)):
        convergence = np.cos(angle) * reference + np.sin(angle) * turning
        to_normal = np.arccos(np.clip(convergence @ -normal, -1, 1))
        if to_normal > np.pi - 1e-3:
            continue
        values = weights(convergence)
        if to_normal >= radius + 1e-6:
            close(values[outside], 1 / gammas[outside], 1e-9, "inverse of gamma for motions pointing away", values=values)
            ctx.count("pointing away")
        elif to_normal < radius:
            ctx.count("towards")
    ctx.count("contact")
    # No jump where the motion stops to point towards the obstacle
    side = gen.perpendicular(rng, normal)
    inner, outer = (-np.cos(radius + eps) * normal + np.sin(radius + eps) * side for eps in (-1e-7, 1e-7))
    close(weights(inner), weights(outer), 1e-5, "smooth weight does not jump at the convergence radius")
    ctx.count("rim")
    ctx.state(normal, reference)


@contextlib.contextmanager
def observed_reductions():
    """Records node lists and weights of all weighted reductions."""
    events = []
    original = VectorRotationTree.reduce_weighted_to_sequence

    def spy(self, node_list, weights, *args, **kwargs):
        events.append((list(node_list), np.array(weights, dtype=float)))
        return original(self, node_list, weights, *args, **kwargs)

    VectorRotationTree.reduce_weighted_to_sequence = spy
    try:
        yield events
    finally:
        VectorRotationTree.reduce_weighted_to_sequence = original


def _reductions(events, ctx, name):
    require(len(events) > 0, f"{name}: directions are averaged")
    for nodes, weights in events:
        require(len(nodes) == len(weights), f"{name}: one weight for each direction")
        finite(weights, f"{name}: weights are finite")
        require(np.all(weights >= -1e-9), f"{name}: weights of the directions are not negative", weights=weights)
        close(np.sum(weights), 1, 1e-6, f"{name}: weights of the directions sum up to one", weights=weights)
    ctx.count("reductions")


@check.sub(quick=700, need=("reductions", "overlap", "disjoint", "surface", "inside", "several", "occluded", "visible", "singular tree", "partial tree", "repulsion", "aligned", "influence"))
def trees(rng, ctx):
    scene = scenes.tree_scene(rng)
    if rng.integers(2):
        # trees may overlap each other
        other = scenes.tree_scene(rng, dim=scene.dim)
        for tree in other.trees:
            scene.env.append(tree)
            scene.trees.append(tree)
            scene.flat = scene.flat + [tree.get_component(ii) for ii in range(tree.n_components)]
        ctx.count("overlap")
    else:
        ctx.count("disjoint")
    ctx.count("several", len(scene.trees) > 1)
    avoider = scene.avoider
    for _ in range(4):
        comp = scene.flat[int(rng.integers(len(scene.flat)))]
        kind = int(rng.integers(4))
        surface = world.surface_point(rng, comp)
        pos = [
            lambda: surface,
            lambda: comp.center_position + (surface - comp.center_position) * rng.uniform(0, 1),
            lambda: world.surface_point(rng, comp, 10 ** rng.uniform(-4, 0.5)),
            lambda: rng.uniform(-6, 6, size=scene.dim),
        ][kind]()
        initial = scene.dynamics.evaluate(pos)
        if not LA.norm(initial) > 1e-9:
            continue
        ctx.count("surface", kind == 0)
        with observed_reductions() as events, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            velocity = avoider.evaluate(pos)
        finite(velocity, "velocity is finite")
        _reductions(events, ctx, "multi-obstacle avoider")
        # The remaining weight is the one of the (converging) motion without any obstacle
        nodes, weights = events[-1]
        rest = [ii for ii, node in enumerate(nodes) if isinstance(node, tuple) and all(np.ndim(kk) == 0 and kk < 0 for kk in node)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            base = avoider.compute_convergence_direction(pos)
            totals = [
                float(np.sum(
                    avoider.compute_gamma_and_weights(position=pos, obstacle=tree, base_velocity=base)[1]
                    * avoider.compute_parent_occlusion_weight(pos, tree)
                ))
                for tree in scene.trees
            ]
        if len(rest) == 1 and len(events) > 1:
            close(
                weights[rest[0]], max(1 - np.sum(totals), 0.0), 1e-6,
                "the motion keeps the weight which is not taken by the trees", totals=totals,
            )
            ctx.count("influence", np.sum(totals) > 0.1)
        for tree in scene.trees:
            count = tree.n_components
            gammas = np.array([tree.get_component(ii).get_gamma(pos, in_global_frame=True) for ii in range(count)])
            base = initial
            if rng.integers(4) == 0:
                # exactly towards the center of the tree (no rotation)
                base = tree.get_component(tree.root_idx).get_reference_direction(pos, in_global_frame=True)
                ctx.count("aligned")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got, weights = avoider.compute_gamma_and_weights(position=pos, obstacle=tree, base_velocity=base)
            close(got, gammas, 1e-9 * (1 + gammas), "gammas of the components")
            _partition(weights, "weights of the components")
            _monotone(-gammas, weights, "weights of the components", tol=1e-9)
            if gammas.min() <= 1:
                within = gammas <= 1
                close(weights, within / np.sum(within), 1e-9, "components in contact share the influence")
                ctx.count("inside")
            else:
                require(np.sum(weights) <= 1 / gammas.min() + 1e-9, "influence of the tree is at most the inverse of gamma")
            # Hidden behind the parent
            visible = avoider.compute_parent_occlusion_weight(pos, tree)
            require(visible.shape == (count,), "one factor for each component")
            finite(visible, "occlusion factors are finite")
            require(np.all((visible >= 0) & (visible <= 1)), "occlusion factors are within zero and one", factors=visible)
            close(visible[tree.root_idx], 1, 0, "the root is never occluded")
            for ii in range(count):
                if ii == tree.root_idx:
                    continue
                component, parent = tree.get_component(ii), tree.get_component(tree.get_parent_idx(ii))
                ray = pos - component.get_reference_point(in_global_frame=True)
                if LA.norm(ray) < 1e-6:
                    continue
                hit = component.get_intersection_with_surface(
                    component.get_reference_point(in_global_frame=True), ray, in_global_frame=True,
                )
                if hit is None:
                    continue
                gamma = parent.get_gamma(hit, in_global_frame=True)
                if gamma > 1 + 1e-6:
                    close(visible[ii], 1, 1e-9, "a visible component is not occluded")
                    ctx.count("visible")
                elif gamma < 1 - 1e-6:
                    require(visible[ii] < 1, "a component whose surface is within its parent is occluded", factor=visible[ii])
                    ctx.count("occluded")
            # Repulsion inside
            radii = avoider.compute_convergence_radiuses(gammas, position=pos, obstacle_tree=tree)
            require(
                np.all((radii >= avoider.convergence_radius - 1e-9) & (radii <= np.pi + 1e-9)),
                "convergence radius is between the nominal one and pi", radii=radii,
            )
            close(radii[gammas >= 1] - avoider.convergence_radius, np.zeros(np.sum(gammas >= 1)), 1e-12, "nominal convergence radius outside of a component")
            for ii in np.flatnonzero(gammas < 1 - 1e-9):
                center = tree.get_component(ii).center_position
                if LA.norm(pos - center) < 1e-6:
                    continue
                edge = tree.get_component(ii).get_intersection_with_surface(center, pos - center, in_global_frame=True)
                depth = LA.norm(pos - center) / LA.norm(edge - center)
                limit = avoider.gamma_maximum_repulsion
                wanted = np.pi if depth < limit else np.pi + (avoider.convergence_radius - np.pi) * (depth - limit) / (1 - limit)
                close(radii[ii], wanted, 1e-6, "convergence radius grows linearly within a component")
                ctx.count("repulsion")
            # Trees which cover the attractor are not considered for the convergence
            if avoider.singularity is not None:
                cover = tree.get_gamma(avoider.singularity, in_global_frame=True)
                factor = avoider.compute_tree_weight(tree)
                close(factor, np.clip(cover - 1, 0, 1), 1e-9, "influence of a tree fades out as it covers the attractor")
                ctx.count("singular tree" if cover < 1 else "partial tree" if cover < 2 else "free tree")
        ctx.state(pos)


@check.sub(quick=500, need=("reductions", "surface", "inside"))
def single_obstacles(rng, ctx):
    scene = scenes.rotational_scene(rng, kind=str(rng.choice(["evaluate", "sequence"])))
    for _ in range(4):
        obs = scene.flat[int(rng.integers(len(scene.flat)))]
        surface = world.surface_point(rng, obs)
        which = int(rng.integers(4))
        pos = [
            lambda: surface,
            lambda: obs.center_position + (surface - obs.center_position) * rng.uniform(0.1, 1),
            lambda: world.surface_point(rng, obs, 10 ** rng.uniform(-4, 0.5)),
            lambda: rng.uniform(-6, 6, size=scene.dim),
        ][which]()
        if LA.norm(scene.dynamics.evaluate(pos)) < 1e-9:
            continue
        with observed_reductions() as events, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            velocity = scene.func(pos)
        finite(velocity, "velocity is finite")
        if events:
            _reductions(events, ctx, "rotational avoider")
        mask = scene.avoider.compute_gamma_weights(pos)
        weights = scene.avoider.weights
        gammas = np.array([oo.get_gamma(pos, in_global_frame=True) for oo in scene.flat])
        if len(mask):
            require(np.array_equal(weights > 0, mask) or np.all(mask[weights > 0]), "only selected obstacles have a weight")
            _partition(weights, "weights of the obstacles")
            _monotone(-gammas, weights, "weights of the obstacles", tol=1e-9)
            if np.any(gammas <= 1):
                close(weights, (gammas <= 1) / np.sum(gammas <= 1), 1e-9, "obstacles in contact share the influence")
        if np.all(gammas > 1.1):
            within = gammas < scene.avoider.cut_off_gamma - 1e-3
            require(np.all(weights[within] > 0), "obstacles within the cut-off have an influence", gammas=gammas, weights=weights)
            ctx.count("all within", np.sum(within))
        ctx.count("surface", which == 0)
        ctx.count("inside", which == 1)
        ctx.state(pos)


@check.sub(quick=400, need=("within two", "within one", "outside of both"))
def overlapping_obstacles(rng, ctx):
    """The influence is shared by all obstacles in contact, also within the common part of two."""
    scene = scenes.rotational_scene(rng, kind="evaluate")
    first = scene.flat[int(rng.integers(len(scene.flat)))]
    second = copy.deepcopy(first)
    shift = rng.normal(size=scene.dim)
    second.center_position = first.center_position + shift / LA.norm(shift) * rng.uniform(0.05, 0.3)
    scene.env.append(second)
    bodies = scene.flat + [second]
    for _ in range(4):
        pos = first.center_position + (world.surface_point(rng, first) - first.center_position) * rng.uniform(0.02, 1.5)
        gammas = np.array([oo.get_gamma(pos, in_global_frame=True) for oo in bodies])
        if np.any(np.abs(gammas - 1) < 1e-9):
            continue
        minimum, power = (1.0, 2.0) if rng.integers(2) else (float(rng.uniform(0.5, 1.0)), float(rng.uniform(0.5, 4)))
        mask = scene.avoider.compute_gamma_weights(pos, gamma_min=minimum, weight_power=power)
        weights = np.array(scene.avoider.weights)
        if len(mask):
            _partition(weights, "weights of the obstacles")
            _monotone(-gammas, weights, "weights of the obstacles", tol=1e-9)
        touching = gammas <= minimum
        if np.any(touching):
            close(weights, touching / np.sum(touching), 1e-9, "obstacles in contact share the influence")
        ctx.count(["outside of both", "within one", "within two"][int(np.sum(gammas[[scene.flat.index(first), -1]] <= 1))])
        ctx.state(pos, weights)


@check.sub(quick=500, need=("reductions", "between", "default", "without"))
def close_obstacles(rng, ctx):
    """RotationalAvoider.avoid_sequence, between several obstacles which are close to each other."""
    from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence
    from nonlinear_avoidance.rotation_container import RotationContainer
    from vartools.dynamical_systems import LinearSystem

    dim = int(rng.choice([2, 2, 3]))
    container, bodies = RotationContainer(), scenes.scatter(rng, dim, int(rng.integers(2, 5)), spread=2.0, minimum=0.01, low=0.3, high=1.5)
    if len(bodies) < 2:
        raise Discard()
    for body in bodies:
        container.append(body)
    attractor = scenes.free_position(rng, bodies, dim, 0.2)
    dynamics = scenes.stable_dynamics(rng, attractor)
    avoider = RotationalAvoider(
        initial_dynamics=dynamics, obstacle_environment=container,
        convergence_system=LinearSystem(attractor_position=attractor), convergence_radius=scenes.radius(rng), tail_rotation=bool(rng.integers(2)),
    )
    for _ in range(4):
        ind = rng.permutation(len(bodies))[:2]
        first, second = (bodies[int(ii)] for ii in ind)
        towards = second.center_position - first.center_position
        start = first.center_position + towards / LA.norm(towards) * first.get_local_radius(first.pose.transform_direction_to_relative(towards), in_global_frame=False)
        pos = start + rng.uniform() * rng.uniform() * (second.center_position - start)
        if rng.integers(3) == 0:
            pos = rng.uniform(-4, 4, size=dim)
        if scenes.min_gamma(bodies, pos) < 1:
            continue
        initial = evaluate_dynamics_sequence(pos, dynamics)
        convergence = evaluate_dynamics_sequence(pos, LinearSystem(attractor_position=attractor))
        if initial is None or convergence is None:
            continue
        default = bool(rng.integers(2))
        with observed_reductions() as events, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = avoider.avoid_sequence(pos, initial, convergence, convergence_default=default)
        finite(out.get_end_vector(), "direction is finite")
        _reductions(events, ctx, "avoidance of a sequence")
        gammas = np.sort([oo.get_gamma(pos, in_global_frame=True) for oo in bodies])
        ctx.count("between", gammas[1] < 2)
        ctx.count("default" if default else "without")
        ctx.state(pos)


@check.sub(quick=300, need=("faded",))
def limit_of_reach(rng, ctx):
    """Influence of obstacles which are about to get out of reach."""
    from vartools.dynamical_systems import LinearSystem
    from vartools.states import Pose
    from dynamic_obstacle_avoidance.obstacles import EllipseWithAxes
    from nonlinear_avoidance.nonlinear_rotation_avoider import SingularityConvergenceDynamics
    from nonlinear_avoidance.rotation_container import RotationContainer

    def ellipse(center):
        return EllipseWithAxes(axes_length=rng.uniform(0.5, 3, size=2), pose=Pose(center, float(rng.uniform(-3, 3))))

    near, far = ellipse(rng.normal(size=2)), ellipse(np.zeros(2))
    container = RotationContainer()
    for obs in [near, far] if rng.integers(2) else [far, near]:
        container.append(obs)
    avoider = SingularityConvergenceDynamics(
        LinearSystem(attractor_position=rng.normal(size=2) * 30), container, None
    )
    cut_off = avoider.cut_off_gamma
    direction = gen.unit(rng, 2)
    low, high = 0.0, 1e3
    for _ in range(80):
        mid = 0.5 * (low + high)
        inside = near.get_gamma(near.center_position + mid * direction, in_global_frame=True) < 0.6 * cut_off
        low, high = (mid, high) if inside else (low, mid)
    pos = near.center_position + rng.uniform(0.2, 1) * low * direction
    if near.get_gamma(pos, in_global_frame=True) <= 1.01:
        raise Discard()
    aside = gen.unit(rng, 2)
    low, high = 0.0, 1e3
    for _ in range(200):
        mid = 0.5 * (low + high)
        far.center_position = pos + mid * aside
        inside = far.get_gamma(pos, in_global_frame=True) < cut_off
        low, high = (mid, high) if inside else (low, mid)
    weights = []
    for factor in (1 - 1e-6, 1 + 1e-6):
        far.center_position = pos + low * factor * aside
        avoider.compute_gamma_weights(pos)
        weights.append(float(avoider.weights[[oo is far for oo in container].index(True)]))
    require(weights[1] == 0, "no influence out of reach", weights=weights)
    require(0 <= weights[0] < 1e-3, "influence begins at zero", weights=weights, cut_off=cut_off)
    ctx.count("faded")
    ctx.state(pos, far.center_position)


@check.sub(quick=1500, need=("occluded", "free", "all hidden", "array", "all negative"))
def occlusion(rng, ctx):
    """Components which are hidden by others."""
    from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider

    # list of (negative for hidden) weights
    values = rng.choice([-1.0, -0.5, 0.0, 0.2, 0.7, 1.0, -rng.uniform(), rng.uniform()], size=int(rng.integers(1, 6)))
    if rng.integers(3) == 0:
        values = -np.abs(values)
    got = MultiObstacleAvoider.evaluate_occlusion_array(list(values) if rng.integers(2) else values)
    _partition(got, "occlusion array", total=1)
    positive = values > 0
    if np.any(positive):
        close(got, np.where(positive, values, 0) / values[positive].sum(), 1e-9, "occlusion array: hidden components have no weight")
        ctx.count("array")
    else:
        close(got, (values == values.max()) / np.sum(values == values.max()), 1e-9, "occlusion array: the least hidden component has the weight")
        ctx.count("all negative")
    gammas = np.sort(np.hstack(([0.0, 1.0], 10 ** rng.uniform(-2, 3, size=5))))
    single = [MultiObstacleAvoider.compute_single_occlusion_weight(gg) for gg in gammas]
    require(all((ww > 0) == (gg > 1) and ww <= 1 for gg, ww in zip(gammas, single)), "occlusion weight is positive if visible, and at most one", weights=single)
    _monotone(gammas, single, "occlusion weight")

    scene = scenes.tree_scene(rng, number=1, max_components=5)
    tree = scene.trees[0]
    if tree.n_components < 2:
        return
    pos = world.surface_point(rng, scene.flat[0], 10 ** rng.uniform(-1, 1))
    if scene.gamma(pos) <= 1.01:
        return
    margin = float(rng.choice([0.1, 0.1, 1e-3]))
    weights = scene.avoider.compute_occlusion_weights(pos, tree, gamma_margin=margin)
    _partition(weights, "occlusion weights", total=1)
    hits = []
    for ii in range(tree.n_components):
        comp = tree.get_component(ii)
        hit = comp.get_intersection_with_surface(pos, comp.get_reference_direction(pos, in_global_frame=True), in_global_frame=True)
        hits.append(min(min(tree.get_component(jj).get_gamma(hit, in_global_frame=True) for jj in range(tree.n_components) if jj != ii), 2.0))
    hits = np.array(hits)
    _monotone(hits, weights, "occlusion weights: more visible", tol=1e-9)
    if np.any(hits > 1 + margin + 1e-9):
        close(weights[hits < 1], np.zeros(np.sum(hits < 1)), 1e-12, "hidden components have no weight")
        ctx.count("occluded", np.any(hits < 1))
        ctx.count("free")
    elif np.all(hits < 1 + margin - 1e-9):
        require(weights[np.argmax(hits)] > 0, "the least hidden component has weight")
        ctx.count("all hidden")
    ctx.state(pos)
