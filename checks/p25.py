"""P25: containers keep the dynamics and the graph of each obstacle through any history."""
import contextlib
import io
import warnings

import numpy as np
from numpy import linalg as LA
from vartools.dynamical_systems import ConstantValue, LinearSystem
from dynamic_obstacle_avoidance.obstacles import Ellipse

from vt import gen, world
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance.dynamics.wavy_attractor_dynamics import WavyLinearDynamics
from nonlinear_avoidance.multiboundary_container import MultiBoundaryContainer
from nonlinear_avoidance.rotation_container import RotationContainer

check = Check(
    "P25",
    rule="random histories of appending, replacing and deleting obstacles / boundaries, of setting "
    "the convergence directions and of linking the graph, against a list model; non-trivial: "
    "distinct history",
)


def _dynamics(rng, dim, attractor):
    kind = rng.integers(3)
    if kind == 0:
        return LinearSystem(attractor_position=attractor)
    if kind == 1 and dim == 2:
        return WavyLinearDynamics(attractor_position=attractor)
    return _Rotated(rng, dim, attractor)


class _Rotated:
    """Direction to the attractor, turned by a fixed rotation."""

    def __init__(self, rng, dim, attractor):
        self.attractor_position = attractor
        angle = rng.choice([0.2, 1.0, 2.0, 2.8]) * rng.choice([-1, 1])
        basis = gen.rotation_matrix(rng, dim)
        turn = np.eye(dim)
        turn[:2, :2] = gen.rotation2d(angle)
        self.matrix = basis @ turn @ basis.T
        self.scale = float(rng.choice([1.0, 0.1, 5.0]))

    def evaluate(self, position):
        return self.scale * (self.matrix @ (self.attractor_position - position))


class _Free:
    """Dynamics without attractor."""

    attractor_position = None

    def __init__(self, rng, dim, zero_at=None):
        self.matrix, self.offset, self.zero_at = rng.normal(size=(dim, dim)), rng.normal(size=dim), zero_at

    def evaluate(self, position):
        if self.zero_at is not None and LA.norm(position - self.zero_at) < 1e-9:
            return np.zeros(position.shape)
        return self.matrix @ position + self.offset


def _unit(vec):
    return vec / LA.norm(vec)


@check.sub(quick=600, need=("delete", "replace", "converging", "attractor", "free", "zero", "queried"))
def convergence_dynamics(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    container = RotationContainer()
    model = []  # entries [obstacle, None or expected directions at the probes]
    probes = [rng.uniform(-6, 6, size=dim) for _ in range(3)]
    for step in range(int(rng.integers(3, 14))):
        action = rng.choice(["append", "append", "append", "delete", "replace", "set", "set"])
        if action == "append" or not model:
            obs = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=5))
            container.append(obs)
            model.append([obs, None])
        elif action == "delete":
            key = int(rng.integers(-len(model), len(model)))
            del container[key]
            del model[key]
            ctx.count("delete")
        elif action == "replace":
            key = int(rng.integers(len(model)))
            obs = world.obstacle(rng, dim, at=world.pose(rng, dim, spread=5))
            container[key] = obs
            model[key] = [obs, None]
            ctx.count("replace")
        else:
            kind = rng.choice(["converging", "attractor", "attractor", "free"])
            ctx.count(kind)
            attractor = rng.uniform(-8, 8, size=dim)
            if kind == "converging":
                dynamics = LinearSystem(attractor_position=attractor)
                container.set_convergence_directions(converging_dynamics=dynamics)
                for ii in range(len(model)):
                    for pp in probes:
                        close(container.get_convergence_direction(pp, it_obs=ii), dynamics.evaluate(pp), 1e-9,
                              "given convergence dynamics are used for all obstacles")
            elif kind == "attractor":
                dynamics = _dynamics(rng, dim, attractor)
                if rng.uniform() < 0.15:
                    attractor = np.array(model[0][0].center_position)
                    dynamics = LinearSystem(attractor_position=attractor)
                container.set_convergence_directions(dynamics)
                for ii, (obs, _) in enumerate(model):
                    center = np.array(obs.center_position)
                    got = container.get_convergence_direction(center, it_obs=ii)
                    want = dynamics.evaluate(center)
                    finite(got, "convergence direction is finite")
                    if LA.norm(want) > 1e-9 and LA.norm(center - attractor) > 1e-9:
                        require(LA.norm(got) > 0, "convergence direction at the center is nonzero")
                        close(_unit(got), _unit(want), 1e-5, "convergence direction at the obstacle is the one of the dynamics",
                              obstacle=ii, dynamics=type(dynamics).__name__)
                    close(container.get_convergence_direction(attractor, it_obs=ii), np.zeros(dim), 1e-9,
                          "convergence dynamics have the attractor of the initial dynamics")
                    for pp in probes:
                        if LA.norm(pp - attractor) < 1e-6:
                            continue
                        vec = container.get_convergence_direction(pp, it_obs=ii)
                        finite(vec, "convergence direction is finite")
                        require(LA.norm(vec) > 0, "convergence direction vanishes at the attractor only")
                        if isinstance(dynamics, LinearSystem):
                            close(_unit(vec), _unit(attractor - pp), 1e-6, "linear dynamics converge straight to the attractor")
            else:
                dynamics = _Free(rng, dim, zero_at=np.array(model[0][0].center_position) if rng.uniform() < 0.4 else None)
                container.set_convergence_directions(dynamics)
                for ii, (obs, _) in enumerate(model):
                    center = np.array(obs.center_position)
                    want = dynamics.evaluate(center)
                    for pp in probes:
                        vec = container.get_convergence_direction(pp, it_obs=ii)
                        if LA.norm(want):
                            close(vec, want, 1e-9, "without attractor: constant direction at each obstacle")
                        else:
                            ctx.count("zero")
                            close(_unit(vec), _unit(center - pp), 1e-6, "without any direction: convergence to the center")
            for ii, entry in enumerate(model):
                entry[1] = [np.array(container.get_convergence_direction(pp, it_obs=ii)) for pp in probes]
        # Monitor
        require(len(container) == container.n_obstacles == len(model), "number of obstacles", action=str(action))
        for ii, (obs, directions) in enumerate(model):
            require(container[ii] is obs, "order of the obstacles", action=str(action))
            if directions is not None:
                ctx.count("queried")
                for pp, want in zip(probes, directions):
                    close(container.get_convergence_direction(gen.frozen(pp), it_obs=ii), want, 1e-12,
                          "convergence dynamics remain with their obstacle", action=str(action))
        ctx.state(str(action), len(model), *[m[0].center_position for m in model])


def _boundary(rng, at=None, boundary=True):
    return Ellipse(
        center_position=rng.uniform(-5, 5, size=2) if at is None else at, axes_length=rng.uniform(0.8, 3, size=2),
        orientation=float(rng.uniform(-3, 3)), is_boundary=boundary,
    )


@check.sub(quick=600, need=("delete", "linked", "previous", "levels", "roots"))
def boundary_forest(rng, ctx):
    container = MultiBoundaryContainer()
    model = []  # [obstacle, parent obstacle or None, children]
    find = lambda obs: next(ii for ii, mm in enumerate(model) if mm[0] is obs)
    for step in range(int(rng.integers(2, 14))):
        action = rng.choice(["append", "append", "delete", "link"]) if len(model) > 2 else "append"
        if action == "append":
            obs = _boundary(rng, boundary=bool(rng.uniform() < 0.7))
            kind = rng.choice(["none", "previous", "index"]) if model else rng.choice(["none", "previous"])
            parent = None
            if kind == "previous":
                container.append(obs, parent=-1)
                parent = model[-1][0] if model else None
                ctx.count("previous", bool(model))
            elif kind == "index":
                ind = int(rng.integers(len(model)))
                container.append(obs, parent=ind)
                parent = model[ind][0]
                ctx.count("linked")
            else:
                container.append(obs)
            model.append([obs, parent])
        elif action == "delete":
            key = int(rng.integers(-len(model), len(model)))
            del container[key]
            gone = model.pop(key)[0]
            for mm in model:
                if mm[1] is gone:
                    mm[1] = None
            ctx.count("delete")
        else:  # Link any root to a node which is not its own successor
            roots = [ii for ii, mm in enumerate(model) if mm[1] is None]
            child = int(rng.choice(roots))
            options = []
            for ii, mm in enumerate(model):
                node = mm
                while node[1] is not None:
                    node = model[find(node[1])]
                if node[0] is not model[child][0]:
                    options.append(ii)
            if options:
                parent = int(rng.choice(options))
                container.extend_graph(child=child, parent=parent)
                model[child][1] = model[parent][0]
                ctx.count("linked")
        # Monitor
        require(len(container) == len(model), "number of boundaries")
        roots = []
        levels = []
        for ii, (obs, parent) in enumerate(model):
            require(container[ii] is obs, "order of the boundaries")
            got = container.get_parent(ii)
            if parent is None:
                roots.append(ii)
                require(got < 0, "a root has no parent", action=str(action))
            else:
                require(got == find(parent), "parent of the boundary", action=str(action))
            children = sorted(int(cc) for cc in container.get_children(ii))
            require(children == [jj for jj, mm in enumerate(model) if mm[1] is obs], "children of the boundary", action=str(action))
            level, node = 0, model[ii]
            while node[1] is not None:
                level, node = level + 1, model[find(node[1])]
            levels.append(level)
        if model:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = container.get_level_numbers()
                require(sorted(int(rr) for rr in container.get_root(return_multi_values=True)) == roots, "roots of the graph")
                require(int(container.get_root()) == roots[0], "first root of the graph")
            require([int(ll) for ll in got] == levels, "level is the number of predecessors")
            ctx.count("levels")
            ctx.count("roots", len(roots) > 1)
        require([bool(bb) for bb in container.get_boundary_ind()] == [mm[0].is_boundary for mm in model], "indicator of the boundaries")
        boundaries = container.get_boundary_list()
        want = [mm[0] for mm in model if mm[0].is_boundary]
        require(len(boundaries) == len(want) and all(a is b for a, b in zip(boundaries, want)), "list of the boundaries")
        ctx.state(str(action), tuple(levels), len(model))


@check.sub(quick=300, need=("after_delete", "free", "outside", "moved"))
def connections(rng, ctx):
    """Intersection points belong to the boundaries, also after one of them is gone."""
    container = MultiBoundaryContainer()
    model = []
    position = rng.normal(size=2) * 3
    for ii in range(int(rng.integers(2, 6))):
        obs = _boundary(rng, at=position)
        container.append(obs, parent=-1)
        model.append([obs, model[-1][0] if model else None])
        position = position + gen.unit(rng, 2) * rng.uniform(0.5, 0.9) * np.min(obs.axes_length)
    container.update_intersection_graph(attractor_position=rng.normal(size=2))
    points = {}
    for rounds in range(2):
        for ii, (obs, parent) in enumerate(model):
            point = container.get_parent_intersection(ii)
            if parent is None:
                require(point is None, "a root has no connection to a parent")
                continue
            for body in (obs, parent):
                require(body.get_gamma(point, in_global_frame=True) > 0.98, "connection is within both boundaries")
            if rounds:
                close(point, points[id(obs)], 1e-12, "connection remains with its boundary")
                ctx.count("after_delete")
            points[id(obs)] = np.array(point)
        for _ in range(6):
            obs = model[int(rng.integers(len(model)))][0]
            position = world.surface_point(rng, obs, offset=float(rng.choice([-0.3, -0.01, 0.01, 1.0])))
            gammas = [mm[0].get_gamma(position, in_global_frame=True) for mm in model]
            if abs(max(gammas) - 1) < 1e-8:
                continue
            require(bool(container.is_collision_free(position)) == (max(gammas) > 1), "free space is within any of the boundaries")
            ctx.count("free" if max(gammas) > 1 else "outside")
        ctx.state(*[mm[0].center_position for mm in model])
        if rounds:
            break
        key = int(rng.integers(len(model)))
        del container[key]
        gone = model.pop(key)[0]
        for mm in model:
            if mm[1] is gone:
                mm[1] = None
        if not model:
            break
        if rng.uniform() < 0.3:
            container.update_intersection_graph()
    # All boundaries move, hence their connections do so
    if len(model) > 1:
        container.update_intersection_graph()
        before = [container.get_parent_intersection(ii) for ii in range(len(model))]
        shift = rng.uniform(-4, 4, size=2)
        for obs, _ in model:
            obs.center_position = obs.center_position + shift
        container.update_intersection_graph()
        for ii, point in enumerate(before):
            if point is None:
                require(container.get_parent_intersection(ii) is None, "a root has no connection to a parent")
                continue
            close(container.get_parent_intersection(ii), point + shift, 1e-6, "connection moves with the boundaries")
            ctx.count("moved")
