"""Random environments: obstacles, trees of obstacles, dynamics."""
import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation

from vartools.states import Pose
from dynamic_obstacle_avoidance.obstacles import CuboidXd, EllipseWithAxes

from vt import gen


def orientation(rng, dim, trivial=0.25):
    if rng.uniform() < trivial:
        return 0.0 if dim == 2 else (Rotation.identity() if dim == 3 else None)
    if dim == 2:
        return float(rng.uniform(-np.pi, np.pi))
    if dim == 3:
        return Rotation.from_matrix(gen.rotation_matrix(rng, 3))
    return None


def pose(rng, dim, spread=3.0, trivial=0.25):
    return Pose(rng.uniform(-spread, spread, size=dim), orientation(rng, dim, trivial))


def obstacle(rng, dim, at=None, kind=None, low=0.4, high=2.5, **kwargs):
    kind = kind or rng.choice(["ellipse", "ellipse", "circle", "cuboid"])
    axes = rng.uniform(low, high, size=dim)
    if kind == "circle":
        axes = np.ones(dim) * axes[0]
    cls = CuboidXd if kind == "cuboid" else EllipseWithAxes
    kwargs.setdefault("margin_absolut", float(rng.choice([0.0, 0.0, 0.1, 0.4])))
    kwargs.setdefault("distance_scaling", float(rng.choice([1.0, 1.0, 0.3, 4.0])))
    return cls(axes_length=axes, pose=at if at is not None else pose(rng, dim), **kwargs)


def direction_in(rng, dim):
    return gen.unit(rng, dim)


def surface_point(rng, obs, offset=0.0):
    """Point of the surface (global frame), displaced by `offset` along the ray from the center."""
    local = gen.unit(rng, obs.dimension)
    local = local * (obs.get_local_radius(local, in_global_frame=False) + offset)
    return obs.pose.transform_position_from_relative(local)


def tree_layout(rng, dim, max_components=5, kinds=None, chain=None, low=0.5, high=2.5, **kwargs):
    """List of dictionaries(obs, parent, reference) in the frame of the tree.

    The reference of each component (its own frame) lies strictly within itself and its parent."""
    number = int(rng.integers(1, max_components + 1))
    margin = float(rng.choice([0.0, 0.0, 0.1, 0.3]))
    scaling = float(rng.choice([1.0, 1.0, 0.5, 3.0]))
    common = dict(margin_absolut=margin, distance_scaling=scaling)
    common.update(kwargs)
    out = []
    shape = chain if chain is not None else rng.choice(["chain", "star", "mixed"])
    for ii in range(number):
        kind = None if kinds is None else rng.choice(kinds)
        if ii == 0:
            obs = obstacle(rng, dim, at=pose(rng, dim, spread=0.7), kind=kind, low=low, high=high, **common)
            out.append(dict(obs=obs, parent=None, reference=None))
            continue
        parent_id = {"chain": ii - 1, "star": 0, "mixed": int(rng.integers(ii))}[str(shape)]
        parent = out[parent_id]["obs"]
        direction = gen.unit(rng, dim)
        inner = parent.get_local_radius(direction, in_global_frame=False) * rng.uniform(0.4, 0.85)
        point = parent.pose.transform_position_from_relative(direction * inner)
        obs = obstacle(rng, dim, at=Pose(np.zeros(dim), orientation(rng, dim)), kind=kind, low=low, high=high, **common)
        local = gen.unit(rng, dim)
        local = local * obs.get_local_radius(local, in_global_frame=False) * rng.uniform(0.3, 0.85)
        obs.pose.position = point - obs.pose.transform_direction_from_relative(local)
        out.append(dict(obs=obs, parent=parent_id, reference=local))
    return out


def build_tree(layout, tree_pose, margin=0.0):
    import copy

    from nonlinear_avoidance.multi_obstacle import MultiObstacle

    tree = MultiObstacle(tree_pose, margin)
    for ii, item in enumerate(layout):
        obs = copy.deepcopy(item["obs"])
        if item["parent"] is None:
            tree.set_root(obs)
        else:
            tree.add_component(obs, parent_ind=item["parent"], reference_position=item["reference"])
    return tree
