"""P13: composite obstacles are the union of their components and move as one body."""
import copy

import numpy as np
from numpy import linalg as LA
from vartools.states import Pose, Twist
from dynamic_obstacle_avoidance.obstacles import CuboidXd, Ellipse, EllipseWithAxes

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, fingerprint, require

from nonlinear_avoidance.arch_obstacle import BlockArchObstacle, create_arch_obstacle
from nonlinear_avoidance.multi_ellipse_obstacle import MultiEllipseObstacle
from nonlinear_avoidance.multi_obstacle import MultiObstacle
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer

check = Check(
    "P13",
    rule="random trees of 1 to 5 ellipses / cuboids in 2D/3D built through the public interface, "
    "histories of pose and deformation updates, arches of any size; positions within, on and away "
    "of the components; non-trivial: distinct tree and position",
)


def _scaled(obs, local):
    """Value of the (closed form) shape function, 1 on the surface."""
    semi = obs.axes_length * (1.0 if type(obs) is Ellipse else 0.5) + obs.margin_absolut
    if isinstance(obs, CuboidXd):
        return np.max(np.abs(local) / semi)
    return LA.norm(local / semi)


def _shape_value(layout, frame, position):
    """Per component; evaluated from the layout in the tree frame, i.e., not from the tree."""
    inner = frame.transform_position_to_relative(position)
    return np.array([_scaled(it["obs"], it["obs"].pose.transform_position_to_relative(inner)) for it in layout])


def _positions(rng, layout, frame, number=12):
    out = []
    for _ in range(number):
        item = layout[int(rng.integers(len(layout)))]["obs"]
        local = gen.unit(rng, item.dimension)
        length = item.get_local_radius(local, in_global_frame=False)
        local = local * length * rng.choice([0.3, 0.9, 0.999, 1.001, 1.2, 4.0])
        out.append(frame.transform_position_from_relative(item.pose.transform_position_from_relative(local)))
    return out


def _monitor(tree, layout, frame, position, ctx):
    values = _shape_value(layout, frame, position)
    if np.any(np.abs(values - 1) < 1e-6):
        return
    free = bool(np.all(values > 1))
    require(bool(tree.is_collision_free(position)) == free, "free space is outside of every component",
            position=position, values=values)
    gammas = []
    for it in layout:
        obs = copy.deepcopy(it["obs"])
        obs.pose = frame.transform_pose_from_relative(obs.pose)
        gammas.append(obs.get_gamma(position, in_global_frame=True))
    scale = 1e-7 * (1 + max(gammas))
    close(tree.get_gamma(position, in_global_frame=True), min(gammas), scale, "distance is the one of the closest component")
    local = frame.transform_position_to_relative(position)
    close(tree.get_gamma(local, in_global_frame=False), min(gammas), scale, "distance in the local frame is the one of the global frame")
    require(bool(tree.is_collision_free(local, in_global_frame=False)) == free, "free space in the local frame")
    ctx.count("free" if free else "occupied")
    return gammas


@check.sub(quick=700, need=("free", "occupied", "except", "rejected_all"))
def union(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    layout = world.tree_layout(rng, dim)
    frame = world.pose(rng, dim)
    tree = world.build_tree(layout, frame)
    number = len(layout)
    require(tree.n_components == len(tree) == len(list(tree)) == number, "number of components")
    require(tree.dimension == dim, "dimension of the composite obstacle")
    require(tree.get_root() is tree.get_component(tree.root_idx) is tree[0], "root is the first component")
    for ii, it in enumerate(layout):
        require(tree.get_parent_idx(ii) == it["parent"], "parent of the component", component=ii)
        require(tree.get_component(ii) is tree[ii] is list(tree)[ii], "components are in the order of their addition")
        if it["parent"] is not None:
            close(tree[ii].get_reference_point(in_global_frame=False), it["reference"], 1e-9, "reference point of the component is the given one")
    for position in _positions(rng, layout, frame):
        before = fingerprint(vars(tree)["_obstacle_list"]) if "_obstacle_list" in vars(tree) else None
        gammas = _monitor(tree, layout, frame, gen.frozen(position), ctx)
        if gammas is None:
            continue
        if before is not None:
            require(fingerprint(vars(tree)["_obstacle_list"]) == before, "queries do not modify the components")
        excluded = [int(ii) for ii in np.flatnonzero(rng.uniform(size=number) < 0.5)]
        rest = [gg for ii, gg in enumerate(gammas) if ii not in excluded]
        local = frame.transform_position_to_relative(position)
        for args in ((position, excluded, True), (local, excluded, False)):
            if rest:
                ctx.count("except")
                close(tree.get_gamma_except_components(*args), min(rest), 1e-7 * (1 + max(rest)), "distance to all but the excluded components")
            else:
                try:
                    tree.get_gamma_except_components(*args)
                except ValueError:
                    ctx.count("rejected_all")
                else:
                    require(False, "excluding all components is rejected")
        ctx.state(position, gammas)
    ctx.sample("tree", number=number, dim=dim, parents=[it["parent"] for it in layout])


@check.sub(quick=400, need=("found", "rejected"))
def automatic_reference(rng, ctx):
    """Without given reference: the component is connected to its parent, or it is rejected."""
    kinds = [EllipseWithAxes, Ellipse, CuboidXd]
    frame = world.pose(rng, 2)
    tree = MultiObstacle(frame)
    new = lambda at: kinds[rng.integers(3)](axes_length=rng.uniform(0.6, 3, size=2), pose=at, margin_absolut=float(rng.choice([0, 0.1])))
    tree.set_root(new(world.pose(rng, 2, spread=1.0)))
    links = []
    for _ in range(int(rng.integers(1, 5))):
        parent = int(rng.integers(len(tree)))
        center = frame.transform_position_to_relative(tree[parent].pose.position)
        obs = new(Pose(center + gen.unit(rng, 2) * rng.uniform(0.1, 4.0), rng.uniform(-3, 3)))
        bound = LA.norm(obs.axes_length) + LA.norm(tree[parent].axes_length) + 1
        if rng.uniform() < 0.3:
            obs.pose.position = center + gen.unit(rng, 2) * bound * 2
        local_pose = copy.deepcopy(obs.pose)
        apart = LA.norm(local_pose.position - center) >= bound
        before = (fingerprint([o.__dict__ for o in tree]), len(tree))
        try:
            ind = tree.add_component(obs, parent_ind=parent)
        except ValueError:
            ctx.count("rejected")
            require(
                (fingerprint([o.__dict__ for o in tree]), len(tree)) == before,
                "composite obstacle is not modified by a rejected component",
            )
            close(obs.pose.position, local_pose.position, 1e-12, "rejected component remains in its frame")
            continue
        require(not apart, "a component which does not touch its parent is rejected")
        require(ind == len(tree) - 1 == before[1], "identifier of the new component")
        links.append((ind, parent))
        ctx.count("found")
    moved = world.pose(rng, 2)
    for step in range(2):
        for ind, parent in links:
            require(tree.get_parent_idx(ind) == parent, "parent of the component")
            point = tree[ind].get_reference_point(in_global_frame=True)
            for obs in (tree[ind], tree[parent]):
                require(obs.get_gamma(point, in_global_frame=True) < 1.02, "reference point is within the component and its parent", step=step)
        ctx.state(*[o.pose.position for o in tree])
        tree.update_pose(moved)


@check.sub(quick=400, need=("deformed", "moved", "free", "occupied"))
def rigid_motion(rng, ctx):
    """History of pose updates and deformations."""
    dim = int(rng.choice([2, 2, 3]))
    layout = world.tree_layout(rng, dim, margin_absolut=0.0)
    frame = world.pose(rng, dim)
    tree = world.build_tree(layout, frame)
    references = [obs.get_reference_point(in_global_frame=False) for obs in tree]
    rate = float(rng.choice([0.3, -0.3, 0.05]))
    deforming = rng.uniform() < 0.6
    if deforming:
        tree.deformation_rate = rate
    total = 1.0
    for _ in range(int(rng.integers(1, 7))):
        if rng.uniform() < 0.5:
            frame = world.pose(rng, dim)
            tree.update_pose(copy.deepcopy(frame))
            ctx.count("moved")
        else:
            step = float(rng.uniform(0.0, 0.5))
            tree.update_deformation(step)
            if deforming:
                total = total * (1 + rate * step)
                ctx.count("deformed")
        for got, want in ((tree.get_pose(), frame), (tree.pose, frame)):
            close(got.position, want.position, 1e-12, "pose of the composite obstacle")
        copied = tree.get_pose()
        copied.position += 1.0
        close(tree.get_pose().position, frame.position, 1e-12, "the returned pose is a copy")
        current = []
        for it in layout:
            obs = copy.deepcopy(it["obs"])
            obs.axes_length = obs.axes_length * total
            obs.pose.position = obs.pose.position * total
            current.append(dict(it, obs=obs))
        for position in _positions(rng, current, frame, 4):
            _monitor(tree, current, frame, position, ctx)
        for ii, obs in enumerate(tree):
            want = frame.transform_pose_from_relative(current[ii]["obs"].pose)
            close(obs.pose.position, want.position, 1e-9 * (1 + LA.norm(want.position)), "components move along with the body")
            close(obs.get_reference_point(in_global_frame=False), references[ii] * total, 1e-9, "reference points scale with the deformation")
            if it_parent(layout, ii) is not None:
                point = obs.get_reference_point(in_global_frame=True)
                for part in (obs, tree[it_parent(layout, ii)]):
                    require(part.get_gamma(point, in_global_frame=True) < 1, "reference point remains within the component and its parent")
    ctx.state(total, frame.position, *[o.pose.position for o in tree])


@check.sub(quick=300, need=("same pose", "same array", "integers"))
def several_bodies(rng, ctx):
    """Bodies which are created from the same data do not move along with each other."""
    dim = int(rng.choice([2, 3]))
    layout = world.tree_layout(rng, dim, margin_absolut=0.0)
    frame = world.pose(rng, dim)
    given = copy.deepcopy(frame)
    bodies = [MultiObstacle(given), MultiObstacle(given)]
    shared = rng.integers(-3, 4, size=dim) if rng.integers(2) else rng.normal(size=dim)
    kept = np.array(shared)
    ctx.count("integers", shared.dtype.kind == "i")
    parts = []
    for body in bodies:
        for ii in range(2):
            obs = Ellipse(axes_length=np.array(rng.uniform(0.5, 2, size=dim)), center_position=shared) if rng.integers(2) else \
                CuboidXd(axes_length=np.array(rng.uniform(0.5, 2, size=dim)), center_position=shared)
            if ii:
                body.add_component(obs, parent_ind=0, reference_position=np.zeros(dim))
            else:
                body.set_root(obs)
            parts.append(obs)
    ctx.count("same array")
    other = [np.array(obs.pose.position) for obs in bodies[1]]
    moved = world.pose(rng, dim)
    bodies[0].deformation_rate = 0.5
    bodies[0].update_pose(copy.deepcopy(moved))
    bodies[0].update_deformation(0.5)
    for obs, at in zip(bodies[1], other):
        close(obs.pose.position, at, 0, "components of another body do not move along")
    close(given.position, frame.position, 0, "pose which has been handed over is not moved along")
    close(shared, kept, 0, "position which has been handed over is not modified")
    for obs in bodies[0]:
        close(obs.pose.position, moved.transform_position_from_relative(1.25 * kept), 1e-9, "components created at the same position remain at the same position")
    position = rng.normal(size=dim) * 3
    want = bodies[1].get_gamma(frame.transform_position_from_relative(position), in_global_frame=True)
    close(bodies[1].get_gamma(position, in_global_frame=False), want, 1e-6 * (1 + want), "frame of another body does not move along")
    ctx.count("same pose")
    ctx.state(kept, frame.position)


def it_parent(layout, ii):
    return layout[ii]["parent"]


@check.sub(quick=100)
def velocity(rng, ctx):
    dim = int(rng.choice([2, 3]))
    tree = world.build_tree(world.tree_layout(rng, dim), world.pose(rng, dim))
    close(tree.linear_velocity, np.zeros(dim), 0, "composite obstacle is static by default")
    for _ in range(2):
        value = rng.normal(size=dim)
        tree.linear_velocity = value
        close(tree.linear_velocity, value, 0, "velocity of the composite obstacle is the one which has been set")
    twist = Twist(linear=rng.normal(size=dim), angular=float(rng.normal()))
    tree.twist = twist
    close(tree.linear_velocity, twist.linear, 0, "velocity of the composite obstacle is the one of its twist")
    ctx.state(twist.linear)


@check.sub(quick=300, need=("free", "occupied", "opening", "surface"))
def arch(rng, ctx):
    """Union of three blocks: a column and two limbs, open to the side."""
    axes = rng.uniform(2.0, 8.0, size=2)
    wall = float(rng.uniform(0.1, 0.4) * np.min(axes))
    margin = float(rng.choice([0.0, 0.0, 0.2])) * wall
    frame = world.pose(rng, 2)
    block = bool(rng.integers(2))
    func = BlockArchObstacle if block else create_arch_obstacle
    arch_ = func(wall_width=wall, axes_length=axes.copy(), pose=copy.deepcopy(frame), margin_absolut=margin)
    delta = (axes - wall) / 2
    blocks = [
        ([0.0, 0.0], [wall, axes[1]]),
        ([delta[0], delta[1]], [axes[0], wall]),
        ([delta[0], -delta[1]], [axes[0], wall]),
    ]
    require(arch_.n_components == len(arch_) == len(list(arch_)) == 3, "an arch has three components")
    require([arch_.get_parent_idx(ii) for ii in range(3)] == [None, 0, 0], "limbs are attached to the column")
    # Exactly on the surface (with numbers which are exact), i.e., in contact
    exact = func(wall_width=0.5, axes_length=np.array([4.0, 8.0]), pose=Pose(np.zeros(2), orientation=0.0))
    for _ in range(3):
        on_column = np.array([-0.25, rng.uniform(-3, 3)])
        on_limb = np.array([rng.uniform(1, 3), float(rng.choice([-4.0, 4.0, -3.5, 3.5]))])
        for point in (on_column, on_limb, np.array([-0.25, 4.0]), np.array([3.75, -4.0])):
            if exact.get_gamma(point, in_global_frame=True) == 1:
                require(not exact.is_collision_free(point), "surface of the arch is not free", point=point)
                ctx.count("surface")
    for step in range(3):
        for ii in range(14):
            if ii == 0:  # Middle of the opening
                local = np.array([delta[0] + wall / 2, 0.0])
                ctx.count("opening")
            else:
                local = rng.uniform([-axes[0], -axes[1]], [1.6 * axes[0], axes[1]])
            value = min(
                np.max(np.abs(local - np.array(cc)) / (np.array(size) / 2 + margin)) for cc, size in blocks
            )
            if abs(value - 1) < 1e-6:
                continue
            position = frame.transform_position_from_relative(local)
            require(bool(arch_.is_collision_free(position)) == (value > 1), "free space of the arch", local=local, axes=axes, wall=wall)
            ctx.count("free" if value > 1 else "occupied")
            gamma = arch_.get_gamma(position, in_global_frame=True)
            require((gamma > 1) == (value > 1), "distance to the arch")
            close(arch_.get_gamma(local, in_global_frame=False), gamma, 1e-6 * (1 + gamma), "distance in the local frame is the one of the global frame")
            each = [obs.get_gamma(position, in_global_frame=True) for obs in arch_]
            close(gamma, min(each), 1e-9, "distance is the one of the closest component")
            close(arch_.get_gamma_except_components(position, [0]), min(each[1:]), 1e-9, "distance to all but the excluded components")
        for ii in (1, 2):
            point = arch_.get_component(ii).get_reference_point(in_global_frame=True)
            for obs in (arch_.get_component(ii), arch_.get_root()):
                require(obs.get_gamma(point, in_global_frame=True) < 1, "reference point is within the limb and the column", step=step)
        ctx.state(axes, wall, frame.position)
        frame = world.pose(rng, 2)
        if block:
            arch_.pose = copy.deepcopy(frame)
            arch_.update_obstacles(0.1)
        else:
            arch_.update_pose(copy.deepcopy(frame))


@check.sub(quick=300, need=("free", "occupied", "several"))
def container(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    group = MultiObstacleContainer()
    position = rng.uniform(-4, 4, size=dim)
    require(len(group) == 0 and group.is_collision_free(position) and group.is_in_free_space(position), "an empty container is free")
    trees = []
    for _ in range(int(rng.integers(1, 5))):
        layout = world.tree_layout(rng, dim, max_components=3)
        frame = world.pose(rng, dim, spread=4)
        trees.append(world.build_tree(layout, frame))
        group.append(trees[-1])
    ctx.count("several", len(trees) > 1)
    require(len(group) == len(trees) and all(a is b for a, b in zip(group, trees)), "container iterates its obstacles in order")
    for ii, tree in enumerate(trees):
        require(group.get_tree(ii) is tree and group.get_obstacle_tree(ii) is tree, "obstacle by index")
    for _ in range(10):
        tree = trees[int(rng.integers(len(trees)))]
        part = tree[int(rng.integers(len(tree)))]
        position = world.surface_point(rng, part, offset=float(rng.choice([-0.1, 1e-3, 0.3, 3.0])))
        gammas = [obs.get_gamma(position, in_global_frame=True) for tt in trees for obs in tt]
        if abs(min(gammas) - 1) < 1e-8:
            continue
        free = min(gammas) > 1
        close(group.get_gamma(position), min(gammas), 1e-9, "distance is the one of the closest obstacle")
        require(bool(group.is_collision_free(position)) == free, "free space is outside of all obstacles")
        require(bool(group.is_in_free_space(position)) == free, "free space is outside of all obstacles")
        ctx.count("free" if free else "occupied")
        ctx.state(position, min(gammas))


@check.sub(quick=300, need=("free", "occupied", "chained"))
def ellipses(rng, ctx):
    """MultiEllipseObstacle: parents and references by identifier."""
    body = MultiEllipseObstacle()
    parts = []
    number = int(rng.integers(1, 5))
    parents = [-1]
    for ii in range(number):
        if ii == 0:
            at = world.pose(rng, 2)
        else:
            parents.append(int(rng.integers(ii)))
            base = parts[parents[ii]]
            at = Pose(base.pose.position + gen.unit(rng, 2) * np.min(base.axes_length) * rng.uniform(0.2, 0.6), rng.uniform(-3, 3))
        parts.append(EllipseWithAxes(axes_length=rng.uniform(0.8, 3, size=2), pose=at, margin_absolut=float(rng.choice([0, 0.1]))))
    # Any order of the identifiers (the root is not always first)
    order = [int(oo) for oo in rng.permutation(number)]
    place = {old: new for new, old in enumerate(order)}
    for old in order:
        body.append(parts[old])
    require(body.n_components == number, "number of components")
    require(all(body.get_component(place[ii]) is parts[ii] for ii in range(number)), "component by identifier")
    body.set_root(obs_id=place[0])
    require(body.root_idx == place[0], "root identifier")
    for ii in range(1, number):
        body.set_parent(place[ii], parent_id=place[parents[ii]])
        require(body.get_parent_idx(place[ii]) == place[parents[ii]], "parent of the component")
        point = parts[ii].get_reference_point(in_global_frame=True)
        for obs in (parts[ii], parts[parents[ii]]):
            require(obs.get_gamma(point, in_global_frame=True) < 1.02, "reference point is within the component and its parent")
        ctx.count("chained")
        try:
            body.set_parent(place[ii], parent_id=place[parents[ii]])
        except NotImplementedError:
            pass
        else:
            require(False, "a second parent is rejected")
    try:
        body.set_root(obs_id=place[0])
    except NotImplementedError:
        pass
    else:
        require(False, "a second root is rejected")
    for _ in range(8):
        position = world.surface_point(rng, parts[int(rng.integers(number))], offset=float(rng.choice([-0.1, 1e-3, 0.3, 3.0])))
        gammas = [obs.get_gamma(position, in_global_frame=True) for obs in parts]
        if abs(min(gammas) - 1) < 1e-8:
            continue
        close(body.get_gamma(position), min(gammas), 1e-9, "distance is the one of the closest component")
        require(bool(body.is_inside(position)) == (min(gammas) < 1), "inside of any component")
        ctx.count("free" if min(gammas) > 1 else "occupied")
    ctx.state(*[p.pose.position for p in parts])
