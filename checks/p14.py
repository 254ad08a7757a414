"""P14: the human body stays connected and follows its measurements."""
import contextlib
import copy
import io

import numpy as np
from numpy import linalg as LA
from scipy.spatial.transform import Rotation
from vartools.dynamical_systems import LinearSystem
from vartools.states import ObjectPose, Pose

from vt import gen, world
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance import multi_body_human as human
from nonlinear_avoidance.multi_obstacle_avoider import MultiObstacleAvoider
from nonlinear_avoidance.multi_obstacle_container import MultiObstacleContainer
from nonlinear_avoidance.rigid_body import RigidBody

check = Check(
    "P14",
    rule="random bodies of 1 to 6 limbs in 2D/3D under histories of limb motions and of (partial, "
    "shuffled, unknown) measurements, with and without robot frame; the predefined humans; "
    "non-trivial: distinct configuration",
    assumptions=["the robot frame is not rotated by measurements (only its position is tracked)"],
)


def _quiet(func, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return func(*args, **kwargs)


class _Robot:
    def __init__(self, rng):
        self.pose = ObjectPose(position=rng.normal(size=3), orientation=Rotation.from_matrix(gen.rotation_matrix(rng, 3)))
        self.optitrack_id = 1000
        self.published = 0

    def publish_robot_transform(self):
        self.published += 1


class _Updater:
    def __init__(self):
        self.messages = []

    def get_messages(self):
        return self.messages


class _Viewer:
    def __init__(self):
        self.seen = []

    def update(self, obstacles):
        self.seen.append(obstacles)


def _build(rng, dim, tracked=False, **kwargs):
    body = human.MultiBodyObstacle(**kwargs)
    body.dimension = dim
    model = []
    number = int(rng.integers(1, 7))
    ids = [int(ii) for ii in rng.permutation(50)[:number]]
    for ii in range(number):
        obs = world.obstacle(rng, dim, at=world.pose(rng, dim, trivial=0.0), margin_absolut=0.0)
        update_id = ids[ii] if tracked and rng.uniform() < 0.6 else None
        name = f"part{rng.integers(1000)}-{ii}"
        if ii == 0:
            body.set_root(obs, name=name, update_id=update_id)
            model.append(dict(obs=obs, parent=None, name=name, id=update_id))
            continue
        parent = int(rng.integers(ii))
        own, other = rng.normal(size=dim) * 0.3, rng.normal(size=dim) * 0.3
        body.add_component(
            obs, name=name, reference_position=own.tolist(), parent_name=model[parent]["name"],
            parent_reference_position=other.tolist(), update_id=update_id,
        )
        model.append(dict(obs=obs, parent=parent, name=name, id=update_id, own=own, other=other))
    return body, model


def _joint(model, item):
    parent = model[item["parent"]]["obs"]
    return (
        item["obs"].pose.transform_position_from_relative(item["own"]),
        parent.pose.transform_position_from_relative(item["other"]),
    )


def _matrix(pose):
    return np.array([pose.transform_direction_from_relative(ee) for ee in np.eye(pose.dimension)]).T


def _monitor(body, model, ctx):
    require(body.n_components == len(model), "number of components")
    for ii, item in enumerate(model):
        require(body.get_component(ii) is body[ii], "component by index")
        require(body.get_parent_idx(ii) == item["parent"], "parent of the limb")
        require(body.get_name(ii) == item["name"] and body.get_obstacle_id_from_name(item["name"]) == ii, "limb by name")
        if item["parent"] is not None:
            own, other = _joint(model, item)
            close(own, other, 1e-9 * (1 + LA.norm(own)), "limb is attached to the joint of its parent", limb=ii)
            close(item["obs"].get_reference_point(in_global_frame=False), item["own"], 1e-12, "joint is the reference point of the limb")
            ctx.count("joint")


@check.sub(quick=600, need=("joint", "gamma"))
def attached(rng, ctx):
    dim = int(rng.choice([2, 3, 3]))
    viewer = _Viewer()
    body, model = _build(rng, dim, visualization_handler=viewer)
    for step in range(int(rng.integers(1, 5))):
        for item in model:
            if rng.uniform() < 0.5:
                item["obs"].pose = world.pose(rng, dim, trivial=0.0)
        turned = [_matrix(it["obs"].pose) for it in model]
        root = np.array(model[0]["obs"].pose.position)
        if rng.uniform() < 0.5:
            _quiet(body.update)
            require(viewer.seen and len(viewer.seen[-1]) == len(model), "visualization is updated")
        else:
            body.align_obstacle_tree()
        _monitor(body, model, ctx)
        close(body.get_pose().position, root, 0, "the root remains in place")
        require(body.get_root() is model[0]["obs"] and body.root_id == 0, "root of the body")
        for item, mat in zip(model, turned):
            close(_matrix(item["obs"].pose), mat, 1e-12, "aligning does not rotate the limbs")
        for _ in range(4):
            position = world.surface_point(rng, model[int(rng.integers(len(model)))]["obs"], offset=float(rng.choice([-0.1, 0.01, 1.0])))
            want = min(it["obs"].get_gamma(position, in_global_frame=True) for it in model)
            close(body.get_gamma(position), want, 1e-12, "distance is the one of the closest limb")
            ctx.count("gamma")
        ctx.state(*[it["obs"].pose.position for it in model])


@check.sub(quick=800, need=("joint", "root_measured", "limb_measured", "limb_free", "robot_moved", "unknown"))
def tracked(rng, ctx):
    updater, robot = _Updater(), (_Robot(rng) if rng.uniform() < 0.6 else None)
    body, model = _build(rng, 3, tracked=True, pose_updater=updater, robot=robot)
    for ii, item in enumerate(model):
        require(body.get_update_id(ii) == item["id"], "tracking identifier of the limb")
        if item["id"] is not None:
            require(body.get_obstacle_id_from_optitrackid(item["id"]) == ii, "limb by tracking identifier")
    require(body.optitrack_indeces == [-1 if it["id"] is None else it["id"] for it in model], "list of the tracking identifiers")
    for step in range(int(rng.integers(1, 5))):
        messages = {}
        for item in model:
            if item["id"] is not None and rng.uniform() < 0.7:
                messages[item["id"]] = RigidBody(item["id"], rng.normal(size=3) * 2, Rotation.from_matrix(gen.rotation_matrix(rng, 3)))
        if rng.uniform() < 0.3:
            unknown = int(rng.choice([-1, 77, 500]))
            messages[unknown] = RigidBody(unknown, rng.normal(size=3), Rotation.identity())
            ctx.count("unknown")
        if robot is not None and rng.uniform() < 0.5:
            messages[1000] = RigidBody(1000, rng.normal(size=3), Rotation.identity())
        order = [list(messages)[ii] for ii in rng.permutation(len(messages))]
        updater.messages = [messages[oo] for oo in order]
        before = [copy.deepcopy(it["obs"].pose) for it in model]
        published = robot.published if robot else 0
        _quiet(body.update)
        _monitor(body, model, ctx)
        frame = ObjectPose(position=np.zeros(3), orientation=Rotation.identity())
        if robot is not None:
            require(robot.published == published + 1, "robot transform is published")
            if 1000 in messages:
                close(robot.pose.position, messages[1000].position, 1e-12, "position of the robot is the measured one")
                ctx.count("robot_moved")
            frame = robot.pose
        for ii, item in enumerate(model):
            pose = item["obs"].pose
            message = messages.get(item["id"]) if item["id"] is not None else None
            if ii == 0:
                if message is None:
                    close(pose.position, before[0].position, 1e-12, "unmeasured root remains")
                    close(_matrix(pose), _matrix(before[0]), 1e-12, "unmeasured root remains")
                    continue
                ctx.count("root_measured")
                want = frame.transform_position_to_relative(message.position)
                close(pose.position[:2], want[:2], 1e-9, "measured root in the frame of the robot")
                close(pose.position[2], 0.2, 1e-12, "root is at fixed height")
                mat = _matrix(pose)
                close(mat[:, 2], [0, 0, 1], 1e-9, "root is upright")
                turned = _matrix(frame).T @ message.rotation.as_matrix()
                euler = Rotation.from_matrix(turned).as_euler("zyx")
                close(mat[:2, :2], gen.rotation2d(euler[0]), 1e-7, "root has the measured heading")
                continue
            if message is None:
                ctx.count("limb_free")
                close(_matrix(pose), _matrix(model[item["parent"]]["obs"].pose), 1e-9, "unmeasured limb follows the orientation of its parent")
                continue
            ctx.count("limb_measured")
            joint = _joint(model, item)[1]
            axis = frame.transform_position_to_relative(message.position) - joint
            if LA.norm(axis) < 1e-3:
                continue
            close(_matrix(pose)[:, 2], axis / LA.norm(axis), 1e-7, "measured limb points from its joint to the measured position", limb=ii)
            close(_matrix(pose) @ _matrix(pose).T, np.eye(3), 1e-9, "orientation of the limb is a rotation")
        ctx.state(*[it["obs"].pose.position for it in model])


@check.sub(quick=200)
def aligned_axis(rng, ctx):
    """Delicate directions: (close to) parallel and opposite of the vertical axis."""
    updater = _Updater()
    body = human.MultiBodyObstacle(pose_updater=updater)
    body.set_root(world.obstacle(rng, 3, at=Pose(np.zeros(3), Rotation.identity())), name="root")
    own, other = rng.normal(size=3) * 0.3, rng.normal(size=3) * 0.3
    limb = world.obstacle(rng, 3, at=Pose(np.zeros(3), Rotation.identity()))
    body.add_component(limb, name="limb", reference_position=own, parent_name="root", parent_reference_position=other, update_id=4)
    vertical = np.array([0, 0, rng.choice([-1.0, 1.0])])
    axis = gen.rotated_by(rng, vertical, gen.angle_special(rng, np.pi))
    if rng.uniform() < 0.2:
        axis = vertical
    updater.messages = [RigidBody(4, other + axis * rng.uniform(0.1, 2), Rotation.identity())]
    _quiet(body.update)
    close(_matrix(limb.pose)[:, 2], axis, 1e-6, "measured limb points from its joint to the measured position", axis=axis)
    close(limb.pose.transform_position_from_relative(own), other, 1e-9, "limb is attached to the joint of its parent")
    ctx.state(axis)


def _connected(obstacles, parents):
    for ii, parent in enumerate(parents):
        if parent is None:
            continue
        point = obstacles[ii].get_reference_point(in_global_frame=True)
        for obs in (obstacles[ii], obstacles[parent]):
            require(obs.get_gamma(point, in_global_frame=True) < 1, "joint is within the limb and its parent", limb=ii)


@check.sub(quick=60, need=("planar", "spatial"))
def predefined(rng, ctx):
    """The humans of the library, also when they move."""
    if rng.uniform() < 0.6:
        multi = _quiet(human.create_2d_human_with_multibodyobstacle)
        body = _quiet(human.create_2d_human)
        require(body.n_components == multi.n_components == 7, "number of limbs of the human")
        parents = [multi.get_parent_idx(ii) for ii in range(7)]
        require([body.get_parent_idx(ii) for ii in range(7)] == parents, "parents of the limbs")
        for _ in range(10):
            position = rng.uniform(-1, 1, size=2)
            close(body.get_gamma(position, in_global_frame=True), multi.get_gamma(position), 1e-9, "transformed human covers the same space")
        _connected(multi._obstacle_list if False else [multi[ii] for ii in range(7)], parents)
        frame = world.pose(rng, 2)
        moved = human.transform_from_multibodyobstacle_to_multiobstacle(
            _quiet(human.create_2d_human_with_multibodyobstacle), base_pose=copy.deepcopy(frame))
        for _ in range(10):
            position = rng.uniform(-1, 1, size=2)
            close(moved.get_gamma(frame.transform_position_from_relative(position), in_global_frame=True), multi.get_gamma(position), 1e-7,
                  "transformed human is placed at its pose")
        body.update_pose(frame)
        _connected(list(body), parents)
        ctx.count("planar")
        ctx.state(frame.position)
    else:
        multi = _quiet(human.create_3d_human)
        parents = [multi.get_parent_idx(ii) for ii in range(multi.n_components)]
        names = ["body", "neck", "head", "upperarm1", "lowerarm1", "upperarm2", "lowerarm2", "leg1", "leg2"]
        require([multi.get_name(ii) for ii in range(multi.n_components)] == names, "limbs of the human")
        up = dict(neck="body", head="neck", upperarm1="body", upperarm2="body", lowerarm1="upperarm1", lowerarm2="upperarm2", leg1="body", leg2="body")
        for name, parent in up.items():
            require(multi.get_parent_idx(multi.get_obstacle_id_from_name(name)) == multi.get_obstacle_id_from_name(parent), "parents of the limbs", limb=name)
        _connected([multi[ii] for ii in range(multi.n_components)], parents)
        for _ in range(int(rng.integers(1, 4))):
            multi[0].pose = world.pose(rng, 3)
            for ii in range(3, multi.n_components):
                if rng.uniform() < 0.3:
                    multi[ii].pose.orientation = Rotation.from_matrix(gen.rotation_matrix(rng, 3))
            _quiet(multi.update)
            _connected([multi[ii] for ii in range(multi.n_components)], parents)
        ctx.count("spatial")
        ctx.state(*[multi[ii].pose.position for ii in range(multi.n_components)])


@check.sub(quick=400, need=("surface", "away"))
def avoided(rng, ctx):
    """The velocity of the avoider does not lead into the human."""
    body = _quiet(human.create_2d_human)
    frame = world.pose(rng, 2, spread=1.0)
    body.update_pose(frame)
    container = MultiObstacleContainer()
    container.append(body)
    attractor = frame.position + gen.unit(rng, 2) * rng.uniform(2, 8)
    dynamics = LinearSystem(attractor_position=attractor, maximum_velocity=1.0)
    avoider = MultiObstacleAvoider.create_with_convergence_dynamics(
        obstacle_container=container, initial_dynamics=dynamics,
        create_convergence_dynamics=True, convergence_radius=0.55 * np.pi,
    )
    for _ in range(4):
        part = int(rng.integers(body.n_components))
        surface = rng.uniform() < 0.6
        position = world.surface_point(rng, body[part], offset=1e-6 if surface else rng.uniform(0.01, 2))
        if body.get_gamma(position, in_global_frame=True) < 1 + 1e-9:
            continue
        if surface:
            others = [body[ii].get_gamma(position, in_global_frame=True) for ii in range(body.n_components) if ii != part]
            normal = body[part].get_normal_direction(position, in_global_frame=True)
            if min(others) < 1.1 or np.pi - gen.angle_between(normal, attractor - position) < 1e-3:
                continue  # Edge between two limbs, or the saddle point
        for func in (avoider.evaluate, avoider.evaluate_sequence):
            velocity = func(gen.frozen(position))
            finite(velocity, "velocity next to the human is finite")
            require(LA.norm(velocity) <= 1.0 + 1e-6, "velocity next to the human is limited")
            if surface:
                require(velocity @ normal > -2e-2, "velocity does not lead into the human", part=part, inward=velocity @ normal, func=func.__name__)
                ctx.count("surface")
            else:
                ctx.count("away")
        ctx.state(position, velocity)
