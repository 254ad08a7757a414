"""P02: sequences of rotations."""
import warnings

import numpy as np
from numpy import linalg as LA

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance import vector_rotation as vr
from nonlinear_avoidance.dynamics.sequenced_dynamics import evaluate_dynamics_sequence

check = Check(
    "P02",
    rule="chains of 2-7 directions in 2-5 dimensions with repeated / (nearly) parallel members; "
    "non-trivial: at least one rotation is nonzero",
    assumptions=[
        "no exactly opposite neighbours (these are rejected by a ValueError, which is checked)",
    ],
)


def chain(rng, dim, length, max_angle=np.pi - 0.02):
    vectors = [gen.unit(rng, dim)]
    for _ in range(length - 1):
        kind = rng.integers(6)
        if kind == 0:
            vectors.append(np.copy(vectors[-1]))
        elif kind == 1 and vectors[-1] @ (cand := gen.unit(rng, dim)) > -0.99:
            vectors.append(cand)
        else:
            vectors.append(gen.rotated_by(rng, vectors[-1], gen.angle_special(rng, max_angle)))
    return np.vstack(vectors).T


def check_sequence(seq, vectors, tol=1e-6, prefix="sequence"):
    nn = vectors.shape[1] - 1
    require(seq.n_rotations == nn, f"{prefix}: number of rotations", got=seq.n_rotations, expected=nn)
    require(seq.rotation_angles.shape == (nn,), f"{prefix}: one angle per rotation")
    require(seq.dimension == vectors.shape[0], f"{prefix}: dimension")
    finite(seq.basis_array, f"{prefix}: finite base")
    finite(seq.rotation_angles, f"{prefix}: finite angles")
    for ii in range(nn):
        base = seq.basis_array[:, ii, :]
        close(base.T @ base, np.eye(2), 1e-7, f"{prefix}: orthonormal base of each rotation", ii=ii)
        close(seq.basis_array[:, ii, 0], vectors[:, ii], 1e-6 if ii else 1e-9, f"{prefix}: vectors are kept", ii=ii)
        close(
            seq.rotation_angles[ii],
            gen.angle_between(vectors[:, ii], vectors[:, ii + 1]),
            tol,
            f"{prefix}: angle between neighbours",
        )
    close(seq.get_end_vector(), vectors[:, -1], tol, f"{prefix}: end vector is the last vector")


@check.sub(quick=5000, need=("zero_rotation", "single"))
def built_from_vectors(rng, ctx):
    dim = gen.dim(rng)
    length = int(rng.integers(2, 8))
    vectors = chain(rng, dim, length)
    scaled = vectors * np.array([gen.magnitude(rng) for _ in range(length)])
    seq = vr.VectorRotationSequence.create_from_vector_array(gen.frozen(scaled))
    check_sequence(seq, vectors)
    angles = [gen.angle_between(vectors[:, i], vectors[:, i + 1]) for i in range(length - 1)]
    ctx.count("single", length == 2)
    ctx.count("zero_rotation", min(angles) < 1e-9)

    # Applying the whole sequence to its first vector gives the last one
    close(seq.rotate(vectors[:, 0]), vectors[:, -1], 5e-4, "rotating the first vector reaches the end")
    other = gen.unit(rng, dim) * gen.magnitude(rng)
    out = seq.rotate(gen.frozen(other))
    close(LA.norm(out) / LA.norm(other), 1, 1e-7, "the sequence preserves lengths")
    model = other
    for ii in range(length - 1):
        base = seq.basis_array[:, ii, :]
        cc, ss = np.cos(seq.rotation_angles[ii]), np.sin(seq.rotation_angles[ii])
        model = model - base @ (base.T @ model) + base @ (np.array([[cc, -ss], [ss, cc]]) @ (base.T @ model))
    close(out / LA.norm(other), model / LA.norm(other), 1e-6, "the sequence composes its rotations")
    close(seq.rotate(vectors[:, 0], rot_factor=0.0), vectors[:, 0], 1e-5, "factor zero keeps the direction")

    # Weight fully on one member -> this member is reached
    kk = int(rng.integers(length - 1))
    ww = np.zeros(length - 1)
    ww[kk] = 1.0
    close(
        seq.rotate_weighted(vectors[:, 0], ww), vectors[:, kk + 1], 5e-4,
        "all weight on one rotation reaches its vector", kk=kk,
    )
    ww = gen.weights(rng, length - 1)
    basis, angl = np.copy(seq.basis_array), np.copy(seq.rotation_angles)
    out = seq.rotate_weighted(other, gen.frozen(ww))
    close(LA.norm(out) / LA.norm(other), 1, 1e-7, "weighted rotation preserves lengths")
    close(seq.basis_array, basis, 0, "evaluation leaves the sequence unchanged")
    close(seq.rotation_angles, angl, 0, "evaluation leaves the sequence unchanged")

    # Partial rotations, one after the other: what precedes is turned back only as far as needed
    cumulated = np.cumsum(ww[::-1])[::-1]

    def plane(ii, fraction):
        base = seq.basis_array[:, ii, :]
        cc, ss = np.cos(fraction * seq.rotation_angles[ii]), np.sin(fraction * seq.rotation_angles[ii])
        return np.eye(dim) - base @ base.T + base @ np.array([[cc, -ss], [ss, cc]]) @ base.T

    frame, model = np.eye(dim), other
    for ii in range(length - 1):
        model = frame @ plane(ii, cumulated[ii]) @ frame.T @ model
        frame = frame @ plane(ii, cumulated[ii] - 1)
    close(out / LA.norm(other), model / LA.norm(other), 1e-6, "weighted rotation consists of the partial rotations")
    ctx.count("partial", bool(np.any((cumulated > 0.05) & (cumulated < 0.95))))
    if min(angles) > 1e-3 and max(angles) < np.pi - 1e-2:
        tree = vr.VectorRotationTree.from_sequence(root_id=0, node_id=-1, sequence=seq)
        nodes = [(-1, ii) for ii in range(1, length - 1)] + [-1]
        close(
            tree.get_weighted_mean(nodes, ww), seq.rotate_weighted(vectors[:, 0], ww), 1e-5,
            "weighted rotation agrees with the chain of a direction-tree",
        )

    # Same shape in any orientation
    mat = gen.rotation_matrix(rng, dim)
    if min([a for a in angles if a > 0] or [1]) > 1e-3:
        seq2 = vr.VectorRotationSequence.create_from_vector_array(mat @ vectors)
        close(
            seq2.rotate_weighted(mat @ vectors[:, 0], ww),
            mat @ seq.rotate_weighted(vectors[:, 0], ww),
            1e-6,
            "weighted rotation does not depend on the frame",
        )
    if max(angles) > 1e-6:
        ctx.state(dim, vectors, ww)
    ctx.sample("chain", vectors=vectors, angles=seq.rotation_angles, weights=ww)


@check.sub(quick=1500)
def two_vector_weighting(rng, ctx):
    """With a single rotation, the weight is the fraction of the angle."""
    dim = gen.dim(rng)
    v1 = gen.unit(rng, dim)
    angle = rng.uniform(0.05, 3.0)
    v2 = gen.rotated_by(rng, v1, angle)
    seq = vr.VectorRotationSequence.create_from_vector_array(np.vstack((v1, v2)).T)
    ww = float(rng.uniform())
    out = seq.rotate(v1, rot_factor=ww)
    close(gen.angle_between(v1, out), ww * angle, 1e-6, "fraction of the angle")
    close(gen.angle_between(v2, out), (1 - ww) * angle, 1e-6, "fraction of the angle")
    ctx.state(dim, v1, v2, ww)


@check.sub(quick=2500, need=("appended", "pushed"))
def extended_sequences(rng, ctx):
    dim = gen.dim(rng)
    length = int(rng.integers(3, 7))
    vectors = chain(rng, dim, length, max_angle=3.0)
    base_length = int(rng.integers(2, length))
    # Append at the tip
    seq = vr.VectorRotationSequence.create_from_vector_array(vectors[:, :base_length])
    for ii in range(base_length, length):
        if rng.uniform() < 0.5:
            rot = vr.VectorRotationXd.from_directions(vectors[:, ii - 1], vectors[:, ii])
            seq.append_from_base_and_angle(rot.base, rot.rotation_angle)
        else:
            seq.append_from_direction(vectors[:, ii])
        ctx.count("appended")
    check_sequence(seq, vectors, tol=1e-6, prefix="appended")
    # Push at the root
    seq = vr.VectorRotationSequence.create_from_vector_array(vectors[:, 1:])
    rot = vr.VectorRotationXd.from_directions(vectors[:, 0], vectors[:, 1])
    seq.push_root_from_base_and_angle(rot.base, rot.rotation_angle)
    ctx.count("pushed")
    check_sequence(seq, vectors, prefix="pushed")
    # Built up from an empty one
    seq = vr.VectorRotationSequence.create_empty(dim)
    require(seq.n_rotations == 0 and seq.dimension == dim, "empty sequence")
    for ii in range(length - 1):
        rot = vr.VectorRotationXd.from_directions(vectors[:, ii], vectors[:, ii + 1])
        seq.append_from_base_and_angle(rot.base, rot.rotation_angle)
    check_sequence(seq, vectors, prefix="from empty")
    ctx.state(dim, vectors)


@check.sub(quick=400, need=("opposite_rejected", "zero_rejected"))
def invalid_is_rejected(rng, ctx):
    dim = gen.dim(rng)
    v1 = np.zeros(dim)
    v1[rng.integers(dim)] = rng.choice([-1.0, 1.0])
    length = int(rng.integers(1, 4))
    vecs = [v1]
    for _ in range(length):
        vecs.append(gen.unit(rng, dim))
    where = int(rng.integers(len(vecs)))
    bad = list(vecs)
    bad[where] = np.zeros(dim)
    try:
        vr.VectorRotationSequence.create_from_vector_array(np.vstack(bad).T)
    except ValueError:
        ctx.count("zero_rejected")
    else:
        require(False, "zero vectors have to be rejected")
    try:
        vr.VectorRotationSequence.create_from_vector_array(np.vstack((v1, -v1)).T)
    except ValueError:
        ctx.count("opposite_rejected")
    else:
        require(False, "opposite neighbours have to be rejected")
    ctx.state(dim, np.vstack(bad))


class _Field:
    """Arbitrary vector field."""

    def __init__(self, func, attractor=None):
        self.evaluate = func
        if attractor is not None:
            self.attractor_position = attractor


@check.sub(quick=2500, need=("with_attractor", "with_default", "plain", "zero"))
def sequence_of_dynamics(rng, ctx):
    """The direction sequence of a dynamical system ends in its velocity direction."""
    dim = gen.dim(rng, 2, 4)
    attractor = rng.normal(size=dim)
    position = attractor + gen.unit(rng, dim) * gen.magnitude(rng)
    base = attractor - position
    velocity = gen.rotated_by(rng, base, gen.angle_special(rng, 3.0)) * gen.magnitude(rng)
    kind = rng.integers(4)
    if kind == 0:
        field = _Field(lambda x: velocity, attractor)
        seq = evaluate_dynamics_sequence(gen.frozen(position), field)
        start = base
        ctx.count("with_attractor")
    elif kind == 1:
        field = _Field(lambda x: velocity, attractor if rng.uniform() < 0.5 else None)
        start = gen.rotated_by(rng, velocity, rng.uniform(0, 3.0)) * gen.magnitude(rng)
        seq = evaluate_dynamics_sequence(position, field, default_dynamics=_Field(lambda x: start))
        ctx.count("with_default")
    elif kind == 2:
        seq = evaluate_dynamics_sequence(position, _Field(lambda x: velocity))
        start = velocity
        ctx.count("plain")
    else:
        zero_at = rng.integers(2)
        if zero_at:
            res = evaluate_dynamics_sequence(position, _Field(lambda x: np.zeros(dim), attractor))
        else:
            res = evaluate_dynamics_sequence(attractor, _Field(lambda x: velocity, attractor))
        require(res is None, "no direction at a standstill")
        ctx.count("zero")
        return
    require(seq is not None, "a moving system has a direction")
    close(seq.get_end_vector(), velocity / LA.norm(velocity), 1e-6, "sequence ends in the velocity direction")
    close(seq.basis_array[:, 0, 0], start / LA.norm(start), 1e-6, "sequence starts in the base direction")
    ctx.state(dim, position, velocity)
