"""P01: elementary rotation between two directions."""
import numpy as np
from numpy import linalg as LA

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance import vector_rotation as vr

check = Check(
    "P01",
    rule="direction pairs in 2-6 dimensions (random, axis aligned, integer, (nearly) parallel, "
    "(nearly) opposite, unnormalised); non-trivial: the rotation angle is nonzero",
    assumptions=["float64 accuracy: 1e-7"],
)


def _pair(rng, dim):
    v1 = gen.unit(rng, dim)
    if rng.uniform() < 0.3:
        v2 = gen.unit(rng, dim)
        if v1 @ v2 < -1 + 1e-9:
            v2 = gen.perpendicular(rng, v1)
    else:
        v2 = gen.rotated_by(rng, v1, gen.angle_special(rng))
    return v1, v2


def _tol(angle):
    return 1e-7


@check.sub(quick=12000, need=("angle_nonzero", "near_parallel", "near_opposite"))
def maps_first_onto_second(rng, ctx):
    dim = gen.dim(rng, 2, 6)
    v1, v2 = _pair(rng, dim)
    m1, m2 = gen.magnitude(rng), gen.magnitude(rng)
    angle = gen.angle_between(v1, v2)
    tol = _tol(angle)
    rot = vr.VectorRotationXd.from_directions(gen.frozen(v1 * m1), gen.frozen(v2 * m2))
    ctx.count("near_parallel" if angle < 3e-5 else "regular")
    ctx.count("near_opposite", angle > np.pi - 0.05)
    ctx.count("angle_nonzero", angle > 1e-6)

    require(rot.dimension == dim, "dimension of the rotation")
    finite(rot.base, "finite base", v1=v1, v2=v2)
    close(rot.base.T @ rot.base, np.eye(2), 1e-7, "base is orthonormal", v1=v1, v2=v2)
    close(rot.rotation_angle, angle, tol, "rotation angle is the angle of the vectors")
    close(rot.get_first_vector(), v1, 1e-9, "first vector")
    close(rot.base0, v1, 1e-9, "first base vector")
    close(rot.get_second_vector(), v2, tol, "second vector", v1=v1, v2=v2)
    close(rot.rotate(v1), v2, tol, "rotation maps the first onto the second", v1=v1, v2=v2)
    close(rot.inverse_rotate(v2), v1, tol, "inverse maps the second onto the first", v1=v1, v2=v2)
    if angle > 1e-6:
        ctx.state(dim, v1, v2)
    ctx.sample("pair", v1=v1, v2=v2, base=rot.base, angle=rot.rotation_angle)


@check.sub(quick=10000, need=("zero_vector",))
def rigid_and_invertible(rng, ctx):
    dim = gen.dim(rng, 2, 6)
    v1, v2 = _pair(rng, dim)
    rot = vr.VectorRotationXd.from_directions(v1, v2)
    theta = rot.rotation_angle
    n_dirs = 3
    dirs = [gen.unit(rng, dim) * gen.magnitude(rng) for _ in range(n_dirs)]
    dirs[0] = rng.choice([-1, 1]) * v1 * gen.magnitude(rng)
    factor = float(rng.choice([0.0, 1.0, 0.5, -1.0, rng.uniform(-2, 2)]))
    outs = [rot.rotate(gen.frozen(dd), rot_factor=factor) for dd in dirs]
    # Independent model: the plane-rotation matrix
    base = rot.base
    cc, ss = np.cos(theta * factor), np.sin(theta * factor)
    model = (
        np.eye(dim) - base @ base.T + base @ np.array([[cc, -ss], [ss, cc]]) @ base.T
    )
    scale = [max(1e-9, LA.norm(dd)) for dd in dirs]
    for dd, out, sc in zip(dirs, outs, scale):
        finite(out, "finite rotation")
        close(LA.norm(out) / sc, 1.0, 1e-8, "length is preserved", direction=dd, factor=factor)
        close(out / sc, model @ dd / sc, 1e-7, "rotation within the plane only", direction=dd, factor=factor)
        back = rot.rotate(out, rot_factor=-factor)
        close(back / sc, dd / sc, 1e-7, "opposite factor undoes the rotation", direction=dd)
    for ii in range(n_dirs):
        for jj in range(ii):
            close(
                outs[ii] @ outs[jj] / scale[ii] / scale[jj],
                dirs[ii] @ dirs[jj] / scale[ii] / scale[jj],
                1e-7,
                "angles between directions are preserved",
            )
    dd = dirs[1]
    sc = scale[1]
    full = rot.rotate(dd)
    close(rot.inverse_rotate(full) / sc, dd / sc, 1e-7, "inverse_rotate undoes rotate")
    close(rot.inv().rotate(full) / sc, dd / sc, 1e-7, "the inverse undoes the rotation")
    close(rot.rotation_angle, theta, 0, "building the inverse leaves the rotation unchanged")
    f1, f2 = rng.uniform(-1, 1, size=2)
    close(
        rot.rotate(rot.rotate(dd, rot_factor=f1), rot_factor=f2) / sc,
        rot.rotate(dd, rot_factor=f1 + f2) / sc,
        1e-7,
        "partial rotations add up",
    )
    # Zero vector
    close(rot.rotate(np.zeros(dim)), np.zeros(dim), 0, "zero vector stays zero")
    ctx.count("zero_vector")
    # Several directions at once
    array = np.vstack(dirs).T
    out = vr.rotate_array(gen.frozen(array), base=base, rotation_angle=theta * factor)
    expect = np.vstack([model @ dd / sc_ for dd, sc_ in zip(dirs, scale)]).T
    close(out, expect, 1e-7, "array rotation equals the rotation of each (unit) direction")
    if theta > 1e-6 and factor:
        ctx.state(dim, v1, v2, factor)


@check.sub(quick=3000)
def rotates_other_rotations(rng, ctx):
    """Rotating a rotation (or a sequence) rotates everything it does."""
    dim = gen.dim(rng, 2, 5)
    v1, v2 = _pair(rng, dim)
    rot = vr.VectorRotationXd.from_directions(v1, v2)
    factor = float(rng.choice([1.0, 0.5, rng.uniform(-1, 1), rng.uniform(-3, 3)]))
    w1 = gen.unit(rng, dim)
    w2 = gen.rotated_by(rng, w1, rng.uniform(0.1, 2.5))
    other = vr.VectorRotationXd.from_directions(w1, w2)
    before = (np.copy(other.base), other.rotation_angle)
    moved = rot.rotate_vector_rotation(other, rot_factor=factor)
    close(moved.rotation_angle, other.rotation_angle, 1e-9, "angle of a rotated rotation")
    close(moved.get_first_vector(), rot.rotate(w1, rot_factor=factor), 1e-6, "rotated rotation: first vector")
    close(moved.get_second_vector(), rot.rotate(w2, rot_factor=factor), 1e-6, "rotated rotation: second vector")
    close(other.base, before[0], 0, "the rotated rotation is a copy")

    vectors = [w1, w2]
    for _ in range(rng.integers(0, 3)):
        vectors.append(gen.rotated_by(rng, vectors[-1], rng.uniform(0.05, 2.8)))
    seq = vr.VectorRotationSequence.create_from_vector_array(np.vstack(vectors).T)
    start = np.copy(seq.basis_array)
    out = rot.rotate_sequence(seq, rotation_factor=factor)
    close(seq.basis_array, start, 0, "the rotated sequence is a copy")
    close(out.get_end_vector(), rot.rotate(vectors[-1], rot_factor=factor), 1e-6, "rotated sequence: end vector")
    for ii in range(out.n_rotations):
        close(
            out.basis_array[:, ii, 0],
            rot.rotate(vectors[ii], rot_factor=factor),
            1e-6,
            "rotated sequence: intermediate vectors",
        )
    ctx.state(dim, v1, v2, w1, w2)


@check.sub(quick=3000, need=("first_zero", "second_zero"))
def vector_interpolation(rng, ctx):
    dim = gen.dim(rng, 2, 5)
    v1, v2 = _pair(rng, dim)
    m1, m2 = gen.magnitude(rng), gen.magnitude(rng)
    ww = float(rng.choice([0.0, 1.0, rng.uniform()]))
    angle = gen.angle_between(v1, v2)
    res = vr.directional_vector_addition(gen.frozen(v1 * m1), gen.frozen(v2 * m2), ww)
    norm = (1 - ww) * m1 + ww * m2
    close(LA.norm(res) / norm, 1.0, 1e-7, "interpolated vector: magnitude is the weighted magnitude")
    close(gen.angle_between(v1, res), ww * angle, 1e-4, "interpolated vector: partial angle from the first")
    close(gen.angle_between(v2, res), (1 - ww) * angle, 1e-4, "interpolated vector: remaining angle to the second")
    close(
        vr.directional_vector_addition(np.zeros(dim), v2 * m2, ww), v2 * m2 * ww, 1e-9 * m2,
        "interpolation from the zero vector",
    )
    ctx.count("first_zero")
    close(
        vr.directional_vector_addition(v1 * m1, np.zeros(dim), ww), v1 * m1 * (1 - ww), 1e-9 * m1,
        "interpolation to the zero vector",
    )
    ctx.count("second_zero")
    ctx.state(dim, v1, v2, ww)


@check.sub(quick=600)
def opposite_directions(rng, ctx):
    """Half turn: there are many, but one of them has to be returned."""
    dim = gen.dim(rng, 2, 5)
    v1 = gen.unit(rng, dim)
    rot = vr.VectorRotationXd.from_directions(v1 * gen.magnitude(rng), -v1 * gen.magnitude(rng))
    finite(rot.base, "opposite directions: finite base", v1=v1)
    close(rot.base.T @ rot.base, np.eye(2), 1e-6, "opposite directions: orthonormal base", v1=v1)
    close(rot.rotate(v1), -v1, 1e-5, "opposite directions: half turn", v1=v1)
    half = rot.rotate(v1, rot_factor=0.5)
    close(half @ v1, 0.0, 1e-5, "opposite directions: quarter turn at factor 0.5", v1=v1)
    ctx.state(dim, v1)
