"""P23: numerical tools - integration step, clipping, basis and ray projection."""
import numpy as np
from numpy import linalg as LA
from scipy.linalg import expm

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance import utils
from nonlinear_avoidance.gmm_learner import math_tools as mt

check = Check(
    "P23",
    rule="random linear and nonlinear systems, time steps and gains for the integration; random, "
    "degenerate and large vectors for the geometric tools; non-trivial: distinct states",
    assumptions=["integration of autonomous systems; unit vectors for the spanning basis"],
)


def _model_step(func, xx, dt):
    """Classical fourth order Runge-Kutta, from its tableau."""
    table = [[], [0.5], [0, 0.5], [0, 0, 1.0]]
    ks = []
    for row in table:
        ks.append(func(xx + dt * sum((aa * kk for aa, kk in zip(row, ks)), np.zeros_like(xx))))
    return xx + dt * (ks[0] / 6 + ks[1] / 3 + ks[2] / 3 + ks[3] / 6)


def _field(rng, dim):
    mat = rng.normal(size=(dim, dim))
    mat2 = rng.normal(size=(dim, dim))
    off = rng.normal(size=dim)
    kind = rng.integers(3)
    if kind == 0:
        return lambda xx: mat @ (xx - off)
    if kind == 1:
        return lambda xx: np.sin(mat @ xx + off) + np.cos(mat2 @ xx)
    return lambda xx: -xx + np.tanh(mat @ xx) * off


@check.sub(quick=3000)
def one_step(rng, ctx):
    dim = int(rng.integers(1, 5))
    func = _field(rng, dim)
    xx = rng.normal(size=dim) * rng.choice([0.1, 1, 5])
    dt = float(rng.choice([1e-3, 0.01, 0.1, 0.3]))
    gain = float(rng.choice([1, 1, 0.5, -1, 2.5]))
    model = _model_step(lambda pp: func(pp) * gain, xx, dt)
    start = gen.frozen(xx)
    if gain == 1 and rng.integers(2):
        out = mt.rk4(dt, start, func)
    else:
        out = mt.rk4(dt, start, func, rng.normal(size=dim).tolist(), gain)
    scale = 1 + LA.norm(xx) + LA.norm(model)
    close(out, model, 1e-10 * scale, "fourth order integration step", dt=dt, gain=gain)

    # Velocity is carried along, but does not influence the system
    vel = gen.frozen(rng.normal(size=dim))
    seen = []

    def joint(pos_vel):
        require(pos_vel.shape == (2 * dim,), "position and velocity are handed over")
        seen.append(np.copy(pos_vel[dim:]))
        return func(pos_vel[:dim])

    new, step = mt.rk4_pos_vel(dt, start, vel, joint, gain)
    close(new, model, 1e-10 * scale, "fourth order integration step with velocity")
    close(step, new - xx, 1e-10 * scale, "the returned step is the displacement")
    require(len(seen) == 4 and all(np.array_equal(ss, vel) for ss in seen), "the velocity is handed over")
    ctx.state(dim, xx, out)
    ctx.sample("step", x=xx, dt=dt, out=out)


@check.sub(quick=300, need=("order",))
def order_of_convergence(rng, ctx):
    """Global error of a linear system: factor 16 when halving the step."""
    dim = int(rng.integers(1, 4))
    mat = rng.normal(size=(dim, dim))
    xx = gen.unit(rng, dim) if dim > 1 else np.ones(1)
    exact = expm(mat) @ xx
    errors = []
    for number in (10, 20, 40):
        pos = np.copy(xx)
        for _ in range(number):
            pos = mt.rk4(1.0 / number, pos, lambda pp: mat @ pp)
        errors.append(LA.norm(pos - exact))
    # 16 * e(h/2) ~ e(h), unless it is down at the rounding errors
    require(errors[2] <= errors[0] / 100 + 1e-11, "global error is of fourth order", errors=errors)
    ctx.count("order", errors[0] > 1e-9)
    ctx.state(dim, mat)


@check.sub(quick=2500, need=("clipped", "kept"))
def clipping(rng, ctx):
    dim, number = int(rng.integers(1, 5)), int(rng.integers(1, 12))
    vecs = rng.normal(size=(dim, number)) * gen.magnitude(rng)
    vecs[:, rng.uniform(size=number) < 0.15] = 0
    gain, maximum = float(rng.choice([1, 0.3, 4])), float(rng.choice([1, 0.2, 10]))
    out = mt.mag_linear_maximum(gen.frozen(vecs), k=gain, maxMag=maximum)
    close(out, np.minimum(gain * LA.norm(vecs, axis=0), maximum), 1e-12 * (1 + maximum), "clipped magnitude")
    out1 = mt.mag_linear_maximum(vecs)
    close(out1, np.minimum(LA.norm(vecs, axis=0), 1.0), 1e-12, "default clipping")
    ctx.count("clipped", bool(np.any(out == maximum)))
    ctx.count("kept", bool(np.any(out < maximum)))
    ctx.state(vecs)


@check.sub(quick=3000, need=("parallel", "skew"))
def spanning_basis(rng, ctx):
    dim = gen.dim(rng)
    v1 = gen.unit(rng, dim)
    if rng.integers(4) == 0:
        v2 = v1 * rng.choice([-1, 1])
        ctx.count("parallel")
    elif rng.integers(3) == 0:
        v2 = gen.rotated_by(rng, v1, 10 ** rng.uniform(-5, -1))
    else:
        v2 = gen.unit(rng, dim)
        ctx.count("skew")
    base = utils.get_orthonormal_spanning_basis(gen.frozen(v1), gen.frozen(v2))
    finite(base, "spanning basis is finite")
    require(base.shape == (dim, 2), "shape of the spanning basis")
    close(base.T @ base, np.eye(2), 1e-7, "spanning basis is orthonormal", v1=v1, v2=v2)
    close(base[:, 0], v1, 1e-12, "first base vector is the first vector")
    close(base @ (base.T @ v2), v2, 1e-7, "both vectors lie in the spanned plane", v1=v1, v2=v2)
    require(base[:, 1] @ v2 >= -1e-9, "second vector is on the positive side of the plane")
    ctx.state(v1, v2)


@check.sub(quick=4000, need=("behind", "ahead", "degenerate"))
def ray_projection(rng, ctx):
    dim = gen.dim(rng)
    scale = float(10 ** rng.uniform(-2, 2))
    start = rng.normal(size=dim) * scale
    direction = gen.unit(rng, dim) * scale * gen.magnitude(rng)
    if rng.integers(12) == 0:
        direction = np.zeros(dim)
    point = rng.normal(size=dim) * scale * 2
    if rng.integers(6) == 0:
        point = start + direction * rng.uniform(-1, 2)
    ray = np.vstack((start, start + direction)).T
    proj = utils.project_point_onto_ray(gen.frozen(point), gen.frozen(ray))
    direction = ray[:, 1] - ray[:, 0]
    if not LA.norm(direction):
        close(proj, start, 0, "projection onto a degenerate ray is its start")
        ctx.count("degenerate")
        return
    unit = direction / LA.norm(direction)
    along = (proj - start) @ unit
    tol = 1e-9 * (LA.norm(point) + LA.norm(start) + scale)
    require(along >= -tol, "projection is not behind the start of the ray")
    close(start + along * unit, proj, tol, "projection is on the ray")
    best = max(0.0, (point - start) @ unit)
    require(
        LA.norm(proj - point) <= LA.norm(start + best * unit - point) + tol,
        "projection is the closest point of the ray", point=point, ray=ray, proj=proj,
    )
    ctx.count("ahead" if best > 0 else "behind")
    ctx.state(point, ray)
