"""P17: learned deviations reproduce the data and stay in the stable half-space."""
import numpy as np
from numpy import linalg as LA

from vt import gen
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.dynamics import (
    ConstantRegressor,
    DeviationOfConstantFlow,
    MultiOutputSVR,
    PerpendicularDeviatoinOfLinearDS,
)

check = Check(
    "P17",
    rule="random training data (with an interpolating regressor and with support vectors), evaluated "
    "at the data and elsewhere; non-trivial: distinct (data, probe)",
)


class Nearest:
    """Interpolates the data, i.e., it returns the value of the nearest sample."""

    def fit(self, X, y):
        self.X, self.y = np.array(X), np.array(y)

    def predict(self, X):
        return np.array([self.y[np.argmin(LA.norm(self.X - xx, axis=1))] for xx in X])


class Wild:
    """Predicts whatever."""

    def __init__(self, rng, scale):
        self.rng, self.scale = rng, scale

    def fit(self, X, y):
        self.width = y.shape[1]

    def predict(self, X):
        return self.rng.normal(size=(X.shape[0], self.width)) * self.scale

    def __deepcopy__(self, memo):
        return Wild(self.rng, self.scale)


def _angle(vec0, vec1):
    return np.arccos(np.clip(vec0 @ vec1 / LA.norm(vec0) / LA.norm(vec1), -1, 1))


@check.sub(quick=1500, need=("at-data", "clipped", "wild", "inconsistent", "constant"))
def constant_flow(rng, ctx):
    dim = int(rng.choice([2, 3, 4]))
    reference = gen.unit(rng, dim) * gen.magnitude(rng)
    speed = LA.norm(reference)
    limit = 0.99 * np.pi / 2
    kind = rng.choice(["nearest", "wild", "constant"])
    n_data = int(rng.integers(2, 12))
    X = rng.uniform(-5, 5, size=(n_data, dim))
    y = np.array([gen.rotated_by(rng, reference, rng.uniform(0, 3.0)) * gen.magnitude(rng) for _ in range(n_data)])
    if kind == "constant":
        value = rng.normal(size=dim - 1) * rng.choice([0, 0.3, 5])
        flow = DeviationOfConstantFlow(reference.copy(), ConstantRegressor(value))
        close(flow.predict(X), np.tile(value, (n_data, 1)), 0, "constant regressor predicts its value for each sample")
        ctx.count("constant")
    else:
        flow = DeviationOfConstantFlow(reference.copy(), Nearest() if kind == "nearest" else Wild(rng, 10.0 ** rng.uniform(-1, 2)))
        flow.fit_from_velocities(X.copy(), y.copy())
        for bad_x, bad_y in ((X[1:], np.zeros((n_data, dim - 1))), (X, np.zeros((n_data, dim)))):
            try:
                DeviationOfConstantFlow(reference.copy(), Nearest()).fit(bad_x, bad_y)
            except ValueError:
                ctx.count("inconsistent")
            else:
                require(False, "inconsistent training data is refused")
    require(flow.dimension == dim, "dimension of the flow")
    for _ in range(4):
        ind = int(rng.integers(n_data))
        position = X[ind].copy() if rng.uniform() < 0.6 else rng.uniform(-20, 20, size=dim)
        at_data = np.array_equal(position, X[ind])
        vel = flow.evaluate(position)
        finite(vel, "velocity finite")
        ctx.state("flow", X, position)
        close(LA.norm(vel), speed, 1e-6 * speed, "speed of the deviated flow is the one of the reference")
        require(vel @ reference > 0, "deviated flow advances along the reference", angle=_angle(vel, reference))
        require(_angle(vel, reference) <= limit + 1e-6, "deviation is limited", angle=_angle(vel, reference))
        deviation = flow.evaluate_deviation(position)
        require(LA.norm(deviation) <= limit + 1e-9, "deviation is limited", deviation=deviation)
        close(flow.evaluate_convergence_velocity(position), reference, 0, "convergence velocity is the reference")
        gradient = flow.get_lyapunov_gradient_direction(position)
        require(_angle(gradient, reference) < 1e-6, "Lyapunov direction is the reference")
        if kind == "wild":
            ctx.count("wild")
        if kind == "nearest" and at_data:
            free = flow.evaluate_without_lyapunov_check(position)
            close(free / speed, y[ind] / LA.norm(y[ind]), 1e-6, "the learned data is reproduced without check", want=y[ind])
            want = _angle(y[ind], reference)
            if want <= limit:
                close(vel / speed, y[ind] / LA.norm(y[ind]), 1e-6, "the learned data is reproduced", want=y[ind])
                ctx.count("at-data")
            else:
                # the direction is kept: in the plane of reference and data, at the limit
                base = reference / speed
                side = y[ind] - base * (y[ind] @ base)
                if LA.norm(side) > 1e-3 * LA.norm(y[ind]):
                    expected = np.cos(limit) * base + np.sin(limit) * side / LA.norm(side)
                    close(vel / speed, expected, 1e-6, "too large deviations are reduced towards the reference")
                    ctx.count("clipped")


@check.sub(quick=150, need=("outputs",))
def support_vectors(rng, ctx):
    from sklearn.svm import SVR

    kwargs = {"kernel": "rbf", "gamma": float(rng.choice([0.05, 0.5]))}
    n_in, n_out, n_data = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(4, 30))
    X, y = rng.normal(size=(n_data, n_in)), rng.normal(size=(n_data, n_out))
    model = MultiOutputSVR(**kwargs)
    model.fit(X, y)
    probe = rng.normal(size=(5, n_in))
    got = model.predict(probe)
    require(got.shape == (5, n_out), "one prediction for each sample and output", shape=got.shape)
    for ii in range(n_out):
        close(got[:, ii], SVR(**kwargs).fit(X, y[:, ii]).predict(probe), 1e-9, "outputs are predicted independently", output=ii)
    require(model.n_features_in_ == n_in and model.n_features_out_ == n_out, "number of features")
    ctx.count("outputs")
    ctx.state("svr", X, probe)


@check.sub(quick=1200, need=("at-data", "attractor", "near", "far", "axis", "wild", "unseen", "predicted"))
def perpendicular(rng, ctx):
    dim = int(rng.choice([2, 2, 3]))
    attractor = rng.uniform(-4, 4, size=dim) * rng.choice([0, 1])
    n_data = int(rng.integers(2, 12))
    relative = rng.uniform(-5, 5, size=(n_data, dim))
    if rng.uniform() < 0.3:  # only a part of the space has been seen
        relative[:, 0] = abs(relative[:, 0])
        ctx.count("unseen")
    limit = 0.49 * np.pi
    # velocities which approach the attractor along all axes
    y = np.array([-np.sign(rel) * rng.uniform(0.1, 1, size=dim) * gen.magnitude(rng) for rel in relative])
    wild = rng.uniform() < 0.3
    system = PerpendicularDeviatoinOfLinearDS(
        attractor.copy(), regressor=Wild(rng, 10.0 ** rng.uniform(-1, 2)) if wild else Nearest()
    )
    require(system.dimension == dim, "dimension of the system")
    close([system.get_velocity_factor(dd) for dd in (0.0, 0.5, 2.0)], [0, 0.5, 1], 1e-12, "speed is limited to one by default")
    prox, fast = 1.0, 1.0
    if rng.integers(3) == 0:
        system.prox_distance, system.max_velocity = prox, fast = float(rng.uniform(0.2, 4)), float(rng.uniform(0.2, 4))
        ctx.count("limits")
    system.fit_from_velocities(relative + attractor, y.copy())
    require(system.n_features_in_ == dim and system.n_features_out_ == dim, "number of features")
    close(system.evaluate(attractor.copy()), np.zeros(dim), 0, "zero velocity at the attractor")
    close(system.evaluate_convergence_velocity(attractor.copy()), np.zeros(dim), 0, "zero convergence velocity at the attractor")
    close(system.get_lyapunov_gradient_direction(attractor.copy()), np.zeros(dim), 0, "zero Lyapunov direction at the attractor")
    ctx.count("attractor")
    for _ in range(4):
        ind = int(rng.integers(n_data))
        kind = rng.choice(["data", "near", "far", "axis"])
        if kind == "data":
            rel = relative[ind].copy()
        elif kind == "axis":
            rel = np.zeros(dim)
            axis = int(rng.integers(dim))
            rel[axis] = rng.choice([-1, 1]) * 2.0 ** rng.integers(-3, 4)
        else:
            rel = gen.unit(rng, dim) * (rng.uniform(0.01, 1) if kind == "near" else rng.uniform(1, 50))
        position = rel + attractor
        rel = position - attractor
        dist = LA.norm(rel)
        vel = system.evaluate(position)
        finite(vel, "velocity finite")
        ctx.state("perp", relative, position)
        close(LA.norm(vel), fast * min(1, dist / prox), 1e-6 * max(1, fast), "speed is one and decreases linearly towards the attractor", relative=rel)
        weights = system.get_weights(rel)
        close(weights, abs(rel) / np.sum(abs(rel)), 1e-9, "the further along an axis, the higher its weight")
        conv = system.evaluate_convergence_velocity(position)
        close(conv, -rel / dist * fast * min(1, dist / prox), 1e-6 * max(1, fast), "convergence velocity is the limited linear one", relative=rel)
        close(system.get_lyapunov_gradient_direction(position), -rel / dist, 1e-9, "Lyapunov direction points to the attractor")
        if kind == "axis" and abs(rel[axis]) > 0 and np.count_nonzero(rel) == 1:
            inward = np.zeros(dim)
            inward[axis] = -np.sign(rel[axis])
            require(_angle(vel, inward) <= limit + 1e-6, "motion on an axis approaches the attractor", velocity=vel, relative=rel)
            ctx.count("axis")
        if wild:
            ctx.count("wild")
        elif kind == "data":
            want = y[ind] / LA.norm(y[ind])
            angles = [_angle(want, -np.sign(rel[dd]) * np.eye(dim)[dd]) for dd in range(dim)]
            if max(angles) < limit and np.min(abs(rel)) > 1e-6:
                close(vel / LA.norm(vel), want, 1e-6, "the learned data is reproduced", relative=rel)
                ctx.count("at-data")
        if kind in ("near", "far"):
            ctx.count(str(kind))
        if dim == 2 and not wild:
            got = system.predict(np.vstack((position, attractor)))
            sine = (rel[0] * vel[1] - rel[1] * vel[0]) / dist / LA.norm(vel)
            close(got, np.array([[sine], [0.0]]), 1e-6, "predicted deviation is the sine between position and velocity")
            ctx.count("predicted")
