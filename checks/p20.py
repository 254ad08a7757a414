"""P20: motions learned in the direction space reproduce the demonstrations as a mixture of directions."""
import contextlib
import io
import os
import shutil
import tempfile
from types import SimpleNamespace

import numpy as np
import scipy.io
from numpy import linalg as LA
from scipy.stats import multivariate_normal

from vartools.directional_space import get_angle_space_inverse
from vartools.dynamical_systems import LinearSystem

from vt import gen
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.gmm_learner import direction_space
from nonlinear_avoidance.gmm_learner.graph import GraphGMM
from nonlinear_avoidance.gmm_learner.learner.directional_gmm import DirectionalGMM
from nonlinear_avoidance.gmm_learner.learner.gpr_directional import DirectionalGPR
from nonlinear_avoidance.gmm_learner.learner.svr_directional import DirectionalSVR

check = Check(
    "P20",
    rule="random mixtures of gaussians (also narrow, overlapping, single) and recordings of random "
    "smooth demonstrations with attractor anywhere, loaded from scratch mat-files, probed at the data, "
    "near, and far away; non-trivial: distinct (model, probe)",
)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def _angle(aa, bb):
    aa, bb = aa / LA.norm(aa), bb / LA.norm(bb)
    return np.arctan2(aa[0] * bb[1] - aa[1] * bb[0], aa @ bb)


def _mixture(rng, dim):
    n_comp = int(rng.integers(1, 6))
    means = rng.uniform(-3, 3, size=(n_comp, dim))
    covs = []
    for _ in range(n_comp):
        basis = np.linalg.qr(rng.normal(size=(dim, dim)))[0]
        covs.append(basis @ np.diag(10 ** rng.uniform(-2, 0.5, size=dim)) @ basis.T)
    weights = rng.dirichlet(np.ones(n_comp) * 2)
    return SimpleNamespace(means_=means, covariances_=np.array(covs), weights_=weights, covariance_type="full")


def _learner(gmm, attractor):
    learner = DirectionalGMM()
    learner.dpgmm = gmm
    learner.dim_gmm = gmm.means_.shape[1]
    learner.pos_attractor = attractor
    learner.null_ds = LinearSystem(attractor_position=attractor)
    return learner


def _conditional(gmm, comp, point, ind_in, ind_out):
    """Mean and covariance from the precision matrix."""
    precision = LA.inv(gmm.covariances_[comp])
    block = precision[np.ix_(ind_out, ind_out)]
    mean = gmm.means_[comp, ind_out] - LA.solve(
        block, precision[np.ix_(ind_out, ind_in)] @ (point - gmm.means_[comp, ind_in])
    )
    return mean, LA.inv(block)


@check.sub(quick=150, thorough=20000, need=("density", "capped-sum", "free-sum", "tiny"))
def mixture(rng, ctx):
    gmm = _mixture(rng, 5)
    learner = _learner(gmm, rng.uniform(-2, 2, size=2))
    n_comp = gmm.weights_.shape[0]
    require(learner.n_components == n_comp == learner.n_gaussians, "number of components")
    feat_in = np.arange(2) if rng.integers(2) else np.arange(4)
    feat_out = np.array([4])
    points = []
    for _ in range(int(rng.integers(1, 7))):
        comp = rng.integers(n_comp)
        points.append(gmm.means_[comp, feat_in] + rng.choice([0, 0.3, 2, 30]) * rng.normal(size=feat_in.shape[0]))
    points = np.array(points)
    before = points.copy()
    densities = np.array(
        [
            multivariate_normal(gmm.means_[kk, feat_in], gmm.covariances_[kk][np.ix_(feat_in, feat_in)]).pdf(points).reshape(-1)
            for kk in range(n_comp)
        ]
    )
    got = learner.get_gaussian_probability(points, feat_in=feat_in)
    close(got, densities, 1e-6 * (1 + densities), "gaussian probability is the density of the component")
    got = direction_space.get_gaussianProbability(points, gmm, feat_in)
    close(got, densities, 1e-6 * (1 + densities), "gaussian probability of the direction space")
    joint = gmm.weights_[:, None] * densities
    likely = np.flatnonzero(joint.sum(axis=0) > 1e-250)
    if likely.size:
        want = joint[:, likely] / joint[:, likely].sum(axis=0)
        got = learner.get_mixing_weights(points[likely], feat_in=feat_in, feat_out=feat_out, normalize_probability=True)
        close(got, want, 1e-6, "normalized mixing weights are the responsibilities")
        got = direction_space.get_mixing_weights(points[likely], gmm, feat_in)
        close(got, want, 1e-6, "mixing weights of the direction space")
        ctx.count("density", likely.size)
    if likely.size < points.shape[0] or joint.sum(axis=0).min() < 1e-50:
        ctx.count("tiny")
    got = learner.get_mixing_weights(points, feat_in=feat_in, feat_out=feat_out)
    sums = got.sum(axis=0)
    require(np.all(got >= 0) and np.all(sums <= 1 + 1e-9), "mixing weights are positive with sum of at most one", sums=sums)
    ctx.count("capped-sum", int(np.any(sums > 1 - 1e-9)))
    ctx.count("free-sum", int(np.any(sums < 1 - 1e-6)))
    for jj in likely:
        if sums[jj] > 1e-200:
            close(got[:, jj] / sums[jj], joint[:, jj] / joint[:, jj].sum(), 1e-6, "mixing weights have the ratio of the responsibilities")
    for kk, ii in enumerate(np.argsort(joint.sum(axis=0))[:-1]):
        jj = np.argsort(joint.sum(axis=0))[kk + 1]
        require(sums[ii] <= sums[jj] + 1e-9, "mixing weights grow with the probability")
    means = learner.get_mean_yx(points, feat_in=feat_in, feat_out=feat_out)
    covs = learner.get_covariance_out(feat_in, feat_out)
    single = np.setdiff1d(np.arange(5), feat_in)
    others = direction_space.get_mean_yx(points, gmm, list(feat_in))
    for kk in range(n_comp):
        for jj, point in enumerate(points):
            want, cov = _conditional(_sub(gmm, np.append(feat_in, 4)), kk, point, np.arange(len(feat_in)), [len(feat_in)])
            scale = 1e-6 * (1 + np.abs(want))
            close(means[:, jj, kk], want, scale, "conditional mean of the component")
            close(covs[:, :, kk], cov, 1e-6 * (1 + np.abs(cov)), "conditional covariance of the component")
            want, _ = _conditional(gmm, kk, point, feat_in, single)
            close(others[:, jj, kk], want, 1e-6 * (1 + np.abs(want)), "conditional mean of the direction space")
    close(points, before, 0, "evaluation leaves the points unchanged")
    ctx.state("mix", points)


def _sub(gmm, ind):
    return SimpleNamespace(means_=gmm.means_[:, ind], covariances_=gmm.covariances_[:, ind][:, :, ind])


@check.sub(quick=150, thorough=20000, need=("covered", "between", "far", "batch", "velocity-input", "capped", "pulled"))
def prediction(rng, ctx):
    gmm = _mixture(rng, 5)
    gmm.means_[:, 4] = rng.uniform(-2, 2, size=gmm.means_.shape[0])
    attractor = rng.uniform(-2, 2, size=2)
    learner = _learner(gmm, attractor)
    feat_in = np.arange(2)
    for _ in range(4):
        comp = rng.integers(gmm.weights_.shape[0])
        point = gmm.means_[comp, :2] + rng.choice([0, 0.3, 2]) * rng.normal(size=2)
        if LA.norm(point - attractor) < 1e-3:
            continue
        before = point.copy()
        velocity = learner.predict(point)
        close(point, before, 0, "prediction leaves the position unchanged")
        close(LA.norm(velocity), 1, 1e-9, "predicted velocity is a direction")
        joint = np.array(
            [
                gmm.weights_[kk] * multivariate_normal(gmm.means_[kk, :2], gmm.covariances_[kk][:2, :2]).pdf(point)
                for kk in range(gmm.weights_.shape[0])
            ]
        )
        sums = learner.get_mixing_weights(point[None], feat_in=feat_in, feat_out=np.array([4])).sum()
        means = np.array([_conditional(_sub(gmm, [0, 1, 4]), kk, point, [0, 1], [2])[0][0] for kk in range(len(joint))])
        close(learner.evaluate(point), velocity, 1e-12, "evaluate is predict")
        if joint.sum() > 1e-250:
            share = joint / joint.sum()
            wanted = share @ means
            factor = 1 if sums > 1 - 1e-12 else sums**learner.beta_power
            full = get_angle_space_inverse(np.array([wanted * factor]), null_direction=attractor - point)
            close(velocity, full, 1e-4 * (1 + np.abs(share @ np.abs(means))), "predicted angle is the mixture of the conditional angles", factor=factor)
            ctx.count("covered" if sums > 1 - 1e-12 else "between")
        ctx.state("pred", point)
    # other samples of the batch
    points = rng.uniform(-5, 5, size=(2, int(rng.integers(2, 8))))
    points[:, 0] = gmm.means_[0, :2]
    batch = learner.predict_array(points)
    for jj in range(points.shape[1]):
        close(batch[:, jj], learner.predict(points[:, jj]), 1e-6, "prediction is independent of the other samples", sample=jj)
    ctx.count("batch")
    # far away from all gaussians
    for distance in (100, 1e3, 1e5):
        point = distance * gen.unit(rng, 2) + attractor
        velocity = learner.predict(point)
        finite(velocity, "prediction far from the data is finite", position=point)
        close(LA.norm(velocity), 1, 1e-9, "prediction far from the data is a direction")
        if distance == 1e5:
            close(velocity, (attractor - point) / distance, 1e-3, "motion far from the data is to the attractor")
            ctx.count("far")
    # position and velocity as input
    speed = rng.choice([0.5, 1, 1.3, 1.8, 3, 10])
    direction = gen.unit(rng, 2)
    point = gmm.means_[0, :2] + 0.3 * rng.normal(size=2)
    state = np.hstack((point, speed * direction))
    velocity = learner.predict(state)
    finite(velocity, "prediction with velocity is finite")
    crop = learner.predict(np.hstack((point, min(speed, 1) * direction)))
    close(velocity, crop, 1e-6, "input velocity is limited to one")
    states = np.vstack((state, rng.uniform(-3, 3, size=(5, 4)))).T
    other = learner._predict(states.T)
    alone = learner._predict(state[None])
    close(other[0], alone[0], 1e-6 * (1 + np.abs(alone[0])), "prediction with velocity is independent of other samples")
    ctx.count("velocity-input")
    ctx.count("capped", int(speed > 1))
    # local attraction: angle is reduced next to the attractor
    plain = learner.predict(point)
    learner.convergence_attractor = True
    near = attractor + 1e-4 * gen.unit(rng, 2)
    velocity = learner.predict(near)
    error = abs(_angle(attractor - near, velocity))
    for at in (attractor, near):
        angle = learner._predict(np.array(at)[None])
        require(abs(angle[0, 0]) < 0.05, "deviation vanishes at the attractor with convergence_attractor", angle=angle[0, 0])
    require(error < 0.05, "motion is to the attractor next to it with convergence_attractor", error=error)
    require(learner.convergence_attractor is True, "convergence_attractor is kept")
    pulled = learner.predict(point)
    finite(pulled, "prediction with convergence_attractor is finite")
    ctx.count("pulled", int(LA.norm(pulled - plain) > 1e-3))


def recording(rng, n_demos=None):
    """Smooth demonstrations which end close to a common attractor."""
    if n_demos is None:
        n_demos = int(rng.integers(1, 4))
    n_steps = int(rng.integers(60, 120))
    attractor = rng.uniform(-3, 3, size=2) * rng.choice([0, 1])
    start = attractor + rng.uniform(3, 6) * gen.unit(rng, 2)
    bend = rng.uniform(-0.35, 0.35)
    demos = np.empty((1, n_demos), dtype=object)
    time = np.linspace(0, 1, n_steps)
    for ii in range(n_demos):
        begin = start + 0.3 * rng.normal(size=2)
        end = attractor + 0.1 * rng.normal(size=2)
        chord = end - begin
        normal = np.array([-chord[1], chord[0]])
        pos = begin[:, None] + chord[:, None] * time + bend * normal[:, None] * np.sin(np.pi * time)
        vel = np.gradient(pos, time, axis=1)
        demos[0, ii] = np.vstack((pos, vel))
    return demos


def _save(folder, demos):
    path = os.path.join(folder, "data.mat")
    scipy.io.savemat(path, {"data": demos})
    return path


def _clean(path):
    shutil.rmtree(path, ignore_errors=True)


def _kernel(kind):
    return {"gmm": DirectionalGMM, "svr": DirectionalSVR, "gpr": DirectionalGPR}[kind]()


@check.sub(quick=60, thorough=2000, need=("gmm", "svr", "gpr", "away", "subset"))
def learned(rng, ctx):
    kind = str(rng.choice(["gmm", "svr", "gpr"]))
    demos = recording(rng)
    pos = np.hstack([dd[:2] for dd in demos[0]]).T
    vel = np.hstack([dd[2:4] for dd in demos[0]]).T
    mean_end = np.mean([dd[:2, -1] for dd in demos[0]], axis=0)
    learner = _kernel(kind)
    folder = tempfile.mkdtemp(prefix="vt-p20-")
    kwargs = {}
    if kind != "gpr" and rng.integers(2):
        kwargs = {"attractor": mean_end + 0.3 * rng.normal(size=2)}
    if kind != "gmm" and rng.integers(2):
        kwargs["n_samples"] = pos.shape[0] - 10
        ctx.count("subset")
    try:
        with quiet():
            if rng.integers(2):
                learner.load_data_from_mat(file_name=_save(folder, demos), **kwargs)
            else:
                _save(folder, demos)
                learner.directory_name = folder
                learner.file_name = "data.mat"
                learner.load_data_from_mat(**kwargs)
    finally:
        _clean(folder)
    ctx.count(kind)
    close(learner.pos, pos, 1e-12, "positions of all demonstrations are loaded")
    close(learner.vel, vel, 1e-12, "velocities of all demonstrations are loaded")
    attractor = kwargs.get("attractor", mean_end)
    close(learner.pos_attractor, attractor, 1e-9, "attractor is the given one, or the mean end of the demonstrations")
    ctx.count("away", int(LA.norm(attractor) > 0.5))
    # encoding of the velocities
    angles = learner.X[:, 4] if kind == "gmm" else np.reshape(learner.y, -1)
    require(angles.shape[0] == learner.X.shape[0], "one angle for each sample")
    used = learner.X[:, :2]
    require(used.shape[0] == kwargs.get("n_samples", pos.shape[0]), "number of samples")
    for jj in range(0, used.shape[0], 7):
        row = np.argmin(LA.norm(pos - used[jj], axis=1))
        close(used[jj], pos[row], 1e-12, "samples are positions of the demonstration")
        if LA.norm(used[jj] - attractor) < 1e-6:
            continue
        back = get_angle_space_inverse(angles[[jj]], null_direction=attractor - used[jj])
        close(back, vel[row] / LA.norm(vel[row]), 1e-6, "angles encode the demonstrated velocity relative to the attractor")
    if kind == "gmm":
        mags = LA.norm(learner.X[:, 2:4], axis=1)
        speed = LA.norm(vel, axis=1)
        close(mags, np.minimum(speed / speed.mean(), 1), 1e-9, "velocities are normalized by the mean velocity, and at most one")
        close(learner.X[:, 2:4] * speed[:, None], vel * mags[:, None], 1e-9 * (1 + speed.max()), "normalized velocities keep the direction")
    with quiet():
        if kind == "gmm":
            learner.fit(n_gaussian=int(rng.integers(3, 7)))
        else:
            learner.fit()
    # reproduction where the demonstrations are consistent
    clear = np.flatnonzero(LA.norm(pos - attractor, axis=1) > 1.0)
    clear = clear[:: max(1, clear.size // 40)]
    errors = []
    for row in clear:
        got = learner.predict(pos[row])
        close(LA.norm(got), 1, 1e-6, "prediction is a direction")
        errors.append(abs(_angle(vel[row], got)))
    if errors:
        limit = 0.5 if kind == "gmm" else 0.35
        require(np.median(errors) < limit, "learned motion reproduces the demonstrated directions", median=np.median(errors), learner=kind)
        ctx.count("reproduced")
        ctx.state("learned", pos[0])
    array = learner.predict_array(pos[clear].T)
    for jj, row in enumerate(clear):
        close(array[:, jj], learner.predict(pos[row]), 1e-6, "predictions as array")
    if kind == "svr":
        number = demos.shape[1]
        with quiet():
            traj = learner.integrate_trajectory(n_steps=3, delta_t=0.02, n_trajectories=number)
        for jj in range(number):
            close(traj[:, 0, jj], demos[0, jj][:2, 0], 1e-12, "trajectory begins at the start of the demonstration")
        ctx.count("demonstrated start")
    # integration
    starts = pos[:: pos.shape[0] // 3][:2].T + 0.1 * rng.normal(size=(2, 2))
    delta = 0.02
    if kind == "gmm":
        with quiet():
            traj = learner.integrate_trajectory(num_steps=12, delta_t=delta, starting_points=starts)
    else:
        with quiet():
            traj = learner.integrate_trajectory(n_steps=12, delta_t=delta, starting_points=starts)
    for jj in range(2):
        close(traj[:, 0, jj], starts[:, jj], 0, "trajectory begins at the starting point")
        for nn in range(1, 12):
            last = traj[:, nn - 1, jj]
            if LA.norm(last) < 0.05 or LA.norm(last - attractor) < 0.1:
                break
            step = traj[:, nn, jj] - last
            if kind == "gmm":
                close(step, delta * learner.predict(last), 1e-9, "trajectory follows the prediction")
            else:
                slopes = [learner.predict(last)]
                for part in (0.5, 0.5, 1.0):
                    slopes.append(learner.predict(last + part * delta * slopes[-1]))
                # the first-order step or any higher-order scheme within the cone of the slopes it passes
                spread = max(LA.norm(ss - slopes[0]) for ss in slopes)
                require(
                    LA.norm(step - delta * slopes[0]) < (0.1 + 1.2 * spread) * delta,
                    "trajectory follows the prediction", step=step, slopes=slopes,
                )


def _ellipse_gamma(gmm, kk, point, factor):
    delta = point - gmm.means_[kk, :2]
    return np.sqrt(delta @ LA.solve(gmm.covariances_[kk][:2, :2], delta) / factor)


@check.sub(quick=40, thorough=1500, need=("tree", "first-choice", "root", "local", "last"))
def graph(rng, ctx):
    demos = recording(rng, n_demos=2)
    folder = tempfile.mkdtemp(prefix="vt-p20-")
    n_gaussian = int(rng.integers(2, 7))
    try:
        with quiet():
            learner = GraphGMM(file_name=_save(folder, demos), n_gaussian=n_gaussian)
            learner.create_learned_boundary()
    finally:
        _clean(folder)
    gmm = learner.gmm
    attractor = learner.attractor_position
    require(learner.n_gaussians == n_gaussian == learner.n_components == len(learner), "one hull for each gaussian")
    ends = np.array([learner.get_end_point(kk) for kk in range(n_gaussian)])
    for kk in range(n_gaussian):
        hull = learner[kk]
        mean = gmm.means_[kk, :2]
        close(hull.center_position, mean, 1e-12, "hull is centered at the gaussian")
        require(hull.is_boundary, "hulls are boundaries")
        values, vectors = LA.eigh(gmm.covariances_[kk][:2, :2])
        for angle in rng.uniform(-np.pi, np.pi, size=4):
            local = np.array([np.cos(angle), np.sin(angle)]) * np.sqrt(8 * values)
            point = mean + vectors @ local
            gamma = hull.get_gamma(point, in_global_frame=True)
            close(gamma, 1, 1e-6, "surface of the hull is a level-line of the gaussian")
        close(_ellipse_gamma(gmm, kk, ends[kk], 2), 1, 1e-6, "end point is on the level-line of the gaussian")
        direction = get_angle_space_inverse(gmm.means_[kk, [-1]], null_direction=attractor - mean)
        close((ends[kk] - mean) / LA.norm(ends[kk] - mean), direction, 1e-6, "end point is in direction of the mean velocity")
    roots = [kk for kk in range(n_gaussian) if learner.get_parent(kk) < 0]
    root = int(np.argmin(LA.norm(ends - attractor, axis=1)))
    require(roots == [root], "root of the graph is the gaussian which ends closest to the attractor", roots=roots, root=root)
    ctx.count("root")
    for kk in range(n_gaussian):
        node, steps = kk, 0
        while learner.get_parent(node) >= 0:
            require(node in learner.get_children(learner.get_parent(node)), "parent and children match")
            node = learner.get_parent(node)
            steps += 1
            require(steps <= n_gaussian, "graph has no cycles", start=kk)
        require(node == root, "all gaussians lead to the root")
    total = sum(len(learner.get_children(kk)) for kk in range(n_gaussian))
    require(total == n_gaussian - 1, "each gaussian has one parent")
    dead = sum(not len(learner.get_children(kk)) for kk in range(n_gaussian))
    require(learner.number_of_branches == dead, "number of branches")
    ctx.count("tree")
    # preferred parent: largest mixing weight at the end point
    weights = learner.get_mixing_weights(X=ends, weight_factor=2, feat_in=np.arange(2), feat_out=np.array([4])).T
    chosen = {}
    for kk in range(n_gaussian):
        row = weights[kk].copy()
        row[kk] = -1
        order = np.argsort(row)[::-1]
        if n_gaussian > 2 and row[order[0]] - row[order[1]] < 1e-9 * (1 + row[order[0]]):
            chosen[kk] = None
        else:
            chosen[kk] = int(order[0])
    for kk in range(n_gaussian):
        node, seen = kk, []
        while node is not None and node != root and node not in seen:
            seen.append(node)
            node = chosen[node]
        if node == root and kk != root:
            require(learner.get_parent(kk) == chosen[kk], "parent is the gaussian with the largest weight at the end point", child=kk)
            ctx.count("first-choice")
    # local attractors
    for kk in range(n_gaussian):
        hull = learner[kk]
        inside = _ellipse_gamma(gmm, kk, attractor, 8)
        if abs(inside - 1) < 1e-6 or (kk == root and inside > 1):
            continue
        local = learner._get_local_attractor(kk)
        if inside < 1:
            close(local, attractor, 0, "local attractor of a hull with the attractor is the attractor")
            ctx.count("last")
            continue
        if local is None:
            continue
        close(_ellipse_gamma(gmm, kk, local, 8), 1, 1e-5, "local attractor is on the surface of its hull")
        parent = learner.get_parent(kk)
        if parent >= 0:
            along = gmm.means_[parent, :2] - gmm.means_[kk, :2]
            along = along / LA.norm(along)
            off = (local - ends[kk]) - ((local - ends[kk]) @ along) * along
            close(off, np.zeros(2), 1e-5, "local attractor is in the direction of the parent, seen from the end point")
        ctx.count("local")
    local = [learner._get_local_attractor(kk) if _ellipse_gamma(gmm, kk, attractor, 8) < 1 or learner.get_parent(kk) >= 0 else None for kk in range(n_gaussian)]
    if all(item is not None for item in local):
        for _ in range(2):
            learner.set_convergence_directions(learner)
            require(len(learner._ConvergenceDynamics) == n_gaussian, "one convergence dynamics for each hull")
            for item, system in zip(local, learner._ConvergenceDynamics):
                close(system.attractor_position, item, 1e-12, "convergence dynamics lead to the local attractor")
        ctx.count("convergence")
    point = gmm.means_[0, :2] + 0.1
    close(learner.evaluate(point), learner.predict(point), 1e-12, "evaluate is predict")
    close(learner.predict(point), learner._Learner.predict(point), 1e-12, "prediction of the graph is the one of its learner")
    ctx.state("graph", demos[0, 0][:, 0])
