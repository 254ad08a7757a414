"""P21: an obstacle learned as a mixture of gaussians is a consistent set of connected ellipses."""
import numpy as np
from numpy import linalg as LA
from scipy.stats import multivariate_normal

from vt import gen
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.gmm_obstacle import GmmObstacle

check = Check(
    "P21",
    rule="obstacles fitted to random point clouds (one to five clusters, two to four dimensions, thin "
    "and round, various variance factors), probed on rays, at centers, surfaces and around; "
    "non-trivial: distinct (cloud, probe)",
)


def _cloud(rng, dim, n_gmms, gap):
    points, center = [], rng.uniform(-2, 2, size=dim)
    uneven = rng.integers(2)
    for _ in range(n_gmms):
        shape = np.linalg.qr(rng.normal(size=(dim, dim)))[0] @ np.diag(10 ** rng.uniform(-0.7, 0, size=dim))
        if uneven:
            shape *= 10 ** rng.uniform(-0.7, 0.5)
        points.append(center[:, None] + shape @ rng.normal(size=(dim, 80)))
        center = center + gap * rng.uniform(0.5, 1.5) * gen.unit(rng, dim)
    return np.hstack(points)


def _obstacle(rng, ctx, gap=2.0, dims=(2, 2, 3, 4)):
    dim = int(rng.choice(dims))
    n_gmms = int(rng.integers(1, 6))
    factor = float(rng.choice([1.0, 2.0, 3.0]))
    obstacle = GmmObstacle(n_gmms, variance_factor=factor)
    np.random.seed(int(rng.integers(1 << 30)))
    cloud = _cloud(rng, dim, n_gmms, gap)
    before = cloud.copy()
    if rng.integers(4) == 0:
        # Learned from something else before
        obstacle.fit(_cloud(rng, dim, n_gmms, gap))
        obstacle.evaluate_hirarchy_and_reference_points()
        ctx.count("refitted")
    obstacle.fit(cloud)
    close(cloud, before, 0, "fitting leaves the points unchanged")
    require(obstacle.dimension == dim, "dimension of the fitted obstacle")
    ctx.count("single" if n_gmms == 1 else "several")
    ctx.count("dim%d" % dim)
    return obstacle, cloud


def _mahalanobis(obstacle, position, index):
    delta = position - obstacle._gmm.means_[index]
    return np.sqrt(delta @ LA.solve(obstacle._gmm.covariances_[index], delta)) / obstacle.variance_factor


def _overlap(obstacle, first, second):
    """Smallest value of the larger gamma of two components (which is below one iff they overlap)."""
    precisions = [LA.inv(obstacle._gmm.covariances_[ii]) for ii in (first, second)]
    means = [obstacle._gmm.means_[ii] for ii in (first, second)]
    best = np.inf
    for weight in np.linspace(0, 1, 101):
        # Pareto-optimal points of the two quadratic distances
        matrix = (1 - weight) * precisions[0] + weight * precisions[1]
        point = LA.solve(matrix, (1 - weight) * precisions[0] @ means[0] + weight * precisions[1] @ means[1])
        best = min(best, max(_mahalanobis(obstacle, point, ii) for ii in (first, second)))
    return best


LIMIT = 0.75  # Descending on the sum of the fifth powers is precise up to the factor 2**(1.0/5)


def _gradient(func, point, step):
    grad = np.zeros(point.shape)
    for kk in range(point.shape[0]):
        delta = np.zeros(point.shape)
        delta[kk] = step
        grad[kk] = (func(point + delta) - func(point - delta)) / (2 * step)
    return grad


@check.sub(quick=150, thorough=8000, need=("single", "several", "dim2", "dim3", "dim4", "inside", "outside", "analytic", "direct", "refitted"))
def ellipses(rng, ctx):
    obstacle, cloud = _obstacle(rng, ctx)
    if rng.integers(2):
        obstacle.evaluate_axes_length_and_direction()
    else:
        obstacle.evaluate_hirarchy_and_reference_points()
    dim = obstacle.dimension
    for index in range(obstacle.n_gmms):
        center = obstacle.get_center_position(index)
        close(center, obstacle._gmm.means_[index], 0, "center of the component is its mean")
        position = center + gen.unit(rng, dim) * 10 ** rng.uniform(-1.5, 1.5)
        before = position.copy()
        gamma = obstacle.get_gamma_proportional(position, index)
        want = _mahalanobis(obstacle, position, index)
        close(gamma, want, 1e-6 * (1 + want), "proportional gamma is the scaled mahalanobis distance")
        ctx.count("inside" if want < 1 else "outside")
        surface = center + (position - center) / want
        close(obstacle.get_gamma(surface, index), 1, 1e-6, "gamma on the surface")
        distance = (position - surface) @ (position - center) / LA.norm(position - center)
        close(obstacle.get_gamma(position, index), 1 + distance, 1e-6 * (1 + abs(distance)), "gamma is the distance to the surface")
        close(obstacle.project_point_on_surface(position, index), surface, 1e-6 * (1 + LA.norm(surface)), "projection on the surface")
        normal = obstacle.get_normal_direction(position, index)
        close(LA.norm(normal), 1, 1e-9, "normal is a unit vector")
        wanted = LA.solve(obstacle._gmm.covariances_[index], position - center)
        close(normal, wanted / LA.norm(wanted), 1e-6, "normal is the gradient of gamma")
        reference = obstacle.get_reference_direction(position, index)
        close(reference, (position - center) / LA.norm(position - center), 1e-9, "reference direction is from the center")
        power = float(rng.choice([1, 2, 5]))
        grad = obstacle.get_gamma_derivative(position, index, powerfactor=power)
        wanted = _gradient(lambda xx: _mahalanobis(obstacle, xx, index) ** power, position, 1e-5 * (1 + LA.norm(position - center)) * min(1, LA.norm(position - center)))
        # Only its direction, and how it scales, is of interest (it is used as a descent direction)
        require(LA.norm(grad) > 0, "derivative of gamma is zero away from the center", power=power)
        close(grad / LA.norm(grad), wanted / LA.norm(wanted), 1e-3, "derivative of the power of gamma points along the gradient", power=power)
        for value in (obstacle.get_normal_direction(center.copy(), index), obstacle.get_reference_direction(center.copy(), index)):
            close(LA.norm(value), 1, 1e-9, "direction at the center is a unit vector")
        # frame of the unit circle
        local = obstacle.transform_position_to_unitcircle_frame(position, index)
        close(2 * LA.norm(local), want, 1e-6 * (1 + want), "ellipse is the circle of unit diameter in its frame")
        close(obstacle.transform_position_from_unitcircle_frame(local, index), position, 1e-9 * (1 + LA.norm(position)), "frames are inverse")
        inner = center + (surface - center) * rng.uniform(0, 0.9) + 0.0
        extra = gen.unit(rng, dim)
        inner = center + (inner - center) * 0.5 + 0.4 * rng.uniform() * extra / (_mahalanobis(obstacle, center + extra, index))
        if LA.norm(position - inner) > 1e-6 * LA.norm(position - center):
            hit = obstacle.project_point_on_surface_with_offcenter_point(position, inner, index)
            close(_mahalanobis(obstacle, hit, index), 1, 1e-6, "projection from a point inside is on the surface")
            ray = (position - inner) / LA.norm(position - inner)
            close(hit - inner, ray * (ray @ (hit - inner)), 1e-6 * (1 + LA.norm(hit - inner)), "projection from a point inside is on the ray")
            require(ray @ (hit - inner) > 0, "projection is on the side of the position")
        close(position, before, 0, "evaluation leaves the position unchanged")
        ctx.state("ellipse", position)
    if dim == 2:
        if rng.integers(2):
            # Right after fitting
            fresh = GmmObstacle(obstacle.n_gmms, variance_factor=obstacle.variance_factor)
            fresh.fit(cloud)
            obstacle = fresh
            ctx.count("direct")
        container = obstacle.transform_to_analytic_ellipses()
        require(len(container) == obstacle.n_gmms, "one analytic ellipse for each component")
        for index in range(obstacle.n_gmms):
            ellipse = container[index]
            center = obstacle.get_center_position(index)
            close(ellipse.center_position, center, 1e-9, "center of the analytic ellipse")
            for _ in range(3):
                ray = gen.unit(rng, 2)
                surface = center + ray / _mahalanobis(obstacle, center + ray, index)
                close(ellipse.get_gamma(surface, in_global_frame=True), 1, 1e-5, "analytic ellipse has the same surface")
        ctx.count("analytic")


@check.sub(quick=250, thorough=6000, need=("single", "several", "overlap", "tree", "uneven"))
def hierarchy(rng, ctx):
    obstacle, cloud = _obstacle(rng, ctx, gap=float(rng.choice([0.5, 1.0, 2.0])))
    obstacle.evaluate_hirarchy_and_reference_points()
    gmm, graph = obstacle._gmm, obstacle.gmm_index_graph
    n_gmms = obstacle.n_gmms
    means = np.array([obstacle.get_center_position(ii) for ii in range(n_gmms)])
    dists = LA.norm(means - means.mean(axis=0), axis=1)
    roots = graph.roots
    require(len(roots) == 1, "one root")
    close(dists[roots[0]], dists.min(), 1e-9, "root is the component closest to the mean")
    close(obstacle.get_kernel_point(roots[0]), means[roots[0]], 1e-12, "kernel point of the root is its center")
    nodes = graph.get_nodes_hirarchy_descending()
    require(sorted(nodes) == list(range(n_gmms)), "all components are part of the graph", nodes=nodes)
    require(obstacle.kernel_points.shape == (obstacle.dimension, n_gmms), "one kernel point for each component")
    finite(obstacle.kernel_points, "kernel points are finite")
    # greedy connection along the largest probability
    proba = np.zeros((n_gmms, n_gmms))
    for ii in range(n_gmms):
        logs = [np.log(gmm.weights_[kk]) + multivariate_normal(gmm.means_[kk], gmm.covariances_[kk]).logpdf(means[ii]) for kk in range(n_gmms)]
        proba[ii] = np.exp(logs - np.logaddexp.reduce(logs))
    assigned, rest = [roots[0]], [ii for ii in range(n_gmms) if ii != roots[0]]
    while rest:
        table = proba[np.ix_(rest, assigned)]
        values = np.sort(table.ravel())[::-1]
        row, col = np.unravel_index(np.argmax(table), table.shape)
        if values[0] < 1e-250 or (len(values) > 1 and values[1] > values[0] * (1 - 1e-6)):
            break
        require(graph.get_parent(rest[row]) == assigned[col], "component is connected to the one with the largest probability", child=rest[row])
        assigned.append(rest[row])
        del rest[row]
        ctx.count("tree")
    for ii in range(n_gmms):
        parent = graph.get_parent(ii)
        if parent is None:
            continue
        thin = min(np.sqrt(LA.eigvalsh(gmm.covariances_[kk])[0]) for kk in (ii, parent)) * obstacle.variance_factor
        if thin > 0.1 and _overlap(obstacle, ii, parent) < LIMIT:  # Thicker than the steps (0.05) of the descent
            middle = 0.5 * (means[ii] + means[parent])
            ctx.count("uneven", int(max(_mahalanobis(obstacle, middle, kk) for kk in (ii, parent)) > 1))
            point = obstacle.get_kernel_point(ii)
            inside = [_mahalanobis(obstacle, point, kk) for kk in (ii, parent)]
            require(max(inside) <= 1, "kernel point is inside the component and its parent", gammas=inside)
            ctx.count("overlap")
    point = rng.normal(size=obstacle.dimension)
    index = int(rng.integers(n_gmms))
    others = np.delete(obstacle.kernel_points, index, axis=1).copy()
    obstacle.set_kernel_point(point, index)
    close(obstacle.get_kernel_point(index), point, 0, "kernel point is set")
    close(np.delete(obstacle.kernel_points, index, axis=1), others, 0, "other kernel points are unchanged")
    ctx.state("tree", means)


@check.sub(quick=120, thorough=6000, need=("inside", "around", "alone", "occluded", "mixed", "guided", "away"))
def weights(rng, ctx):
    obstacle, cloud = _obstacle(rng, ctx, gap=1.0)
    obstacle.evaluate_hirarchy_and_reference_points()
    n_gmms, dim = obstacle.n_gmms, obstacle.dimension
    kernels = [obstacle.get_kernel_point(ii) for ii in range(n_gmms)]
    if any(_mahalanobis(obstacle, kernels[ii], ii) > 0.999 for ii in range(n_gmms)):
        raise Discard()  # neighbours do not overlap
    root = obstacle.gmm_index_graph.roots[0]
    for _ in range(4):
        position = cloud[:, rng.integers(cloud.shape[1])] + rng.choice([0, 1, 5]) * rng.normal(size=dim)
        before = position.copy()
        gammas = np.array([_mahalanobis(obstacle, position, ii) for ii in range(n_gmms)])
        if np.any(np.abs(gammas - 1) < 1e-6):
            continue
        obstacle.evaluate_gamma_weights(position)
        got = obstacle.relative_weights.copy()
        close(obstacle.gamma_list, gammas, 1e-6 * (1 + gammas), "gammas of the components")
        close(np.sum(got), 1, 1e-9, "weights sum up to one")
        require(np.all(got >= 0), "weights are positive")
        within = gammas < 1
        if np.any(within):
            close(got, within / np.sum(within), 1e-9, "components around the position share the weight")
            ctx.count("inside")
        else:
            factors = obstacle.get_obstacle_occlusion_factor(position)
            require(np.all((factors >= 0) & (factors <= 1)), "occlusion factors", factors=factors)
            close(factors[root], 1, 0, "root is not occluded")
            wanted = factors / (gammas - 1)
            close(got, wanted / wanted.sum(), 1e-6, "weights decrease with the distance and the occlusion")
            for ii in range(n_gmms):
                parent = obstacle.gmm_index_graph.get_parent(ii)
                if parent is None:
                    continue
                hit = obstacle.project_point_on_surface_with_offcenter_point(position, kernels[ii], ii)
                gamma = _mahalanobis(obstacle, hit, parent)
                away = (position - kernels[ii]) @ (obstacle.get_center_position(parent) - kernels[ii])
                if gamma > 1 + 1e-6 or away < -1e-9:
                    close(factors[ii], 1, 0, "visible component is not occluded")
                elif gamma < 1 - 1e-6 and away > 1e-6:
                    require(factors[ii] < 1, "component behind its parent is occluded")
                    require(factors[ii] <= gamma + 1e-9, "occlusion factor is at most gamma at the parent", factor=factors[ii], gamma=gamma)
                    ctx.count("occluded")
            ctx.count("around")
        # mean normal and reference
        references = np.array([obstacle.get_reference_direction(position, ii) for ii in range(n_gmms)]).T
        if np.any(gammas < 1e-3) or np.any(references.T @ references[:, root] < -0.999):
            continue
        obstacle.evalute_weighted_reference_and_normal_offset(position)
        close(LA.norm(obstacle.mean_reference), 1, 1e-6, "mean reference is a unit vector")
        close(LA.norm(obstacle.mean_normal), 1, 1e-6, "mean normal is a unit vector")
        require(obstacle.mean_reference @ obstacle.mean_normal > 0, "mean normal is in the half-space of the mean reference", product=obstacle.mean_reference @ obstacle.mean_normal)
        top = int(np.argmax(got))
        if got[top] > 1 - 1e-12:
            close(obstacle.mean_reference, references[:, top], 1e-4, "reference of a single relevant component")
            normal = obstacle.get_normal_direction(position, top)
            close(obstacle.mean_normal, normal, 1e-4, "normal of a single relevant component")
            ctx.count("alone")
        elif np.sum(got > 0.05) > 1:
            if dim == 2:
                # in the plane: the angles relative to the root are averaged
                base = references[:, root]
                angles = np.array([np.arctan2(base[0] * rr[1] - base[1] * rr[0], base @ rr) for rr in references.T])
                wanted = gen.rotation2d(np.sum(got * angles)) @ base
                close(obstacle.mean_reference, wanted, 1e-4, "mean reference is the weighted mean around the root")
            delta = sum(ww * (obstacle.get_normal_direction(position, ii) - references[:, ii]) for ii, ww in enumerate(got))
            residual = obstacle.mean_normal - obstacle.mean_reference * (obstacle.mean_normal @ obstacle.mean_reference)
            offset = delta - obstacle.mean_reference * (delta @ obstacle.mean_reference)
            if LA.norm(offset) > 1e-3:
                require(residual @ offset > 0.999 * LA.norm(residual) * LA.norm(offset), "mean normal deviates towards the weighted offset of the normals")
            ctx.count("mixed")
        ctx.state("weight", position)
        # rotation of the velocity around the kernel
        velocity = gen.unit(rng, dim) * rng.choice([0.3, 1, 3])
        radial = (position - kernels[root]) / LA.norm(position - kernels[root])
        out = obstacle.get_root_rotation_direction(position, velocity.copy())
        if abs(radial @ velocity) > 1e-9:
            if radial @ velocity > 0:
                close(out, velocity, 1e-9, "velocity away from the kernel is unchanged")
                ctx.count("away")
            else:
                close(out, velocity - radial * (radial @ velocity), 1e-9 * 10, "velocity towards the kernel is guided around it")
                ctx.count("guided")
        close(position, before, 0, "evaluation leaves the position unchanged")


@check.sub(quick=40, thorough=1500, need=("axis",))
def principal_axes(rng, ctx):
    # exactly symmetric cloud around the origin: on the axes, the normal is equal to the reference
    dim = int(rng.integers(2, 5))
    scale = rng.uniform(0.5, 2, size=dim)
    half = np.diag(scale)
    obstacle = GmmObstacle(1, variance_factor=float(rng.choice([1.0, 2.0])))
    obstacle.fit(np.hstack((half, -half)))
    obstacle.evaluate_hirarchy_and_reference_points()
    axis = np.eye(dim)[int(rng.integers(dim))] * rng.choice([-1, 1])
    position = axis * scale.max() * rng.choice([0.1, 1, 2, 5]) * rng.uniform(0.5, 1.5)
    obstacle.evaluate_gamma_weights(position)
    obstacle.evalute_weighted_reference_and_normal_offset(position)
    close(obstacle.mean_reference, axis, 1e-6, "reference on a principal axis")
    close(obstacle.mean_normal, axis, 1e-6, "normal on a principal axis")
    close(obstacle.relative_weights, np.ones(1), 1e-9, "weight of the only component")
    ctx.count("axis")
    ctx.state("axis", position)
