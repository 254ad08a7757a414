"""P19: a motion learned from demonstrations is a chain of regions which leads to the attractor."""
import numpy as np
from numpy import linalg as LA
from vartools.handwritting_handler import MotionDataHandler

from vt import gen
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.kmeans_learner import KMeansMotionLearner, create_kmeans_learner_from_learner

check = Check(
    "P19",
    rule="learners fitted to random demonstrations (lines, waves, arcs, splines; with and without "
    "noise, also with sparse clusters), probed in the regions, at walls and openings, outside and "
    "along trajectories; non-trivial: distinct (demonstration, probe)",
)


def demonstration(rng):
    n_data = int(rng.integers(30, 80))
    time = np.linspace(0, 1, n_data)
    kind = rng.integers(7)
    if kind == 0:
        knots = np.cumsum(rng.uniform(-2, 2, size=(4, 2)) + [2, 0], axis=0)
        fit = np.polyfit(np.linspace(0, 1, 4), knots, 3)
        pos = np.stack([np.polyval(fit[:, kk], time) for kk in range(2)], 1)
    elif kind == 1:
        pos = np.stack([time * 6, 2 * np.sin(time * np.pi * rng.uniform(0.5, 2))], 1)
    elif kind == 2:
        angle = time * rng.uniform(1, 4)
        pos = np.stack([3 * np.cos(angle), 3 * np.sin(angle)], 1)
    elif kind == 3:
        pos = np.stack([time * rng.uniform(3, 8), rng.uniform(-1, 1) * time], 1)
    elif kind == 4:  # sharp corners
        turns = np.cumsum(np.hstack((0, rng.uniform(0.8, 2.6, size=2) * rng.choice([-1, 1], size=2))))
        legs = rng.uniform(1, 4, size=3)[:, None] * np.stack([np.cos(turns), np.sin(turns)], 1)
        knots = np.vstack(([0, 0], np.cumsum(legs, axis=0)))
        pos = np.stack([np.interp(time * 3, np.arange(4), knots[:, kk]) for kk in range(2)], 1)
    elif kind == 5:  # fast jumps in between slow parts
        slow = np.interp(time, [0, 0.28, 0.3, 0.32, 0.6, 0.64, 1], np.cumsum([0, 0.3, 2, 2, 0.3, 2, 0.5]))
        pos = np.stack([slow, 0.5 * np.sin(slow)], 1)
    else:  # fast at the start, i.e., few samples there
        slow = time ** rng.uniform(0.2, 0.5)
        pos = np.stack([slow * 6, np.sin(slow * np.pi)], 1)
    pos = pos @ gen.rotation2d(rng.uniform(-np.pi, np.pi)).T + rng.uniform(-3, 3, size=2)
    pos = pos + 0.05 * rng.normal(size=pos.shape) * rng.choice([0, 1])
    vel = np.gradient(pos, time, axis=0)
    vel[-1] = 0
    return MotionDataHandler(position=pos, velocity=vel, attractor=pos[-1].copy(), sequence_value=time)


def _learner(rng, ctx, factors=(0.55, 0.7, 0.8, 0.9)):
    data = demonstration(rng)
    n_clusters = int(rng.integers(1, 7))
    np.random.seed(int(rng.integers(1 << 30)))  # the clustering is seeded globally
    kwargs = {"radius_factor": float(rng.choice(factors))}
    if rng.uniform() < 0.15:
        order = np.linspace(0, data.position.shape[0] - 1, n_clusters + 2).astype(int)[1:-1]
        centers = data.position[order]
        model = KMeansMotionLearner.from_centers(centers.T.copy(), data)
        ctx.count("from-centers")
        return model, data, model.radius_factor
    try:
        model = KMeansMotionLearner(data, n_clusters=n_clusters, **kwargs)
    except NotImplementedError:  # sequence of the clusters is ambiguous
        raise Discard()
    ctx.count("sparse", int(model.n_clusters < n_clusters))
    return model, data, kwargs["radius_factor"]


def _chain(model):
    """Clusters from the root (next to the attractor) to the start."""
    root = [ii for ii in range(model.n_clusters) if not model.get_successors(ii)]
    require(len(root) == 1, "exactly one cluster is next to the attractor", roots=root)
    chain = root
    while model.get_predecessors(chain[-1]):
        nodes = model.get_predecessors(chain[-1])
        require(len(nodes) == 1, "each cluster has at most one predecessor", nodes=nodes)
        require(nodes[0] not in chain, "the sequence of clusters has no cycle")
        require(model.get_successors(nodes[0]) == [chain[-1]], "successor and predecessor match")
        chain.append(nodes[0])
    require(len(chain) == model.n_clusters, "all clusters are part of the sequence", chain=chain)
    return chain


def _regular(model, data):
    """The attractor is in the last region, and not in the transition from the previous one."""
    root = _chain(model)[0]
    centers = model.kmeans.cluster_centers_
    dist = LA.norm(data.attractor - centers, axis=1)
    if np.any(np.delete(dist, root) <= dist[root] * (1 + 1e-9)):
        return False
    for prev in model.get_predecessors(root):
        gap = centers[root] - centers[prev]
        if gap @ (data.attractor - 0.5 * (centers[root] + centers[prev])) < 0.26 * (gap @ gap):
            return False
    return True


@check.sub(quick=60, thorough=500, need=("sparse", "chain", "directed", "from-centers", "single"))
def hierarchy(rng, ctx):
    model, data, factor = _learner(rng, ctx)
    centers = model.kmeans.cluster_centers_
    require(model.n_clusters == centers.shape[0] == model.get_number_of_features(), "number of clusters")
    require(len(model.region_obstacles) == model.n_clusters, "one region for each cluster")
    close(model.attractor_position, data.attractor, 0, "attractor of the learner is the one of the data")
    labels = model.kmeans.labels_
    dists = LA.norm(data.position[:, None] - centers[None], axis=2)
    close(dists[np.arange(len(labels)), labels], dists.min(axis=1), 1e-6, "each sample is assigned to the closest cluster")
    close(model.get_distance_from_centers(data.position[0]), dists[0], 1e-9, "distances to the clusters")
    require(set(labels) == set(range(model.n_clusters)), "each cluster has samples", labels=sorted(set(labels)))
    chain = _chain(model)
    mean_time = [np.mean(data.sequence_value[labels == ii]) for ii in chain]
    require(np.all(np.diff(mean_time) < 1e-12), "clusters are ordered along the demonstration", times=mean_time)
    ctx.count("chain")
    ctx.count("single", int(model.n_clusters == 1))
    ctx.state("demo", data.position)
    # regions
    radius = model.region_radius_
    lengths = [LA.norm(centers[bb] - centers[aa]) for aa, bb in zip(chain[:-1], chain[1:])]
    wanted = max([2 * LA.norm(centers[chain[0]] - data.attractor)] + lengths)
    require(radius >= factor * wanted * (1 - 1e-9), "regions of the sequence overlap and include the attractor", radius=radius, wanted=wanted)
    require(radius >= 2 * factor * dists.min(axis=1).max() * (1 - 1e-9), "regions cover the data", radius=radius)
    for ii in range(model.n_clusters):
        region = model.region_obstacles[ii]
        close(region.center_position, centers[ii], 0, "region is around its cluster center")
        close(region.radius, radius, 1e-12, "radius of the region")
        require(list(region.successor_index) == model.get_successors(ii), "region is open to its successor")
        other = create_kmeans_learner_from_learner(model, ii)
        require(list(other.successor_index) == model.get_successors(ii) and other.radius == radius, "region created from the learner")
    got = model.compute_distances_to_neighbours()
    want = sorted([LA.norm(centers[chain[0]] - data.attractor)] + lengths)
    close(np.sort(got), want, 1e-9, "distances to the neighbours")
    # local directions
    root_dir = data.attractor - centers[chain[0]]
    close(model.predict_averaged_lyapunov(centers[chain[0]].copy()), root_dir / LA.norm(root_dir), 1e-6, "convergence direction of the last region is to the attractor")
    for succ, ii in zip(chain[:-1], chain[1:]):
        direction = model.predict_averaged_lyapunov(centers[ii].copy())
        close(LA.norm(direction), 1, 1e-6, "convergence direction is a unit vector")
        region = model.region_obstacles[ii]
        straight = region.get_point_on_surface(centers[succ].copy(), in_global_frame=True)
        if abs(LA.norm(straight - centers[ii]) - LA.norm(straight - centers[succ])) > 1e-6:
            continue  # another cluster is in between
        through = region.get_point_on_surface(centers[ii] + direction, in_global_frame=True)
        gap = abs(LA.norm(through - centers[ii]) - LA.norm(through - centers[succ]))
        require(gap < 1e-4, "convergence direction of a region leads into its successor", cluster=ii, successor=succ, gap=gap)
        ctx.count("directed")


@check.sub(quick=60, thorough=600, need=("inside", "wall", "wall-to-predecessor", "opening", "outside", "far", "attractor"))
def velocities(rng, ctx):
    model, data, factor = _learner(rng, ctx)
    kmeans = model.kmeans
    if not _regular(model, data):
        raise Discard()
    vel = model.predict(data.attractor.copy())
    close(vel, np.zeros(2), 1e-6, "zero velocity at the attractor")
    ctx.count("attractor")
    for _ in range(14):
        position = data.position[rng.integers(data.position.shape[0])] + rng.normal(size=2) * rng.choice([0, 0.3, 2, 20])
        before = position.copy()
        vel = model.predict(position)
        close(position, before, 0, "evaluation leaves the position unchanged")
        finite(vel, "velocity finite", position=position)
        ctx.state("vel", data.position[0], position)
        dist = LA.norm(position - data.attractor)
        if dist < 1e-6:
            continue
        require(1e-6 * dist < LA.norm(vel) <= 1 + 1e-6, "speed is positive and at most one", velocity=vel, distance=dist)
        close(model.evaluate(position), vel, 1e-12, "evaluate is predict")
        dists = model.get_distance_from_centers(position)
        if dists.min() > model.region_radius_:
            ctx.count("outside")
            if dists.min() > 4.01 * model.region_radius_:
                close(vel, (data.attractor - position) / dist * min(1, dist), 1e-6, "straight to the attractor far from all regions")
                ctx.count("far")
            continue
        ctx.count("inside")
        label = int(kmeans.predict(position.reshape(1, -1))[0])
        region = model.region_obstacles[label]
        center = region.center_position
        surface = region.get_point_on_surface(position, in_global_frame=True)
        inner = center + (surface - center) * (1 - 1e-6)
        if kmeans.predict(inner.reshape(1, -1))[0] != label:
            continue
        distance = LA.norm(surface - kmeans.cluster_centers_, axis=1)
        touching = [kk for kk in range(model.n_clusters) if kk != label and abs(distance[kk] - distance[label]) < 1e-3]
        vel = model.predict(inner.copy())
        finite(vel, "velocity finite at the surface of the region", position=inner)
        if touching and touching[0] in model.get_successors(label):
            ctx.count("opening")
            continue
        normal = region.get_normal_direction(inner, in_global_frame=True)
        require(vel @ normal > -2e-3 * LA.norm(vel), "walls of a region are not crossed", position=inner, velocity=vel, normal=normal, touching=touching)
        ctx.count("wall-to-predecessor" if touching and touching[0] in model.get_predecessors(label) else "wall")


def _adjacent(model):
    """Consecutive regions have a common opening (no other cluster is in between)."""
    chain = _chain(model)
    centers = model.kmeans.cluster_centers_
    for aa, bb in zip(chain[:-1], chain[1:]):
        gap = centers[aa] - centers[bb]
        middle = 0.5 * (centers[aa] + centers[bb])
        for kk in set(chain) - {aa, bb}:
            if LA.norm(middle - centers[kk]) < 1.2 * 0.5 * LA.norm(gap):
                return False
    return True


@check.sub(quick=60, thorough=600, need=("opening", "own", "entering"))
def transitions(rng, ctx):
    """Between neighbouring regions, and from outside into a region."""
    model, data, factor = _learner(rng, ctx)
    if not _regular(model, data) or not _adjacent(model):
        raise Discard()
    chain = _chain(model)
    centers, radius = model.kmeans.cluster_centers_, model.region_radius_
    for succ, ii in zip(chain[:-1], chain[1:]):
        gap = centers[succ] - centers[ii]
        length = LA.norm(gap)
        gap = gap / length
        half = np.sqrt(max(radius**2 - 0.25 * length**2, 0))
        point = 0.5 * (centers[succ] + centers[ii]) + rng.uniform(-0.8, 0.8) * half * np.array([-gap[1], gap[0]])
        sides = [point - 1e-7 * length * gap, point + 1e-7 * length * gap]
        labels = [int(model.kmeans.predict(pp.reshape(1, -1))[0]) for pp in sides]
        if labels != [ii, succ]:
            continue
        dirs = [model.predict_averaged_lyapunov(pp) for pp in sides]
        close(dirs[0], dirs[1], 1e-4, "convergence direction is continuous at the opening", position=point)
        ctx.count("opening")
    # undisturbed part of the last region
    root = chain[0]
    for _ in range(6):
        position = centers[root] + gen.unit(rng, 2) * rng.uniform(0, 1) * radius
        if int(model.kmeans.predict(position.reshape(1, -1))[0]) != root:
            continue
        if any(
            (centers[root] - centers[kk]) @ (position - 0.5 * (centers[root] + centers[kk]))
            < 0.26 * LA.norm(centers[root] - centers[kk]) ** 2
            for kk in model.get_predecessors(root)
        ):
            continue
        direction = data.attractor - position
        if LA.norm(direction) > 1e-3 * radius:
            close(
                model.predict_averaged_lyapunov(position), direction / LA.norm(direction), 1e-6,
                "convergence direction is to the attractor in the last region", position=position,
            )
            ctx.count("own")
    # close to a region, away from all others
    for _ in range(10):
        ii = int(rng.integers(model.n_clusters))
        towards = gen.unit(rng, 2)
        position = centers[ii] + radius * towards * (1 + 1e-9)
        dists = model.get_distance_from_centers(position)
        if np.any(np.delete(dists, ii) < 1.3 * radius):
            continue
        goal = data.attractor - position
        if -towards @ goal < -0.5 * LA.norm(goal):
            continue
        others = np.delete(dists, ii) / radius - 1
        vel = model.predict(position)
        vel = vel / LA.norm(vel)
        angle = np.arccos(np.clip(-vel @ towards, -1, 1))
        # Influence of the others, which are inversely proportional to their distance
        require(
            angle < 0.3 if len(others) else angle < 1e-3,
            "motion next to a region is into it", position=position, angle=angle, others=others,
        )
        ctx.count("entering")


@check.sub(quick=24, thorough=250, need=("demonstrated", "outside"))
def trajectories(rng, ctx):
    model, data, factor = _learner(rng, ctx, factors=(0.7, 0.8, 0.9))
    if model.region_obstacles[_chain(model)[0]].get_gamma(data.attractor, in_global_frame=True) < 1.2:
        raise Discard()  # attractor next to the wall
    if not _regular(model, data) or not _adjacent(model):
        raise Discard()
    for kind in ("demonstrated", "outside"):
        position = data.position[rng.integers(data.position.shape[0] // 2)].copy()
        if kind == "outside":
            position = position + gen.unit(rng, 2) * rng.uniform(1, 4) * model.region_radius_
        start = position.copy()
        for _ in range(2500):
            position = position + 0.02 * model.predict(position)
            finite(position, "trajectory finite", start=start)
            if LA.norm(position - data.attractor) < 0.15:
                break
        else:
            require(False, "motion " + kind + " reaches the attractor", start=start, end=position, attractor=data.attractor)
        ctx.count(kind)
        ctx.state("traj", start)
