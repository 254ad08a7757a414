"""P18: regions of a clustering are the ball around the center within its Voronoi-cell."""
import numpy as np
from numpy import linalg as LA
from sklearn.cluster import KMeans

from vt import gen
from vt.core import Check, Discard
from vt.oracle import close, finite, require

from nonlinear_avoidance.kmeans_learner import KMeansObstacle

check = Check(
    "P18",
    rule="random clusterings (also single, touching and distant clusters) and rays from the center, "
    "probed before, on and after the surface; non-trivial: distinct (clustering, ray)",
)


class Region:
    """Independent geometry of the region."""

    def __init__(self, centers, radius, index):
        self.center, self.radius, self.index = centers[index], radius, index
        self.faces = {}
        for kk, other in enumerate(centers):
            if kk != index and LA.norm(other - self.center) < 2 * radius:
                normal = (other - self.center) / LA.norm(other - self.center)
                self.faces[kk] = (normal, LA.norm(other - self.center) / 2)

    def ray(self, direction):
        """Distance to the surface, and which face is hit (own index: the sphere)"""
        hits = [(self.radius, self.index)]
        for kk, (normal, dist) in self.faces.items():
            if normal @ direction > 1e-7:
                hits.append((dist / (normal @ direction), kk))
        hits.sort()
        gap = hits[1][0] / hits[0][0] - 1 if len(hits) > 1 else 1.0
        return hits[0][0], hits[0][1], gap

    def normal(self, direction, face):
        return direction if face == self.index else self.faces[face][0]


def _fitted(centers):
    model = KMeans(n_clusters=centers.shape[0], n_init=1, init=centers, max_iter=1)
    return model.fit(centers)


def _setup(rng, **kwargs):
    dim = int(rng.choice([2, 2, 3]))
    kind = rng.integers(5)
    n_clusters = int(rng.integers(1, 7))
    if kind == 0:  # integer grid, i.e., ties and parallel faces
        centers = rng.integers(-2, 3, size=(n_clusters, dim)).astype(float)
        centers = np.unique(centers, axis=0)
    else:
        centers = rng.uniform(-3, 3, size=(n_clusters, dim))
    centers = centers + rng.choice([0, 0, 30.0]) * rng.normal(size=dim)
    if centers.shape[0] > 1:
        gaps = LA.norm(centers[:, None] - centers[None], axis=2) + np.eye(centers.shape[0]) * 9
        if gaps.min() < 0.05:
            raise Discard()
    radius = float(rng.choice([1.0, rng.uniform(0.3, 4)]))
    index = int(rng.integers(centers.shape[0]))
    model = _fitted(centers.copy())
    centers = np.array(model.cluster_centers_)  # up to rounding
    obs = KMeansObstacle(kmeans=model, radius=radius, index=index, **kwargs)
    return obs, Region(centers, radius, index), centers, dim


def _direction(rng, region, centers, dim):
    if rng.uniform() < 0.3 and region.faces:  # straight at a face
        kk = int(rng.choice(list(region.faces)))
        return region.faces[kk][0].copy()
    return gen.unit(rng, dim)


@check.sub(quick=2500, need=("sphere", "face", "inside", "outside", "surface", "local", "isolated", "center"))
def geometry(rng, ctx):
    obs, region, centers, dim = _setup(rng)
    require(obs.dimension == dim and obs.n_clusters == centers.shape[0], "dimension and number of clusters")
    close(obs.center_position, region.center, 0, "center of the region is the cluster center")
    close(obs.reference_point, region.center, 0, "reference point of the region is the cluster center")
    require(sorted(obs.ind_relevant) == sorted(region.faces), "clusters within reach limit the region",
            got=obs.ind_relevant, want=list(region.faces))
    for kk, (normal, dist) in region.faces.items():
        close(obs.normal_directions[kk], normal, 1e-9, "normal of the face points to the other cluster")
        close(obs.inbetween_points[kk], (centers[kk] + region.center) / 2, 1e-9, "face is in the middle of the clusters")
        close(obs.get_inbetween_position(kk), (centers[kk] + region.center) / 2, 1e-9, "face is in the middle of the clusters")
    ctx.count("isolated", int(not region.faces))

    # center
    for frame, at in ((True, region.center.copy()), (False, np.zeros(dim))):
        before = at.copy()
        require(obs.get_gamma(at, in_global_frame=frame) > 1e100, "gamma is infinite at the center of the region")
        finite(obs.get_point_on_surface(at, in_global_frame=frame), "surface point of the center")
        normal = obs.get_normal_direction(at, in_global_frame=frame)
        close(LA.norm(normal), 1, 1e-9, "normal at the center is a unit vector", normal=normal)
        close(obs.get_reference_direction(at, in_global_frame=frame), np.zeros(dim), 1e-12, "no reference direction at the center")
        close(at, before, 0, "evaluation leaves the position unchanged")
        ctx.count("center")

    direction = _direction(rng, region, centers, dim)
    dist, face, gap = region.ray(direction)
    scale = 1 + LA.norm(region.center)
    ctx.count("sphere" if face == region.index else "face")
    for frame in (True, False):
        shift = region.center if frame else np.zeros(dim)
        probe = shift + direction * dist * rng.choice([0.01, 0.5, 1, 2])
        surface = obs.get_point_on_surface(probe, in_global_frame=frame)
        close(surface, shift + direction * dist, 1e-6 * scale, "surface point on the ray from the center", face=face)
        ctx.count("local", int(not frame))
    last = np.inf
    for factor in (1e-3, 0.2, 0.7, 1 - 1e-5, 1 + 1e-5, 1.5, 4.0, 50.0):
        position = region.center + direction * dist * factor
        before = position.copy()
        gamma = obs.get_gamma(position, in_global_frame=True)
        finite(gamma, "gamma finite", factor=factor)
        require((gamma > 1) == (factor < 1), "gamma is larger than one exactly inside of the region", factor=factor, gamma=gamma)
        require(obs.is_inside(position, in_global_frame=True) == (factor < 1), "is_inside is the interior of the region", factor=factor)
        if factor < 1:
            require(gamma <= last * (1 + 1e-9), "gamma decreases from the center to the surface", factor=factor, gamma=gamma, last=last)
            last = gamma
        ctx.count("inside" if factor < 1 else "outside")
        close(obs.get_gamma(position - region.center, in_global_frame=False), gamma, 1e-6 * max(1, gamma) * scale, "gamma is the same in local frame")
        normal = obs.get_normal_direction(position, in_global_frame=True)
        close(LA.norm(normal), 1, 1e-6, "normal is a unit vector", factor=factor)
        require(normal @ direction < 1e-9, "normal of a boundary points inward", factor=factor, normal=normal)
        if abs(factor - 1) < 1e-4 and gap > 0.01:
            close(normal, -region.normal(direction, face), 5e-3, "normal at the surface is the one of the face", face=face, factor=factor)
            close(gamma, 1, 1e-3, "gamma close to the surface is close to one", gamma=gamma)
        close(obs.get_normal_direction(position - region.center, in_global_frame=False), normal, 1e-4, "normal is the same in local frame")
        close(obs.get_reference_direction(position, in_global_frame=True), -direction, 1e-6, "reference direction points to the center")
        close(position, before, 0, "evaluation leaves the position unchanged")
        ctx.state("ray", centers, direction, factor)
    surface = obs.get_point_on_surface(region.center + direction, in_global_frame=True)
    close(obs.get_gamma(surface, in_global_frame=True), 1, 1e-6, "gamma is one on the surface")
    if gap > 1e-3:
        close(obs.get_normal_direction(surface, in_global_frame=True), -region.normal(direction, face), 1e-3,
              "normal on the surface is the one of the face", face=face)
    ctx.count("surface")


@check.sub(quick=1500, need=("through", "other", "unreachable", "opened"))
def transparent(rng, ctx):
    obs, region, centers, dim = _setup(rng)
    if centers.shape[0] < 2:
        raise Discard()
    closed = KMeansObstacle(kmeans=obs.kmeans, radius=region.radius, index=region.index)
    others = [kk for kk in range(centers.shape[0]) if kk != region.index]
    succ = int(rng.choice(list(region.faces) if region.faces and rng.uniform() < 0.8 else others))
    by_argument = rng.uniform() < 0.5
    kwargs = {"ind_transparent": succ} if by_argument else {}
    if not by_argument:
        obs.successor_index = [succ]
    direction = region.faces[succ][0].copy() if succ in region.faces and rng.uniform() < 0.4 else gen.unit(rng, dim)
    dist, face, gap = region.ray(direction)
    for factor in (1e-3, 0.3, 0.8, 0.95, 1 - 1e-5, 1.0, 1 + 1e-5, 1.3, 5.0):
        if factor == 1.0:
            position = closed.get_point_on_surface(region.center + direction, in_global_frame=True)
        else:
            position = region.center + direction * dist * factor
        gamma = obs.get_gamma(position, in_global_frame=True, **kwargs)
        base = closed.get_gamma(position, in_global_frame=True)
        finite(gamma, "gamma finite")
        require(gamma >= base * (1 - 1e-9) - 1e-9, "an opening never reduces gamma", gamma=gamma, closed=base, factor=factor)
        if succ not in region.faces:
            close(gamma, base, 1e-9 * base, "an opening to a cluster out of reach has no influence")
            ctx.count("unreachable")
            continue
        ctx.count("opened", int(gamma > base * 1.01))
        if abs(factor - 1) < 1e-4 and gap > 0.01:
            if face == succ:
                require(gamma > 100, "gamma is (close to) infinite at the opening", gamma=gamma, factor=factor)
                ctx.count("through")
            else:
                close(gamma, 1, 5e-3, "gamma is one at the closed faces", gamma=gamma, factor=factor, face=face)
                ctx.count("other")
        if not by_argument:
            require(obs.is_inside(position, in_global_frame=True) == closed.is_inside(position, in_global_frame=True),
                    "an opening does not change the interior", factor=factor)
    ctx.state("open", centers, direction, succ)


@check.sub(quick=800, need=("inside", "outside", "center"))
def solid(rng, ctx):
    """A region which is not a boundary."""
    obs, region, centers, dim = _setup(rng, is_boundary=False)
    close(obs.get_gamma(region.center.copy(), in_global_frame=True), 0, 1e-12, "gamma of a solid region is zero at the center")
    normal = obs.get_normal_direction(region.center.copy(), in_global_frame=True)
    close(LA.norm(normal), 1, 1e-9, "normal at the center is a unit vector")
    ctx.count("center")
    direction = _direction(rng, region, centers, dim)
    dist, face, gap = region.ray(direction)
    last = 0
    for factor in (0.01, 0.5, 0.9, 1 - 1e-5, 1 + 1e-5, 1.2, 2, 10):
        position = region.center + direction * dist * factor
        gamma = obs.get_gamma(position, in_global_frame=True)
        require(gamma is not None, "gamma of a solid region exists")
        finite(gamma, "gamma finite")
        require((gamma > 1) == (factor > 1), "gamma of a solid region is larger than one exactly outside", factor=factor, gamma=gamma)
        require(gamma >= last, "gamma of a solid region grows with the distance", factor=factor)
        last = gamma
        ctx.count("inside" if factor < 1 else "outside")
        normal = obs.get_normal_direction(position, in_global_frame=True)
        require(normal @ direction > -1e-9, "normal of a solid region points outward")
        if abs(factor - 1) < 1e-4:
            close(gamma, 1, 1e-3, "gamma close to the surface is close to one")
            if gap > 0.01:
                close(normal, region.normal(direction, face), 5e-3, "normal at the surface is the one of the face")
    ctx.state("solid", centers, direction)
