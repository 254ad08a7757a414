"""P24: multivariate Gaussian density and its derivative."""
import numpy as np
from numpy import linalg as LA

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance.multivariant_gaussian import MultiVariantGaussian

check = Check(
    "P24",
    rule="random means and (well to badly conditioned) covariances in 1-5 dimensions, positions "
    "from the mean up to 6 standard deviations; non-trivial: distinct position and covariance",
    assumptions=["positive definite covariance with a condition number up to 1e7"],
)


def _gaussian(rng):
    dim = int(rng.integers(1, 6))
    mat = LA.qr(rng.normal(size=(dim, dim)))[0]
    spread = 3.5 if rng.integers(4) == 0 else 1
    eig = 10 ** rng.uniform(-spread, spread, size=dim) * rng.choice([1e-2, 1, 10])
    cov = (mat * eig) @ mat.T
    cov = 0.5 * (cov + cov.T)
    mean = rng.normal(size=dim) * rng.choice([0, 1, 10])
    given = rng.integers(3) == 0
    obj = MultiVariantGaussian(
        gen.frozen(mean), gen.frozen(cov), precision_cholesky=gen.frozen(LA.inv(cov)) if given else None
    )
    return obj, mean, cov


def _model(mean, cov, pos):
    delta = pos - mean
    return np.exp(-0.5 * delta @ LA.solve(cov, delta)) / np.sqrt(LA.det(2 * np.pi * cov))


@check.sub(quick=3000)
def density(rng, ctx):
    obj, mean, cov = _gaussian(rng)
    require(obj.dimension == len(mean), "dimension of the Gaussian")
    chol = LA.cholesky(cov)
    peak = obj.evaluate(np.copy(mean))
    close(peak / _model(mean, cov, mean), 1, 1e-8, "density at the mean")
    for _ in range(4):
        std = rng.normal(size=len(mean)) * rng.choice([0.1, 1, 2])
        pos = mean + chol @ std
        value = obj.evaluate(gen.frozen(pos))
        close(value / _model(mean, cov, pos), 1, 1e-6, "density of the Gaussian", mean=mean, cov=cov, pos=pos)
        require(0 < value <= peak * (1 + 1e-9), "density is positive and largest at the mean")
        close(obj.evaluate(2 * mean - pos) / value, 1, 1e-6, "density is point symmetric")
        ctx.state(mean, cov, pos)
    ctx.sample("gaussian", mean=mean, cov=cov, peak=peak)


@check.sub(quick=2500)
def derivative(rng, ctx):
    obj, mean, cov = _gaussian(rng)
    chol = LA.cholesky(cov)
    peak = _model(mean, cov, mean)
    size = np.sqrt(LA.eigvalsh(cov)[0])
    close(obj.evaluate_derivative(np.copy(mean)) * size / peak, np.zeros(len(mean)), 1e-12, "no slope at the mean")
    for _ in range(3):
        pos = mean + chol @ rng.normal(size=len(mean))
        grad = obj.evaluate_derivative(gen.frozen(pos))
        finite(grad, "derivative is finite")
        require(grad.shape == mean.shape, "shape of the derivative")
        step = 1e-4 * size
        numeric = np.array(
            [
                (obj.evaluate(pos + step * ee) - obj.evaluate(pos - step * ee)) / (2 * step)
                for ee in np.eye(len(mean))
            ]
        )
        close(grad * size / peak, numeric * size / peak, 1e-5, "derivative is the slope of the density", mean=mean, cov=cov, pos=pos)
        ctx.state(mean, cov, pos)
