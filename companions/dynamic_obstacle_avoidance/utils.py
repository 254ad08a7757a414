import numpy as np
from numpy import linalg as LA


def compute_weights(
    distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2
):
    """Normalised inverse-distance weights."""
    dist = np.array(distMeas, dtype=float)
    critical = dist <= distMeas_lowerLimit
    if np.sum(critical):
        return critical / np.sum(critical)
    dist = dist - distMeas_lowerLimit
    weights = (1.0 / dist) ** weightPow
    if not np.sum(weights):
        return weights
    return weights / np.sum(weights)


def get_weight_from_inv_of_gamma(gamma_array, power_value=1.0):
    gamma_array = np.asarray(gamma_array, dtype=float)
    weights = np.zeros(gamma_array.shape)
    ind = gamma_array < 1
    weights[ind] = 1.0
    weights[~ind] = (1.0 / gamma_array[~ind]) ** power_value
    return weights


def get_relative_obstacle_velocity(
    position,
    obstacle_list,
    E_orth=None,
    gamma_list=None,
    weights=None,
    ind_obstacles=None,
    cut_off_gamma=1e10,
    **kwargs,
):
    """Weighted velocity of the obstacles at `position` (decays with gamma)."""
    n_obs = len(obstacle_list)
    if ind_obstacles is None:
        ind_obstacles = np.ones(n_obs, dtype=bool)
    relative_velocity = np.zeros(position.shape[0])
    for it, it_obs in enumerate(np.arange(n_obs)[ind_obstacles]):
        obs = obstacle_list[it_obs]
        velocity = np.zeros(position.shape[0])
        if obs.linear_velocity is not None:
            velocity = velocity + obs.linear_velocity
        angular = obs.angular_velocity
        if angular is not None and np.any(angular):
            delta = position - obs.center_position
            if position.shape[0] == 2:
                velocity = velocity + float(angular) * np.array([-delta[1], delta[0]])
            else:
                velocity = velocity + np.cross(angular, delta)
        decay = np.exp(-(max(gamma_list[it], 1.0) - 1.0))
        relative_velocity = relative_velocity + weights[it] * decay * velocity
    return relative_velocity
