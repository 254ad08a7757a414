import numpy as np
from numpy import linalg as LA


def get_orthogonal_basis(vector, normalize=True):
    """Right-handed orthogonal basis whose first column is `vector`."""
    vector = np.array(vector, dtype=float)
    norm = LA.norm(vector)
    if not norm:
        raise ValueError("Zero vector has no orthogonal basis.")
    if normalize:
        vector = vector / norm
    dim = vector.shape[0]
    basis = np.zeros((dim, dim))
    basis[:, 0] = vector
    if dim == 1:
        return basis
    if dim == 2:
        basis[:, 1] = [-vector[1], vector[0]]
        return basis
    if dim == 3:
        if LA.norm(vector[:2]) > 1e-3 * LA.norm(vector):
            second = np.array([-vector[1], vector[0], 0.0])
        else:
            second = np.array([0.0, -vector[2], vector[1]])
        second = second / LA.norm(second)
        basis[:, 1] = second
        basis[:, 2] = np.cross(vector / LA.norm(vector), second)
        return basis
    # General dimension: orthonormalise the unit axes
    count = 1
    unit = vector / LA.norm(vector)
    cols = [unit]
    for ii in np.argsort(np.abs(unit)):
        if count == dim:
            break
        cand = np.zeros(dim)
        cand[ii] = 1.0
        for cc in cols:
            cand = cand - cc * (cc @ cand)
        nn = LA.norm(cand)
        if nn < 1e-8:
            continue
        cand = cand / nn
        cols.append(cand)
        basis[:, count] = cand
        count += 1
    return basis
