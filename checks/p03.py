"""P03: weighted mean of directions which are organised in a tree."""
import math

import numpy as np
from numpy import linalg as LA

from vt import gen
from vt.core import Check
from vt.oracle import close, finite, require

from nonlinear_avoidance import vector_rotation as vr

check = Check(
    "P03",
    rule="random direction trees (chains, stars, mixed; up to 14 nodes, 2-5 dimensions, integer, "
    "negative and tuple node-ids) with random / one-hot / uniform weights; non-trivial: the mean "
    "differs from the root",
    assumptions=["angles between parent and child are below pi - 0.05 (no unique mean otherwise)"],
)


def node_ids(rng, number):
    kind = rng.integers(4)
    if kind == 0:
        ids = list(range(number))
    elif kind == 1:
        ids = [-(ii + 1) for ii in range(number)]
    elif kind == 2:
        ids = [(ii // 3, ii % 3, -1) for ii in range(number)]
    else:
        ids = [f"n{ii}" for ii in range(number)]
    perm = rng.permutation(number)
    return [ids[ii] for ii in perm]


def random_tree(rng, dim, max_nodes=12, shape=None):
    """Returns list of (parent_index, direction); the first one is the root."""
    number = int(rng.integers(2, max_nodes + 1))
    shape = shape or rng.choice(["chain", "star", "mixed", "mixed", "binary"])
    nodes = [(None, gen.unit(rng, dim))]
    for ii in range(1, number):
        if shape == "chain":
            parent = ii - 1
        elif shape == "star":
            parent = 0
        elif shape == "binary":
            parent = (ii - 1) // 2
        else:
            parent = int(rng.integers(ii))
        kind = rng.integers(6)
        if kind == 0:
            direction = np.copy(nodes[parent][1])
        else:
            direction = gen.rotated_by(rng, nodes[parent][1], rng.uniform(1e-3, math.pi - 0.05))
        nodes.append((parent, direction))
    return nodes


def build(nodes, ids, order=None, scale=None):
    tree = vr.VectorRotationTree()
    tree.set_root(ids[0], nodes[0][1] if scale is None else nodes[0][1] * scale[0])
    for ii in order if order is not None else range(1, len(nodes)):
        parent, direction = nodes[ii]
        tree.add_node(
            node_id=ids[ii],
            direction=direction if scale is None else direction * scale[ii],
            parent_id=ids[parent],
        )
    return tree


def valid_order(rng, nodes):
    """Random insertion order (parents first)."""
    todo = list(range(1, len(nodes)))
    done = {0}
    order = []
    while todo:
        ready = [ii for ii in todo if nodes[ii][0] in done]
        pick = int(rng.choice(ready))
        order.append(pick)
        done.add(pick)
        todo.remove(pick)
    return order


def mean_of(tree, ids, weights, nodes_subset=None):
    subset = range(len(ids)) if nodes_subset is None else nodes_subset
    return tree.get_weighted_mean(
        node_list=[ids[ii] for ii in subset], weights=[weights[ii] for ii in subset]
    )


@check.sub(quick=1600)
def single_node(rng, ctx):
    """Full weight on a node gives this node."""
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim)
    ids = node_ids(rng, len(nodes))
    scale = [gen.magnitude(rng) for _ in nodes]
    tree = build(nodes, ids, scale=scale)
    for kk in rng.permutation(len(nodes))[:4]:
        if rng.uniform() < 0.5:
            mean = tree.get_weighted_mean(node_list=[ids[kk]], weights=[1.0])
        else:
            ww = np.zeros(len(nodes))
            ww[kk] = 1.0
            mean = mean_of(tree, ids, ww)
        close(mean, nodes[kk][1], 1e-6, "full weight on one node returns its direction", kk=int(kk))
    ctx.state(dim, *[d for _, d in nodes])
    ctx.sample("tree", parents=[p for p, _ in nodes], directions=[d for _, d in nodes])


@check.sub(quick=1500, need=("nonroot",))
def well_defined(rng, ctx):
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim)
    ids = node_ids(rng, len(nodes))
    weights = gen.weights(rng, len(nodes))
    tree = build(nodes, ids)
    mean = mean_of(tree, ids, weights)
    finite(mean, "mean is finite")
    close(LA.norm(mean), 1.0, 1e-7, "mean is a unit vector")

    # Order of nodes is irrelevant
    tree2 = build(nodes, ids, order=valid_order(rng, nodes), scale=[gen.magnitude(rng) for _ in nodes])
    perm = rng.permutation(len(nodes))
    close(mean_of(tree2, ids, weights, perm), mean, 1e-6, "mean does not depend on the node order")
    # Names are irrelevant
    ids2 = [("x", ii) for ii in rng.permutation(len(nodes))]
    close(mean_of(build(nodes, ids2), ids2, weights), mean, 1e-6, "mean does not depend on the node names")
    # Frame
    mat = gen.rotation_matrix(rng, dim)
    moved = [(pp, mat @ dd) for pp, dd in nodes]
    close(mean_of(build(moved, ids), ids, weights), mat @ mean, 1e-5, "mean does not depend on the frame")
    # Nodes with zero weight do not matter
    nonzero = [ii for ii in range(len(nodes)) if weights[ii] > 0]
    close(mean_of(tree, ids, weights, nonzero), mean, 1e-6, "zero weight is the same as not being listed")
    extra = nodes + [(int(rng.integers(len(nodes))), None)]
    extra[-1] = (extra[-1][0], gen.rotated_by(rng, nodes[extra[-1][0]][1], rng.uniform(0.1, 3.0)))
    ids3 = ids + ["extra"]
    close(
        mean_of(build(extra, ids3), ids3, np.append(weights, 0.0)), mean, 1e-6,
        "an additional node without weight does not change the mean",
    )
    # History
    other = gen.weights(rng, len(nodes))
    mean_of(tree, ids, other)
    close(mean_of(tree, ids, weights), mean, 1e-9, "repeated evaluation gives the same mean")
    # Continuity
    shifted = weights + 1e-7 * rng.uniform(0, 1, size=len(nodes))
    close(mean_of(tree, ids, shifted / np.sum(shifted)), mean, 1e-3, "mean is continuous in the weights")
    if gen.angle_between(mean, nodes[0][1]) > 1e-4:
        ctx.count("nonroot")
        ctx.state(dim, mean, weights)


@check.sub(quick=1200)
def star_is_tangent_average(rng, ctx):
    """Children of a common root: weighted average of the rotations."""
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, shape="star", max_nodes=9)
    ids = node_ids(rng, len(nodes))
    weights = gen.weights(rng, len(nodes))
    root = nodes[0][1]
    tangent = np.zeros(dim)
    for ww, (_, dd) in zip(weights[1:], nodes[1:]):
        angle = gen.angle_between(root, dd)
        if angle < 1e-6:
            continue
        perp = dd - root * (dd @ root)
        tangent += ww * angle * perp / LA.norm(perp)
    norm = LA.norm(tangent)
    expected = root if norm < 1e-12 else np.cos(norm) * root + np.sin(norm) * tangent / norm
    mean = mean_of(build(nodes, ids), ids, weights)
    close(mean, expected, 1e-5, "star: weighted average of the rotations", weights=weights)
    largest = max(gen.angle_between(root, dd) for _, dd in nodes[1:])
    require(gen.angle_between(root, mean) <= largest + 1e-5, "star: mean is within the largest rotation")
    ctx.state(dim, mean, weights)


@check.sub(quick=1200)
def chain_equals_sequence(rng, ctx):
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, shape="chain", max_nodes=7)
    ids = node_ids(rng, len(nodes))
    weights = gen.weights(rng, len(nodes))
    seq = vr.VectorRotationSequence.create_from_vector_array(np.vstack([d for _, d in nodes]).T)
    cumulated = np.cumsum(weights[::-1])[::-1][1:]
    # Model: apply fractions of the rotations, starting from the tip
    model = None
    base = np.copy(seq.basis_array)
    mats = []
    for ii in range(seq.n_rotations):
        mats.append((base[:, ii, :], seq.rotation_angles[ii]))

    def plane(bb, angle):
        cc, ss = np.cos(angle), np.sin(angle)
        return np.eye(dim) - bb @ bb.T + bb @ np.array([[cc, -ss], [ss, cc]]) @ bb.T

    total = np.eye(dim)  # accumulated (partial * full^-1)
    direction = nodes[0][1]
    frames = np.eye(dim)
    for ii, (bb, angle) in enumerate(mats):
        moved = frames @ bb
        part = plane(moved, angle * cumulated[ii])
        full = plane(moved, angle)
        direction = part @ direction
        frames = part @ full.T @ frames
    mean = mean_of(build(nodes, ids), ids, weights)
    close(mean, direction, 1e-5, "chain: partial rotations are applied one after the other", weights=weights)
    ctx.state(dim, mean, weights)


@check.sub(quick=1000)
def merging_equal_siblings(rng, ctx):
    """Two equal branches act as a single one with the summed weight."""
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, max_nodes=7)
    leaf = int(rng.integers(1, len(nodes)))
    if any(pp == leaf for pp, _ in nodes):
        leaf = len(nodes) - 1
    weights = gen.weights(rng, len(nodes), zeros=False)
    ids = node_ids(rng, len(nodes))
    single = mean_of(build(nodes, ids), ids, weights)
    share = rng.uniform()
    split = nodes + [(nodes[leaf][0], np.copy(nodes[leaf][1]))]
    ww = np.append(weights, weights[leaf] * (1 - share))
    ww[leaf] = weights[leaf] * share
    ids2 = ids + ["copy"]
    close(mean_of(build(split, ids2), ids2, ww), single, 1e-5, "equal siblings can be merged")
    ctx.state(dim, single)


@check.sub(quick=1500, need=("sequences",))
def reduction_is_consistent(rng, ctx):
    """The reduced sequence starts at the root, is connected, and ends in the mean."""
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, max_nodes=9)
    ids = node_ids(rng, len(nodes))
    weights = gen.weights(rng, len(nodes))
    tree = build(nodes, ids)
    seq = tree.reduce_weighted_to_sequence(ids, weights)
    mean = mean_of(tree, ids, weights)
    close(seq.get_end_vector(), mean, 1e-8, "reduced sequence ends in the mean")
    close(seq.basis_array[:, 0, 0], nodes[0][1], 1e-7, "reduced sequence starts at the root")
    current = nodes[0][1]
    for ii in range(seq.n_rotations):
        base, angle = seq.basis_array[:, ii, :], seq.rotation_angles[ii]
        close(base[:, 0], current, 1e-5, "reduced sequence is connected", ii=ii)
        if abs(angle) > 1e-9:
            close(base.T @ base, np.eye(2), 1e-6, "reduced sequence has orthonormal bases")
            current = np.cos(angle) * base[:, 0] + np.sin(angle) * base[:, 1]
    close(current, mean, 1e-5, "rotating the root through the reduced sequence gives the mean")
    ctx.count("sequences")
    ctx.state(dim, mean, weights)


@check.sub(quick=1000, need=("sequence_nodes",))
def sequences_in_trees(rng, ctx):
    dim = gen.dim(rng)
    root_dir = gen.unit(rng, dim)
    sequences = []
    for _ in range(int(rng.integers(1, 5))):
        vecs = [root_dir]
        for _ in range(int(rng.integers(1, 4))):
            vecs.append(gen.rotated_by(rng, vecs[-1], rng.uniform(0.01, 3.0)))
        sequences.append(np.vstack(vecs).T)
    make = vr.VectorRotationSequence.create_from_vector_array
    tree = vr.VectorRotationTree.from_sequence(root_id=-10, node_id=(0, 0), sequence=make(sequences[0]))
    for ii, vecs in enumerate(sequences[1:], 1):
        tree.add_sequence(node_id=(0, ii), sequence=make(vecs), parent_id=-10)
    ids = [(0, ii) for ii in range(len(sequences))]
    for ii, vecs in enumerate(sequences):
        close(tree.get_weighted_mean([ids[ii]], [1.0]), vecs[:, -1], 1e-6, "sequence node is the end of the sequence")
        reduced = tree.reduce_weighted_to_sequence([ids[ii]], [1.0])
        close(reduced.get_end_vector(), vecs[:, -1], 1e-6, "reduced sequence node")
        ctx.count("sequence_nodes")
    close(tree.get_weighted_mean([-10], [1.0]), root_dir, 1e-6, "common root of the sequences")
    weights = gen.weights(rng, len(sequences))
    mean = tree.get_weighted_mean(ids, weights)
    close(LA.norm(mean), 1.0, 1e-7, "mean of sequences is a unit vector")
    # the same tree, built from single nodes
    nodes = [(None, root_dir)]
    tips = []
    for vecs in sequences:
        parent = 0
        for jj in range(1, vecs.shape[1]):
            nodes.append((parent, vecs[:, jj]))
            parent = len(nodes) - 1
        tips.append(parent)
    names = list(range(len(nodes)))
    direct = build(nodes, names)
    close(
        direct.get_weighted_mean(tips, weights), mean, 1e-5,
        "sequences in a tree equal the tree of the single nodes",
    )
    # Misaligned sequences are refused
    wrong = np.copy(sequences[0])
    wrong[:, 0] = gen.rotated_by(rng, root_dir, 0.5)
    try:
        tree.add_sequence(node_id="wrong", sequence=make(wrong), parent_id=-10)
    except ValueError:
        ctx.count("refused")
    else:
        require(False, "a sequence which does not start at its parent is refused")
    ctx.state(dim, mean, weights)


@check.sub(quick=600)
def rotating_by_the_mean(rng, ctx):
    """The tree rotates vectors by the rotation from the root to the mean."""
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, max_nodes=6)
    ids = node_ids(rng, len(nodes))
    weights = gen.weights(rng, len(nodes))
    tree = build(nodes, ids)
    mean = mean_of(tree, ids, weights)
    if mean @ nodes[0][1] < -0.99:
        return
    close(tree.rotate(nodes[0][1], ids, weights), mean, 1e-5, "tree rotates its root onto the mean")
    vec = gen.unit(rng, dim) * gen.magnitude(rng)
    out = tree.rotate(vec, ids, weights)
    close(LA.norm(out) / LA.norm(vec), 1, 1e-7, "tree rotation preserves lengths")
    back = tree.inverse_rotate(out, ids, weights)
    close(back / LA.norm(vec), vec / LA.norm(vec), 1e-6, "inverse tree rotation undoes it")
    ctx.state(dim, mean, vec)


@check.sub(quick=800)
def structure_queries(rng, ctx):
    dim = gen.dim(rng)
    nodes = random_tree(rng, dim, max_nodes=9)
    ids = node_ids(rng, len(nodes))
    tree = build(nodes, ids, order=valid_order(rng, nodes))
    index = {ids[ii]: ii for ii in range(len(ids))}

    def ancestors(ii):
        out = []
        while nodes[ii][0] is not None:
            ii = nodes[ii][0]
            out.append(ii)
        return out

    for ii in range(len(nodes)):
        children = {index[cc] for cc in tree.get_children(ids[ii])}
        require(children == {jj for jj in range(len(nodes)) if nodes[jj][0] == ii}, "children of a node")
        below = sorted(index[cc] for cc in tree.get_all_childs_children(ids[ii]))
        require(
            below == sorted(jj for jj in range(len(nodes)) if ii in ancestors(jj)), "all nodes below a node"
        )
        if ii:
            require(index[tree.get_parent(ids[ii])] == nodes[ii][0], "parent of a node")
    order = [index[nn] for nn in tree.get_nodes_ascending()]
    require(sorted(order) == list(range(len(nodes))), "all nodes are listed once")
    levels = [len(ancestors(ii)) for ii in order]
    require(levels == sorted(levels), "nodes are listed by level")

    # New direction of an (inner) node
    if rng.integers(2):
        # ... before or after an evaluation
        mean_of(tree, ids, gen.weights(rng, len(nodes)))
    kk = int(rng.integers(0, len(nodes)))
    fresh = gen.rotated_by(rng, nodes[nodes[kk][0] if kk else 0][1], rng.uniform(0.1, 3.0))
    if any(nodes[jj][0] == kk and nodes[jj][1] @ fresh < -0.99 for jj in range(len(nodes))):
        return
    tree.set_direction(ids[kk], fresh)
    changed = list(nodes)
    changed[kk] = (nodes[kk][0], fresh)
    weights = gen.weights(rng, len(nodes))
    close(
        mean_of(tree, ids, weights), mean_of(build(changed, ids), ids, weights), 1e-6,
        "changing a direction acts like building the tree with it",
    )
    ctx.state(dim, *[d for _, d in nodes])
