"""P22: book-keeping of the hierarchy graphs (histories against a reference model)."""
import numpy as np

from vt.core import Check
from vt.oracle import require

from nonlinear_avoidance.graph_handler import BasicGraphHandler, GraphElement, GraphHandler

check = Check(
    "P22",
    rule="random histories (up to 40 operations) of adding, moving, linking and removing nodes with "
    "integer, string, tuple and equal values; every state is compared to a reference model; "
    "non-trivial: a distinct state of the graph",
    assumptions=["a node is never moved below itself (the result would not be a hierarchy)"],
)


def _values(rng, number):
    kind = rng.integers(4)
    if kind == 0:
        return list(range(number))
    if kind == 1:
        return [f"node{ii}" for ii in range(number)]
    if kind == 2:
        return [(ii, -ii) for ii in range(number)]
    return [int(vv) for vv in rng.permutation(number * 3)[:number] - number]


def _below(model, node):
    """Descendants (and itself) in the {child: parent} model."""
    found = {node}
    grow = True
    while grow:
        grow = False
        for child, parent in model.items():
            if parent in found and child not in found:
                found.add(child)
                grow = True
    return found


def _compare_handler(graph, model, order, ctx):
    """model: {value: parent or None}; order: {parent: [children in order of attachment]}"""
    require(graph.n_nodes == len(model), "number of nodes")
    for value, parent in model.items():
        require(graph.get_parent(value) == parent, "parent of a node", value=value)
        children = graph.get_children(value)
        require(
            sorted(map(repr, children)) == sorted(map(repr, order[value])),
            "children of a node", value=value, actual=children, expected=order[value],
        )
    roots = [vv for vv, pp in model.items() if pp is None]
    require(sorted(map(repr, graph.roots)) == sorted(map(repr, roots)), "roots of the graph", roots=graph.roots)
    require(len(graph.get_root_indices()) == len(roots), "number of roots")
    listed = list(graph.get_nodes_hirarchy_descending())
    require(sorted(map(repr, listed)) == sorted(map(repr, model)), "descending list has every node once", listed=listed)
    position = {vv: ii for ii, vv in enumerate(listed)}
    level = {}
    for value in listed:
        parent = model[value]
        if parent is not None:
            require(position[parent] < position[value], "parents are listed before their children")
        level[value] = 0 if parent is None else level[parent] + 1
    require([level[vv] for vv in listed] == sorted(level.values()), "descending list goes level by level")
    ctx.count("compared_states")
    ctx.state(repr(sorted((repr(kk), repr(vv)) for kk, vv in model.items())))


@check.sub(quick=1500, need=("compared_states", "moved", "refused", "given_values"))
def handler_histories(rng, ctx):
    names = _values(rng, 14)
    start = rng.integers(4)
    if start == 0:
        graph, present = GraphHandler(), []
    elif start == 1:
        number = int(rng.integers(1, 5))
        names = list(range(14))
        graph, present = GraphHandler(n_nodes=number), names[:number]
    else:
        given = names[: int(rng.integers(1, 5))]
        backup = list(given)
        graph, present = GraphHandler(node_values=given), list(given)
        ctx.count("given_values")
    free = [nn for nn in names if nn not in present]
    model = {nn: None for nn in present}
    order = {nn: [] for nn in present}
    trace = []
    for _ in range(int(rng.integers(3, 30))):
        action = rng.integers(6)
        if (action == 0 or not model) and free:
            value = free.pop(int(rng.integers(len(free))))
            graph.set_root(value)
            model[value], order[value] = None, []
            trace.append(("root", value))
        elif action <= 3 and free and model:
            value = free.pop(int(rng.integers(len(free))))
            parent = list(model)[int(rng.integers(len(model)))]
            graph.add_element_with_parent(value, parent)
            model[value], order[value] = parent, []
            order[parent].append(value)
            trace.append(("add", value, parent))
        elif action == 4 and len(model) > 1:
            value = list(model)[int(rng.integers(len(model)))]
            options = [vv for vv in model if vv not in _below(model, value)]
            if not options:
                continue
            parent = options[int(rng.integers(len(options)))]
            if model[value] is not None:
                order[model[value]].remove(value)
                ctx.count("moved")
            graph.set_parent_of_element(value, parent)
            model[value] = parent
            order[parent].append(value)
            trace.append(("move", value, parent))
        elif action == 5 and model and free:
            # An unknown parent is refused, and nothing changes
            try:
                graph.add_element_with_parent(free[0], "does not exist")
            except (ValueError, KeyError):
                ctx.count("refused")
            else:
                require(False, "an unknown parent is refused")
        _compare_handler(graph, model, order, ctx)
    if start >= 2:
        require(given == backup, "the given list of values is not modified")
    ctx.sample("history", trace=[repr(tt) for tt in trace])


@check.sub(quick=1500, need=("element_moved", "expelled", "equal_values"))
def element_histories(rng, ctx):
    number = int(rng.integers(3, 9))
    equal = rng.uniform() < 0.3
    elements = [GraphElement(0 if equal else ii) for ii in range(number)]
    ctx.count("equal_values", equal)
    model = {ii: None for ii in range(number)}
    expelled = set()
    for _ in range(int(rng.integers(3, 25))):
        child, parent = (int(vv) for vv in rng.integers(number, size=2))
        if rng.integers(8) == 0:
            elements[child].expel()
            model = {cc: (None if pp == child or cc == child else pp) for cc, pp in model.items()}
            expelled.add(child)
            ctx.count("expelled")
        elif parent not in _below(model, child):
            if model[child] is not None:
                ctx.count("element_moved")
            if rng.integers(2):
                elements[parent].add_child(elements[child])
            else:
                elements[child].set_parent(elements[parent])
            model[child] = parent
        for ii in range(number):
            expected = None if model[ii] is None else elements[model[ii]]
            require(elements[ii].parent is expected, "parent of an element")
            children = [id(cc) for cc in elements[ii].children]
            want = [id(elements[jj]) for jj in model if model[jj] == ii]
            require(sorted(children) == sorted(want), "children of an element", ii=ii)
            require(elements[ii].number_of_children == len(want), "number of children")
        ctx.state("element", number, equal, repr(sorted(model.items(), key=repr)))


@check.sub(quick=800, need=("deleted", "root deleted"))
def basic_graph_histories(rng, ctx):
    graph = BasicGraphHandler()
    require(graph.root is None, "an empty graph has no root")
    graph.root = "root"
    require(graph.root.value == "root" and graph.root.parent is None, "root of the graph")
    model = {"root": None}
    handles = {"root": graph.root}
    for ii in range(int(rng.integers(2, 20))):
        if rng.integers(4) and handles:
            parent = list(handles)[int(rng.integers(len(handles)))]
            graph.add_element_with_parent(ii, handles[parent])
            found = [cc for cc in handles[parent].children if cc.value == ii]
            require(len(found) == 1, "a new element is a child of its parent")
            require(found[0].parent is handles[parent], "a new element knows its parent")
            handles[ii] = found[0]
            model[ii] = parent
        elif len(handles) > 1:
            names = list(handles)
            gone = names[int(rng.integers(len(names)))]
            if gone == "root" and rng.integers(4):
                continue
            graph.delete_element(handles.pop(gone))
            model.pop(gone)
            model = {cc: (None if pp == gone else pp) for cc, pp in model.items()}
            ctx.count("deleted")
        if "root" in handles:
            require(graph.root is handles["root"], "root remains")
        else:
            require(graph.root is None, "a deleted root is not the root anymore")
            ctx.count("root deleted")
        for name, handle in handles.items():
            expected = None if model[name] is None else handles[model[name]]
            require(handle.parent is expected, "parent after deletion")
            require(
                sorted(str(cc.value) for cc in handle.children)
                == sorted(str(cc) for cc in model if model[cc] == name),
                "children after deletion", name=name,
            )
        ctx.state("basic", repr(sorted(model.items(), key=repr)))
