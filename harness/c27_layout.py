""" C27: layouts of graphs. """
import itertools

import networkx as nx

from dessia_common.graph import explore_tree_from_leaves, get_column_by_node, get_longest_path, get_paths_from_to
from dessia_common.workflow.core import Pipe, Variable, Workflow
from symex.ctx import harness
from harness.c11_inputs import Collect


def acyclic(ctx, low, high):
    """ An acyclic graph: (graph, nodes, edges), the nodes being added in any order. """
    n = ctx.length("n", low, high)
    nodes = ctx.choice("order", list(itertools.permutations(range(n))) if n <= 4 else [tuple(range(n)), tuple(reversed(range(n)))])
    edges = [(i, j) for i in range(n) for j in range(i + 1, n) if ctx.flag(f"edge{i}{j}")]
    graph = nx.DiGraph()
    graph.add_nodes_from(nodes)
    graph.add_edges_from(edges)
    return graph, list(nodes), edges


def paths(edges, start, end):
    """ All the paths from start to end. """
    if start == end:
        return [[start]]
    return [[start] + p for a, b in edges if a == start for p in paths(edges, b, end)]


@harness("C27", bounds="acyclic graphs of 1..4 (quick) / 1..5 (thorough) nodes with any edges, the nodes in any order", shards=8)
def columns(ctx):
    """ Every node in one column, after those it depends on. """
    graph, nodes, edges = acyclic(ctx, 1, ctx.bound(4, 5))
    got = get_column_by_node(graph)
    ctx.check(sorted(got) == sorted(nodes), "every node once", got)
    for a, b in edges:
        ctx.check(got[a] < got[b], "a node comes after those it depends on", (edges, got))
    ctx.check(sorted(set(got.values())) == list(range(max(got.values()) + 1)), "columns are numbered from zero", (edges, got))
    longest = max(len(p) for a in nodes for b in nodes for p in paths(edges, a, b))
    ctx.check(max(got.values()) + 1 == longest, "no more columns than needed", (edges, got))
    ctx.check(list(graph.nodes) == nodes and sorted(graph.edges) == sorted(edges), "the graph is left alone")


@harness("C27", bounds="acyclic graphs of 1..4 (quick) / 1..5 (thorough) nodes with any edges, the nodes in any order; cycles of 2..3",
         shards=8)
def leaves_first(ctx):
    """ Every node after those it points to. """
    graph, nodes, edges = acyclic(ctx, 1, ctx.bound(4, 5))
    if ctx.flag("cycle") and edges:
        a, b = edges[ctx.choice("closing", list(range(len(edges))))]
        graph.add_edge(b, a)
        try:
            explore_tree_from_leaves(graph)
        except NotImplementedError:
            return
        ctx.fail("a cycle is refused")
    order = list(explore_tree_from_leaves(graph))
    ctx.check(sorted(order) == sorted(nodes), "every node once", order)
    for a, b in edges:
        ctx.check(order.index(a) > order.index(b), "what a node points to comes first", (edges, order))


@harness("C27", bounds="acyclic graphs of 2..4 (quick) / 2..5 (thorough) nodes with any edges, from any two nodes to any two", shards=8)
def longest(ctx):
    """ Longest paths. """
    n = ctx.length("n", 2, ctx.bound(4, 5))
    edges = [(i, j) for i in range(n) for j in range(i + 1, n) if ctx.flag(f"edge{i}{j}")]
    graph = nx.DiGraph()
    graph.add_nodes_from(range(n))
    graph.add_edges_from(edges)
    start = ctx.choice("start", list(range(n)))
    end = ctx.choice("end", [i for i in range(n) if i != start])
    possible = paths(edges, start, end)
    try:
        path = get_longest_path(graph, start, end)
    except nx.exception.NetworkXNoPath:
        ctx.check(not possible, "a path is found when there is one")
    else:
        ctx.check(path in possible, "a path of the graph", path)
        ctx.check(len(path) == max(map(len, possible)), "none is longer", path)
    starts = [start, (start + 1) % n]
    ends = [e for e in (end, (end + 1) % n) if e not in starts]
    got = get_paths_from_to(graph, starts, ends)
    joined = [(a, b) for a in starts for b in ends if paths(edges, a, b)]
    ctx.check([(p[0], p[-1]) for p in got] == joined, "one path per pair of nodes that are joined", got)
    for p in got:
        ctx.check(p in paths(edges, p[0], p[-1]) and len(p) == max(map(len, paths(edges, p[0], p[-1]))), "which is the longest", p)


@harness("C27", bounds="workflows of 3 blocks of 2 inputs, each fed by one of two variables, a previous block or nothing; blocks in 2 orders",
         shards=8)
def workflows(ctx):
    """ The layout of a workflow shows each of its nodes once, component by component, after those it depends on. """
    blocks = [Collect(2, name=f"block{i}") for i in range(3)]
    free = [Variable(type_=object, name=f"free{i}") for i in range(2)]
    pipes, edges = [], []
    for i, block in enumerate(blocks):
        for j, variable in enumerate(block.inputs):
            sources = ["nothing", 0, 1] + [f"block{k}" for k in range(i)]
            if j == 1 and i < 2:
                sources = sources[1:]
            source = ctx.choice(f"source{i}{j}", ctx.bound(sources if i else ["nothing", 0] if j == 0 else [0, 1], sources))
            if source == "nothing":
                continue
            if isinstance(source, int):
                pipes.append(Pipe(free[source], variable))
                edges.append((free[source], block))
            else:
                origin = blocks[int(source[-1])]
                pipes.append(Pipe(origin.outputs[0], variable))
                edges.append((origin, block))
    given = blocks[::-1] if ctx.flag("backwards") else list(blocks)
    flow = Workflow(given, pipes, blocks[2].outputs[0])
    nodes = list(flow.nodes)
    got = flow.layout()
    shown = [i for component in got for column in component for i in column]
    ctx.check(sorted(shown) == list(range(len(nodes))), "every node once", got)
    place = {}
    for number, component in enumerate(got):
        for position, column in enumerate(component):
            for i in column:
                place[i] = (number, position)
    index = {id(node): i for i, node in enumerate(nodes)}
    links = [(index[id(a)], index[id(b)]) for a, b in edges]
    for a, b in links:
        ctx.check(place[a][0] == place[b][0], "nodes that are piped are in the same part", got)
        ctx.check(place[a][1] < place[b][1], "a node comes after those it depends on", got)
    groups = list(range(len(nodes)))
    for a, b in links * len(nodes):
        groups[a] = groups[b] = min(groups[a], groups[b])
    ctx.check(len(got) == len(set(groups)), "one part for each set of nodes piped together", got)
