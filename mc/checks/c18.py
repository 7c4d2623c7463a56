"""Sequential order of acyclic graphs."""
import itertools

from mc import graphs
from mc.lib import need
from spine_json_lib.graph.dagraph import DAGraph

RULE = ("every labelled acyclic graph up to the node bound (labels are insertion positions, so every insertion order of "
        "nodes is covered) x edge insertion orders (all of them up to 5 edges, six fixed ones beyond) x generated and "
        "given ids x graphs reached by removing edges and nodes again; non-trivial: a node has two parents or two children")


def bounds(tier):
    return "acyclic graphs of <= %d nodes; shapes of up to 1500 nodes" % (5 if tier == "quick" else 6)


def cases(tier):
    for n in range(0, 4):
        yield ["dags", n, []]
    for n in (4, 5) if tier == "quick" else (4, 5, 6):
        for rows in graphs.prefixes(n, 1 if n < 6 else 2):
            yield ["dags", n, rows]
    for k in (2, 5, 9, 12, 20, 60, 1500):
        yield ["shapes", k]


IDS = (["a", "b", "c", "d", "e", "f"], ["3", "2", "1", "10", "22", "0"], None)


def build(n, edges, ids):
    g = DAGraph()
    names = [g.add_node(node_id=ids[i] if ids else None).id for i in range(n)]
    for a, b in edges:
        g.add_edge(names[a], names[b])
    return g, names


def judge(g, names, edges, cov):
    order = g.sequential_order_of_execution()
    need(sorted(order) == sorted(names), "the order %s of the graph with edges %s does not hold every node of %s once",
         order, edges, names)
    at = {name: i for i, name in enumerate(order)}
    for a, b in edges:
        need(at[names[a]] < at[names[b]], "in the order %s of the graph with edges %s, %s comes before its parent %s",
             order, edges, names[b], names[a])
    cov.step()


def orders(edges):
    if len(edges) <= 5:
        yield from itertools.permutations(edges)
        return
    yield edges
    yield edges[::-1]
    yield edges[1::2] + edges[::2]
    yield edges[len(edges) // 2:] + edges[:len(edges) // 2]
    yield sorted(edges, key=lambda e: (e[1], e[0]))
    yield sorted(edges, key=lambda e: (-e[1], e[0]))


def check(case, cov):
    if case[0] == "shapes":
        k = case[1]
        for name, edges in (("chain", [(i, i + 1) for i in range(k - 1)]),
                            ("reverse chain", [(i + 1, i) for i in range(k - 1)]),
                            ("star", [(0, i) for i in range(1, k)]),
                            ("isolated", []), ("pairs", [(i, i + 1) for i in range(0, k - 1, 2)]),
                            ("back pairs", [(i + 1, i) for i in range(0, k - 1, 2)]),
                            ("comb", [(i, k - 1 - i) for i in range(k // 2)]),
                            ("layers", [(i, j) for i in range(k // 2) for j in range(k // 2, k)]),
                            ("sink", [(i, 0) for i in range(1, k)]),
                            ("ladder", [(i, j) for i in range(k) for j in (i + 1, i + 2) if j < k]),
                            ("back ladder", [(j, i) for i in range(k) for j in (i + 1, i + 2) if j < k])):
            if len(edges) > 10 * k and k > 100:
                continue
            g, names = build(k, edges, None)
            judge(g, names, edges, cov)
            cov.outcome(name)
            for a, b in edges[::max(1, k // 5)]:
                g.remove_edge(names[a], names[b])
                edges = [e for e in edges if e != (a, b)]
                judge(g, names, edges, cov)
        cov.trace()
        return
    _, n, rows = case
    for edges in graphs.acyclic(n, rows):
        cov.state([n, edges])
        small = n <= 4
        for i, es in enumerate(orders(edges)):
            if not small and i >= (6 if n == 5 else 2):
                break
            for ids in IDS[:1] if i else IDS:
                g, names = build(n, es, ids)
                judge(g, names, es, cov)
        if n <= 4:
            # the same graph after edges and nodes came and went
            g, names = build(n, edges, IDS[0])
            extra = g.add_node(node_id="x").id
            for i, name in enumerate(names):
                g.add_edge(*((extra, name) if i % 2 else (name, extra)))
            g.remove_node_by_id(extra)
            judge(g, names, edges, cov)
            for a, b in edges:
                g.remove_edge(names[a], names[b])
                rest = [e for e in edges if e != (a, b)]
                judge(g, names, rest, cov)
                g.add_edge(names[a], names[b])
                judge(g, names, edges, cov)
            for k in range(n):
                g, names = build(n, edges, IDS[0])
                g.remove_node_by_id(names[k])
                keep = [i for i in range(n) if i != k]
                judge(g, [names[i] for i in keep],
                      [(keep.index(a), keep.index(b)) for a, b in edges if k not in (a, b)], cov)
        cov.outcome("%d nodes" % n)
    cov.trace()
