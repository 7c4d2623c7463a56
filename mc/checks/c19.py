"""Graph validation and path enumeration."""
import itertools

from mc import graphs
from mc.lib import need
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.graph_validator import UCNodeType

RULE = ("every labelled digraph up to the node bound, cyclic or not (labels are insertion positions) x every assignment "
        "of node types x two edge insertion orders: the validation verdicts; every pair of nodes and unknown ids x every limit on the "
        "path length: the paths; long chains around the default limit; non-trivial: the graph has a "
        "cycle, an unconnected node, or more than one path")

ROOT = UCNodeType.INPUT_ROOT_NODE_TYPE.name
IDS = ["b", "a", "1", "3", "2", "0"]
KINDS = (ROOT, "DEFAULT")


def bounds(tier):
    return "digraphs of <= %d nodes; rings, chains and trees of up to 1500 nodes" % (4 if tier == "quick" else 5)


def cases(tier):
    for n in (0, 1, 2, 3):
        for types in itertools.product((0, 1), repeat=n):
            yield ["all", n, types, None]
    for types in itertools.product((0, 1), repeat=4):
        for lo in range(0, 4096, 256):
            yield ["all", 4, types, lo]
    for rows in graphs.prefixes(5, 2):
        yield ["dags", 5, rows]
    if tier == "thorough":
        for lo in range(0, 1 << 20, 4096):
            yield ["all5", lo]
        for rows in graphs.prefixes(6, 2):
            yield ["dags6", rows]
    for k in range(17, 24):
        yield ["chain", k]
    for k in (6, 9, 14, 40, 1500):
        for shape in ("ring", "rho", "late", "two", "chain", "in tree", "diamonds"):
            for order in (0, 1):
                yield ["large", k, shape, order]
    yield ["types"]


def fresh(text):
    """An equal string that is not the same object."""
    return "".join(list(text))


def build(n, edges, types):
    g = DAGraph()
    for i in range(n):
        g.add_node(node_id=fresh(IDS[i]), node_type=fresh(types[i]))
    for a, b in edges:
        g.add_edge(fresh(IDS[a]), fresh(IDS[b]))
    return g


def verdict(g, n, edges, types, cov):
    cyclic = graphs.has_cycle(n, edges)
    lonely = sorted(IDS[i] for i in range(n)
                    if types[i] != ROOT and not any(b == i for _, b in edges))
    found = {}
    for e in g.validate().errors:
        for k, v in e.items():
            need(k not in found, "%s is reported twice", k)
            found[k] = list(v)
    need(set(found) <= {"CIRCULAR_REFS", "UNCONNECTED_NODES"}, "unexpected errors %s", found)
    need(("CIRCULAR_REFS" in found) == cyclic, "the graph with edges %s is %s, but validation says %s", edges,
         "cyclic" if cyclic else "acyclic", found)
    if cyclic:
        named = found["CIRCULAR_REFS"]
        ring = {IDS[i] for i in graphs.on_cycles(n, edges)}
        need(set(named) <= set(IDS[:n]) and set(named) & ring, "validation of the graph with edges %s names %s, "
             "the nodes on cycles are %s", edges, named, ring)
    need(sorted(found.get("UNCONNECTED_NODES", [])) == lonely, "the graph with edges %s and types %s has unconnected "
         "nodes %s, validation says %s", edges, types, lonely, found)
    cov.step()
    return not cyclic and not lonely


def raises(call, msg, *args):
    try:
        got = call()
    except Exception:
        return
    need(False, msg + ": returned %s", *(args + (got,)))


def paths(g, n, edges, valid, cov, limits=None):
    if not valid:
        for a, b in itertools.product(IDS[:n] + ["zz"], repeat=2):
            raises(lambda: g.get_all_paths(a, b), "paths from %s to %s in the invalid graph with edges %s", a, b, edges)
            cov.step()
        return
    for a in IDS[:n]:
        for x, y in ((a, "zz"), ("zz", a), ("zz", "zz")):
            raises(lambda: g.get_all_paths(x, y), "paths from %s to the unknown %s", x, y)
    for a, b in itertools.product(range(n), repeat=2):
        for most in limits or [None] + list(range(1, n + 2)):
            want = sorted([IDS[i] for i in p]
                          for p in graphs.simple_paths(edges, a, b, 20 if most is None else most))
            got = g.get_all_paths(IDS[a], IDS[b]) if most is None else g.get_all_paths(
                IDS[a], IDS[b], maximum_depth=most)
            need(sorted(got) == want, "paths from %s to %s with at most %s nodes in the graph with edges %s are %s, not %s",
                 IDS[a], IDS[b], most, [(IDS[i], IDS[j]) for i, j in edges], want, got)
            cov.step()
            cov.outcome("%d paths" % len(want))


def check(case, cov):
    what = case[0]
    if what == "all":
        _, n, types, lo = case
        kinds = [KINDS[t] for t in types]
        for k, edges in enumerate(graphs.digraphs(n)):
            if lo is not None and not lo <= k < lo + 256:
                continue
            for es in (edges, edges[::-1]):
                g = build(n, es, kinds)
                valid = verdict(g, n, es, kinds, cov)
                if es is edges or valid:
                    paths(g, n, es, valid, cov)
                # and again: asking must not change the answer
                need(verdict(g, n, es, kinds, cov) == valid, "asking for paths changes the graph")
            cov.state([n, edges, kinds])
    elif what == "dags":
        _, n, rows = case
        for edges in graphs.acyclic(n, rows):
            g = build(n, edges, [ROOT] * n)
            need(verdict(g, n, edges, [ROOT] * n, cov), "")
            paths(g, n, edges, True, cov, [None, 3])
            cov.state([n, edges])
            # one more edge can close a cycle
            for a, b in edges[:1] + edges[-1:]:
                g.add_edge(IDS[b], IDS[a])
                need(not verdict(g, n, edges + [(b, a)], [ROOT] * n, cov), "")
                g.remove_edge(IDS[b], IDS[a])
            need(verdict(g, n, edges, [ROOT] * n, cov), "")
    elif what == "all5":
        for mask in range(case[1], case[1] + 4096):
            edges = [p for k, p in enumerate(graphs.pairs(5)) if mask >> k & 1]
            kinds = [ROOT] * 5
            verdict(build(5, edges, kinds), 5, edges, kinds, cov)
            cov.state([5, mask])
    elif what == "dags6":
        for edges in graphs.acyclic(6, case[1]):
            kinds = [ROOT] * 6
            verdict(build(6, edges, kinds), 6, edges, kinds, cov)
            cov.count("acyclic graphs of 6 nodes")
    elif what == "chain":
        k = case[1]
        g = DAGraph()
        names = [g.add_node(node_type=ROOT).id for _ in range(k)]
        for a, b in zip(names, names[1:]):
            g.add_edge(a, b)
        for a in range(k):
            for b in range(k):
                for most in (None, k - 1, k, 20, 21, 100):
                    m = 20 if most is None else most
                    want = [names[a:b + 1]] if a <= b and b - a + 1 <= m else []
                    got = g.get_all_paths(names[a], names[b]) if most is None else g.get_all_paths(
                        names[a], names[b], most)
                    need(got == want, "paths from %d to %d of a chain with at most %s nodes: %s", a, b, most, got)
                    cov.step()
        cov.state(["chain", k])
        cov.outcome("chain")
    elif what == "large":
        _, k, shape, order = case
        chain = [(i, i + 1) for i in range(k - 1)]
        edges = {"ring": chain + [(k - 1, 0)], "rho": chain + [(k - 1, k // 2)], "late": chain + [(k - 1, k - 2)],
                 "two": chain[:k // 2 - 1] + [(k // 2 - 1, 0)] + chain[k // 2:] + [(k - 1, k // 2)], "chain": chain,
                 "in tree": [(i, (i - 1) // 2) for i in range(1, k)],
                 "diamonds": [(i, j) for i in range(0, k - 3, 3) for j in (i + 1, i + 2)] +
                             [(i + d, i + 3) for i in range(0, k - 3, 3) for d in (1, 2)]}[shape]
        if order:
            edges = [(k - 1 - a, k - 1 - b) for a, b in edges[::-1]]
        names = ["n%d" % i for i in range(k)]
        g = DAGraph()
        for x in names:
            g.add_node(node_id=x, node_type=ROOT)
        for a, b in edges:
            g.add_edge(names[a], names[b])
        found = {n: v for e in g.validate().errors for n, v in e.items()}
        cyclic = shape in ("ring", "rho", "late", "two")
        need(sorted(found) == (["CIRCULAR_REFS"] if cyclic else []), "%s of %d nodes: validation says %s", shape, k, sorted(found))
        heads = [x for i, x in enumerate(names) if not any(b == i for _, b in edges)] if k < 100 else None
        need(heads is None or sorted(g.get_heads_id()) == sorted(heads), "heads of %s", shape)
        if cyclic:
            on = set(names) if shape in ("ring", "two") else {
                names[i if not order else k - 1 - i] for i in range(k // 2 if shape == "rho" else k - 2, k)}
            need(on & set(found["CIRCULAR_REFS"]) and set(found["CIRCULAR_REFS"]) <= set(names), "validation of %s names %s", shape,
                 found["CIRCULAR_REFS"][:9])
            raises(lambda: g.get_all_paths(names[0], names[-1]), "paths in a cyclic graph")
        else:
            a, b = (0, k - 1) if not order else (k - 1, 0)
            if shape == "chain":
                for most in (k - 1, k):
                    got = g.get_all_paths(names[a], names[b], most)
                    want = [names[::-1] if order else names] if most == k else []
                    need(got == want, "paths through a chain of %d nodes with at most %d nodes", k, most)
            if shape == "diamonds" and k <= 40:
                at = lambda i: names[k - 1 - i if order else i]
                for steps in range(0, min(4, (k - 1) // 3) + 1):
                    for most in (2 * steps, 2 * steps + 1, 30):
                        got = g.get_all_paths(at(0), at(3 * steps), most)
                        need(len(got) == len(set(map(tuple, got))) == (2 ** steps if most > 2 * steps else 0),
                             "paths through %d diamonds with at most %d nodes: %s", steps, most, got)
                        need(all(all(g.get_node(y).id in g.get_node(x).children for x, y in zip(p, p[1:])) for p in got),
                             "a path that is none")
        cov.step()
        cov.trace()
        cov.outcome(shape)
    else:
        # types whose names resemble the input root's
        for v in ("ROOT", "INPUT", "", "input_root_node_type", ROOT + "2", "X" + ROOT, ROOT[:-1], ROOT + " ", "NODE", "E", None, 3, 3.0):
            for names in (["r"], ["r", "s"]):
                g = DAGraph()
                for x in names:
                    g.add_node(node_id=x, node_type=v)
                    g.add_node(node_id=x + "root", node_type=fresh(ROOT))
                got = [x for e in g.validate().errors for x in e.get("UNCONNECTED_NODES", [])]
                need(sorted(got) == names, "parentless nodes of type %r are reported as %s", v, got)
                cov.step()
        # every kind of type value: only the input root type may be without parents
        for t in list(UCNodeType):
            for v in (t.name, fresh(t.name), t.value, t):
                g = DAGraph()
                g.add_node(node_id="r", node_type=v)
                g.add_node(node_id="c", node_type=v)
                g.add_edge("r", "c")
                want = [] if v == ROOT else ["r"]
                got = [x for e in g.validate().errors for x in e.get("UNCONNECTED_NODES", [])]
                need(got == want, "a root of type %r is reported as %s", v, got)
                cov.step()
        cov.outcome("types")
    cov.trace()
