"""Pruning the skeleton graph by type, and the parsers a graph is read and written with."""
import itertools
import json
import os
import tempfile

from mc import graphs
from mc.lib import need
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import DefaultNodeFactory, IGraphParser, INodeFactory
from spine_json_lib.spine_graph_container import SpineGraphContainer

RULE = ("every labelled digraph up to the node bound x every assignment of skeleton node types its edges allow x every type x every set of "
        "names to keep: the nodes of that type without parents / without children, and what removing them again and again removes, against a "
        "fixpoint computed on the edge list; two prunings in a row; long chains and combs; every kind of parser and factory argument; "
        "non-trivial: a pruning exposes further nodes of the type")

NAMES = ["a", "a_BONE", "_SLOT", "a_SLOT_SLOT"]
FORBIDDEN = {"BONE": ("ATTACHMENT",), "SLOT": ("BONE", "IK"), "IK": ("IK", "ATTACHMENT", "IMAGE"),
             "ATTACHMENT": ("IK", "ATTACHMENT", "BONE"), "IMAGE": ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")}
TYPES = list(FORBIDDEN)


def bounds(tier):
    return "digraphs of <= %d nodes of two types, <= %d nodes of five types; chains to 1200 nodes" % (
        (4, 3) if tier == "quick" else (4, 4))


def cases(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for types in itertools.product(TYPES, repeat=n):
            if n == 4:
                for lo in range(0, 4096, 1024):
                    yield ["all", types, lo, lo + 1024, 1]
            else:
                yield ["all", types, 0, 1 << n * (n - 1), 1]
    if tier == "quick":
        for types in itertools.product(("BONE", "SLOT"), repeat=4):
            for lo in range(0, 4096, 1024):
                yield ["all", types, lo, lo + 1024, 1]
        for types in itertools.product(("SLOT", "ATTACHMENT"), repeat=4):
            for lo in range(0, 4096, 1024):
                yield ["all", types, lo, lo + 1024, 3]
    for n in (5, 60, 1200):
        for shape in ("chain", "back", "comb", "held", "other"):
            yield ["long", n, shape]
    yield ["parsers"]
    yield ["factories"]


def gid(node):
    return "%s_%s" % node


def build(nodes, edges):
    box = SpineGraphContainer({"bones": [], "slots": []})
    for name, kind in nodes:
        box.graph.add_node(node_id=gid((name, kind)), node_type="".join(list(kind)), node_data={})
    for a, b in edges:
        box.graph.add_edge(gid(nodes[a]), gid(nodes[b]))
    return box


def ends(alive, edges, nodes, kind, side):
    """Living nodes of the type without parents (side 1) or children (side 0)."""
    held = {e[side] for e in edges if e[0] in alive and e[1] in alive}
    return {i for i in alive if nodes[i][1] == kind and i not in held}


def fixpoint(alive, edges, nodes, kind, side, keep=()):
    alive, gone, rounds = set(alive), set(), 0
    while True:
        out = {i for i in ends(alive, edges, nodes, kind, side) if nodes[i][0] not in keep}
        if not out:
            return alive, gone, rounds
        rounds += 1
        alive -= out
        gone |= out


def judge(box, nodes, edges, alive, note):
    for i, n in enumerate(nodes):
        got = box.graph.get_node(gid(n))
        need((got is not None) == (i in alive), "%s: %s is %s the graph", note, gid(n), "not in" if i in alive else "still in")
        if got is not None:
            need(set(got.children) == {gid(nodes[b]) for a, b in edges if a == i and b in alive}, "%s: children of %s are %s", note,
                 gid(n), sorted(got.children))
            need(set(got.parents) == {gid(nodes[a]) for a, b in edges if b == i and a in alive}, "%s: parents of %s are %s", note,
                 gid(n), sorted(got.parents))


def prune(box, nodes, edges, alive, kind, side, keep, note, cov):
    """One pruning, compared. Returns the nodes left."""
    want = sorted(gid(nodes[i]) for i in ends(alive, edges, nodes, kind, side))
    got = box.get_heads_with_type(kind) if side else box.get_leafs_of_type(kind)
    need(sorted(got) == want, "%s: the %s of type %s are %s, not %s", note, "heads" if side else "leafs", kind, sorted(got), want)
    left, gone, rounds = fixpoint(alive, edges, nodes, kind, side, keep)
    if side:
        got = box.remove_heads_of_type(kind)
    elif keep or not len(nodes) % 2:
        got = box.remove_leafs_of_type(kind, ids_to_keep=(tuple, list, frozenset, set)[len(edges) % 4](keep))
    else:
        got = box.remove_leafs_of_type(kind)
    need(sorted(got) == sorted(nodes[i][0] for i in gone), "%s: removing %s of type %s except %s removes %s, not %s", note,
         "heads" if side else "leafs", kind, list(keep), sorted(got), sorted(nodes[i][0] for i in gone))
    judge(box, nodes, edges, left, note)
    cov.step()
    cov.outcome("%s: %d in %d rounds" % ("heads" if side else "leafs", len(gone), rounds))
    return left


def everything(case, cov):
    _, types, lo, hi, stride = case
    n = len(types)
    nodes = list(zip(NAMES, types))
    ps = graphs.pairs(n)
    kinds = sorted(set(types))
    for mask in range(lo, hi, stride):
        edges = [p for k, p in enumerate(ps) if mask >> k & 1]
        if any(types[b] in FORBIDDEN[types[a]] for a, b in edges):
            continue
        if (mask + n) % 2:
            edges.reverse()
        cov.state([types, mask])
        for side, kind in itertools.product((0, 1), kinds):
            names = [m for m, t in nodes if t == kind]
            keeps = [()] + ([(m,) for m in names] + [tuple(names[:2]), ("nothing",), (names[0],) * 2 + ("nothing",)] if not side else [])
            for i, keep in enumerate(keeps):
                if i and n == 4 and (mask + i) % 3:
                    continue
                box = build(nodes, edges)
                note = "%s with edges %s" % ([gid(x) for x in nodes], edges)
                left = prune(box, nodes, edges, set(range(n)), kind, side, keep, note, cov)
                if n < 4:
                    for side2, kind2 in itertools.product((0, 1), kinds):
                        if (side2, kind2) != (side, kind) and not keep:
                            box = build(nodes, edges)
                            left = prune(box, nodes, edges, set(range(n)), kind, side, (), note, cov)
                            prune(box, nodes, edges, left, kind2, side2, (), note + " again", cov)


def long(case, cov):
    _, n, shape = case
    kinds = ["SLOT"] * n
    edges = [(i, i + 1) for i in range(n - 1)]
    keep = ()
    if shape == "back":
        edges = [(i + 1, i) for i in range(n - 1)]
    elif shape == "comb":
        edges = [(i, i + 2 if i % 2 == 0 else i) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    elif shape == "held":
        keep = ("n%d" % (n // 2),)
    elif shape == "other":
        kinds[n // 2] = "BONE"
        edges = [e for e in edges if e[1] != n // 2]
    nodes = [("n%d" % i, k) for i, k in enumerate(kinds)]
    note = "%s of %d" % (shape, n)
    for side in (0, 1):
        box = build(nodes, edges)
        prune(box, nodes, edges, set(range(n)), "SLOT", side, keep if not side else (), note, cov)
    cov.state([n, shape])


class Parser(IGraphParser):
    """Writes nodes and edges, reads them back."""
    log = []

    @classmethod
    def create_from_json_data(cls, json_data, node_factory):
        cls.log.append(("data", json_data, node_factory))
        g = DAGraph(node_factory)
        for i in json_data["nodes"]:
            g.add_node(node_id=i)
        for a, b in json_data["edges"]:
            g.add_edge(a, b)
        return g

    @classmethod
    def create_from_json_file(cls, json_file, node_factory):
        with open(json_file) as f:
            return cls.create_from_json_data(json.load(f), node_factory)

    @classmethod
    def to_json_data(cls, graph):
        return {"nodes": sorted(graph._ids), "edges": sorted([i, c] for i in graph._ids for c in graph.get_node(i).children)}

    @classmethod
    def to_json(cls, graph):
        return json.dumps(cls.to_json_data(graph))


class Lower(Parser):
    pass


class NoParser(object):
    to_json = to_json_data = create_from_json_data = create_from_json_file = classmethod(lambda cls, *a, **k: "done")


def refuses(call):
    try:
        call()
    except Exception:
        return True
    return False


def parsers(cov):
    folder = tempfile.mkdtemp(prefix="mc24-")
    path = os.path.join(folder, "g.json")
    try:
        for n in (0, 1, 2, 3):
            for mask in range(1 << n * (n - 1)):
                edges = [[NAMES[a], NAMES[b]] for k, (a, b) in enumerate(graphs.pairs(n)) if mask >> k & 1]
                data = {"nodes": sorted(NAMES[:n]), "edges": sorted(edges)}
                with open(path, "w") as f:
                    json.dump(data, f)
                for parser in (Parser, Lower):
                    for factory in (DefaultNodeFactory(), DefaultNodeFactory()):
                        del Parser.log[:]
                        made = [DAGraph.create_from_json_data(graph_parser_cls=parser, json_data=data, node_factory=factory),
                                DAGraph.create_from_json_file(graph_parser_cls=parser, json_file=path, node_factory=factory)]
                        need([x[1] for x in Parser.log] == [data, data] and all(x[2] is factory for x in Parser.log),
                             "the parser was given %s for %s", Parser.log, data)
                        for g in made:
                            g._ids = NAMES[:n]
                            need(g.to_json_data(parser) == data, "%s is written as %s", data, g.to_json_data(parser))
                            need(json.loads(g.to_json(parser)) == data, "%s is written as %s", data, g.to_json(parser))
                        cov.step(4)
                cov.state(data)
        g = DAGraph()
        for bad in (NoParser, IGraphParser, object, dict, None, "parser", Parser(), NoParser(), 3):
            for call in ((lambda: g.to_json(bad)), (lambda: g.to_json_data(bad)),
                         (lambda: DAGraph.create_from_json_data(bad, {"nodes": [], "edges": []}, DefaultNodeFactory())),
                         (lambda: DAGraph.create_from_json_file(bad, path, DefaultNodeFactory()))):
                need(refuses(call), "%r was taken for a parser", bad)
                cov.step()
    finally:
        for f in os.listdir(folder):
            os.unlink(os.path.join(folder, f))
        os.rmdir(folder)


class Own(INodeFactory):
    def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
        return DefaultNodeFactory().create_node(node_type, node_id, order, node_data, public_id)


class Duck(object):
    create_node = Own.create_node


def factories(cov):
    for good in (None, DefaultNodeFactory(), SpineNodeFactory(), Own()):
        g = DAGraph(good)
        kind = "BONE"
        a, b = g.add_node("a", {"x": 1}, kind), g.add_node(None, None, kind)
        g.add_edge("a", b.id)
        need(g.get_node("a") is a and a.data == {"x": 1} and a.node_type == kind and list(a.children) == [b.id],
             "a graph with the factory %r", good)
        cov.step()
    for bad in (INodeFactory(), Duck(), object(), DefaultNodeFactory, INodeFactory, "factory", 3, {}):
        need(refuses(lambda: DAGraph(bad)), "%r was taken for a factory", bad)
        cov.step()
    cov.state("factories")


def check(case, cov):
    {"all": everything, "long": long, "parsers": lambda c, v: parsers(v), "factories": lambda c, v: factories(v)}[case[0]](case, cov)
    cov.trace()
