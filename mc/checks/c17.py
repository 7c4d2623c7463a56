"""Graph edits: explicit-state exploration of the real graph next to a reference model."""
import itertools

from mc.lib import need
from spine_json_lib.deserializer.spine_nodes import NodeType, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import INodeFactory
from spine_json_lib.graph.spamnode import SpamNode

RULE = ("breadth-first exploration of all sequences of {add named/generated node, add edge, remove edge, remove node, bad "
        "argument} over an id pool, replayed on a fresh real graph for every transition and compared with a reference "
        "graph (states merged on model state, insertion orders and number of generated ids); all short "
        "sequences once more without merging; every parent x child type of the skeleton's node types and of a "
        "factory with its own forbidden types; non-trivial: the graph has an edge")


class Model(object):
    def __init__(self):
        self.nodes = []
        self.edges = []

    def copy(self):
        m = Model()
        m.nodes, m.edges = list(self.nodes), list(self.edges)
        return m

    def key(self):
        return [self.nodes, self.edges]


def pool(tier):
    return ("a", "1", "2") if tier == "quick" else ("a", "1", "2", "b")


def alphabet(ids):
    ops = [["node", i] for i in ids] + [["node", None]]
    known = list(ids) + ["3"]
    for a, b in itertools.product(known, repeat=2):
        ops += [["edge", a, b], ["unedge", a, b]]
    ops += [["drop", i] for i in known]
    ops += [["edge", "zz", ids[0]], ["edge", ids[0], "zz"], ["edge", "zz", "zz"], ["unedge", "zz", ids[0]],
            ["unedge", ids[0], "zz"], ["drop", "zz"], ["node", 7], ["edge", 7, ids[0]], ["edge", ids[0], 7],
            ["edge", None, ids[0]], ["drop", 7], ["drop", None], ["unedge", 7, ids[0]]]
    return ops


def bounds(tier):
    return ("all sequences of <= %d operations merged on state, of <= %d unmerged, ids %s" % (
        (8, 3, pool(tier)) if tier == "quick" else (9, 4, pool(tier))))


def cases(tier):
    ops = alphabet(pool(tier))
    # one exploration per first operations, so that it can be sharded
    for i, j in itertools.product(range(len(ops)), repeat=2):
        yield ["flat", tier, i, j]
    for i in range(len(SEEDS)):
        for k in range(len(ops)):
            yield ["bfs", tier, i, k]
    for maker in ("skeleton", "custom"):
        for p, c in itertools.product(TYPES[maker], repeat=2):
            yield ["types", maker, p, c]
    yield ["handles"]


# where the merged explorations start
SEEDS = ([], [["node", "a"], ["node", None]], [["node", "2"], ["node", None], ["node", None]],
         [["node", "1"], ["node", "2"], ["node", "a"]],
         [["node", "2"], ["node", "3"], ["node", None]], [["node", "4"], ["node", "2"], ["node", "3"], ["node", "1"]],
         [["node", "a"], ["node", "1"], ["node", "2"], ["edge", "a", "1"], ["edge", "1", "2"]],
         [["node", "a"], ["node", "1"], ["node", "2"], ["edge", "a", "1"], ["edge", "1", "a"], ["edge", "2", "a"]])


def legal(m, op):
    if op[0] == "node":
        return op[1] is None or isinstance(op[1], str) and op[1] not in m.nodes
    if op[0] == "edge":
        return op[1] != op[2] and op[1] in m.nodes and op[2] in m.nodes
    if op[0] == "unedge":
        return (op[1], op[2]) in m.edges
    return op[1] in m.nodes


def apply_model(m, op, new=None):
    if op[0] == "node":
        m.nodes.append(op[1] if op[1] is not None else new)
    elif op[0] == "edge":
        if (op[1], op[2]) not in m.edges:
            m.edges.append((op[1], op[2]))
    elif op[0] == "unedge":
        m.edges.remove((op[1], op[2]))
    else:
        m.nodes.remove(op[1])
        m.edges = [e for e in m.edges if op[1] not in e]


def call(g, op):
    if op[0] == "node":
        return g.add_node(node_id=op[1])
    if op[0] == "edge":
        return g.add_edge(op[1], op[2])
    if op[0] == "unedge":
        return g.remove_edge(op[1], op[2])
    return g.remove_node_by_id(op[1])


def judge(g, m, seq, ids, handles):
    for i in list(ids) + ["3", "zz"] + m.nodes:
        node = g.get_node(i)
        if i not in m.nodes:
            need(node is None, "after %s there is a node %s", seq, i)
            continue
        need(node is not None and node.id == i, "after %s there is no node %s", seq, i)
        need(node is handles[i], "after %s the node %s is another object", seq, i)
        kids = {b for a, b in m.edges if a == i}
        ups = {a for a, b in m.edges if b == i}
        need(set(node.children) == kids and node.num_children == len(kids),
             "after %s the children of %s are %s, not %s", seq, i, sorted(node.children), sorted(kids))
        need(set(node.parents) == ups and node.num_parents == len(ups),
             "after %s the parents of %s are %s, not %s", seq, i, sorted(node.parents), sorted(ups))
        for k, v in list(node.children.items()) + list(node.parents.items()):
            need(v is g.get_node(k), "after %s %s is connected to another node than the graph's %s", seq, i, k)
        need(hash(node) == hash(g.get_node(i)) and node == g.get_node(i), "node %s is not equal to itself", i)
    need(sorted(g.get_heads_id()) == sorted(i for i in m.nodes if not any(b == i for _, b in m.edges)),
         "after %s the heads are %s with edges %s", seq, g.get_heads_id(), m.edges)
    need(sorted(g.get_tails_id()) == sorted(i for i in m.nodes if not any(a == i for a, _ in m.edges)),
         "after %s the tails are %s with edges %s", seq, g.get_tails_id(), m.edges)


def step(g, m, op, seq, ids, handles):
    """Apply op to both; the graph has to follow the model."""
    if not legal(m, op):
        try:
            call(g, op)
        except Exception:
            judge(g, m, seq + [op], ids, handles)
            return False
        need(False, "after %s, %s is not rejected", seq, op)
    got = call(g, op)
    if op[0] == "node":
        need(op[1] is None or got.id == op[1], "%s gives the node %s", op, got.id)
        need(isinstance(got.id, str) and got.id not in m.nodes, "after %s the generated id %r is taken", seq, got.id)
        handles[got.id] = got
        apply_model(m, op, got.id)
    else:
        if op[0] == "drop":
            need(got is handles[op[1]], "removing %s gives another node", op[1])
        apply_model(m, op)
    judge(g, m, seq + [op], ids, handles)
    return True


def replay(seq, ids):
    g, m, handles = DAGraph(), Model(), {}
    for i, op in enumerate(seq):
        if not legal(m, op):
            try:
                call(g, op)
            except Exception:
                pass
            continue
        got = call(g, op)
        if op[0] == "node":
            handles[got.id] = got
            apply_model(m, op, got.id)
        else:
            apply_model(m, op)
    return g, m, handles


def check(case, cov):
    if case[0] == "types":
        return types(case[1], case[2], case[3], cov)
    if case[0] == "handles":
        return equality(cov)
    ids = pool(case[1])
    ops = alphabet(ids)
    if case[0] == "flat":
        rest = 1 if case[1] == "quick" else 2
        for tail in itertools.product(ops, repeat=rest):
            g, m, handles = DAGraph(), Model(), {}
            seq = []
            for op in [ops[case[2]], ops[case[3]]] + list(tail):
                step(g, m, op, seq, ids, handles)
                seq = seq + [op]
                cov.step()
            cov.state(m.key())
            cov.trace()
        cov.outcome("unmerged sequences")
        return
    # merged exploration from a seed and a first operation
    start = [list(o) for o in SEEDS[case[2]]] + [ops[case[3]]]
    depth = (5 if case[1] == "quick" else 6) - (2 if len(SEEDS[case[2]]) > 2 else 1)
    seen, frontier = set(), [start]
    g, m, handles = DAGraph(), Model(), {}
    seq = []
    for op in start:
        step(g, m, op, seq, ids, handles)
        seq = seq + [op]
    for _ in range(depth):
        following = []
        for seq in frontier:
            for op in ops:
                g, m, handles = replay(seq, ids)
                changed = step(g, m, op, seq, ids, handles)
                cov.step()
                key = (tuple(m.nodes), tuple(m.edges), sum(o == ["node", None] for o in seq + [op]))
                cov.state(m.key())
                if changed and key not in seen:
                    seen.add(key)
                    following.append(seq + [op])
                cov.outcome(op[0] + (" done" if changed else " rejected"))
        frontier = following
        cov.trace(len(frontier))


class Custom(INodeFactory):
    """Red nodes take no red or blue child, blue ones no blue child, green ones anything."""
    FORBIDDEN = {"red": ["red", "blue"], "blue": ["blue"], "green": []}

    def create_node(self, node_type, node_id, order, node_data=None, public_id=None):
        return SpamNode(id_value=node_id, order=order, data=node_data, node_type=node_type,
                        children_types_forbidden=self.FORBIDDEN["".join(list(node_type))])


TYPES = {"skeleton": ["BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE"], "custom": ["red", "blue", "green"]}
SKELETON = {"BONE": ["ATTACHMENT"], "SLOT": ["BONE", "PATH", "IK"], "IK": ["PATH", "IK", "ATTACHMENT", "IMAGE"],
            "ATTACHMENT": ["PATH", "IK", "ATTACHMENT", "BONE"], "IMAGE": [t.name for t in NodeType]}


def types(maker, p, c, cov):
    forbidden = (SKELETON if maker == "skeleton" else Custom.FORBIDDEN)[p]
    for third in TYPES[maker]:
        for before in range(4):
            g = DAGraph(SpineNodeFactory() if maker == "skeleton" else Custom())
            m, handles = Model(), {}
            for i, t in (("p", p), ("c", c), ("t", third)):
                handles[i] = g.add_node(node_id=i, node_type="".join(list(t)))
                need(handles[i].node_type == t, "a node of type %s has type %s", t, handles[i].node_type)
                apply_model(m, ["node", i])
            table = SKELETON if maker == "skeleton" else Custom.FORBIDDEN
            kinds = {"p": p, "c": c, "t": third}
            ops = [[], [("t", "p")], [("c", "t"), ("t", "p")], [("t", "c"), ("p", "t")]][before]
            for a, b in ops + [("p", "c"), ("p", "c")]:
                bad = kinds[b] in table[kinds[a]]
                try:
                    g.add_edge(a, b)
                    need(not bad, "a node of type %s takes a child of the forbidden type %s", kinds[a], kinds[b])
                    apply_model(m, ["edge", a, b])
                except TypeError:
                    need(bad, "a node of type %s does not take a child of type %s", kinds[a], kinds[b])
                judge(g, m, [p, c, third, ops], ("p", "c", "t"), handles)
                cov.step()
    cov.state([maker, p, c])
    cov.outcome("forbidden child" if c in forbidden else "allowed child")
    cov.trace()


def equality(cov):
    g, h = DAGraph(), DAGraph()
    nodes = [x.add_node(node_id="".join(["i", str(k)]), node_data={"k": k}) for x in (g, h) for k in range(3)]
    # ... and nodes added later, with other data and types
    late = DAGraph(SpineNodeFactory())
    for k in range(5):
        late.add_node()
    nodes += [late.add_node(node_id="i%d" % k, node_type=t, node_data=[k]) for k, t in enumerate(("BONE", "SLOT", "IK"))]
    late.add_edge("i0", "i1")
    nodes += [SpamNode("".join(["i", "1"]), 9, public_id="p"), SpamNode("i9", 9, public_id="i1")]
    for a, b in itertools.product(nodes, repeat=2):
        need((a == b) == (a.id == b.id), "nodes %s and %s compare %s", a.id, b.id, a == b)
        need(a != b or hash(a) == hash(b), "equal nodes have different hashes")
        need((b in {a}) == (a.id == b.id), "a set does not find an equal node")
        cov.step()
    for x in (5, 1.5, (), ["a"], {}, b"a"):
        for f in (lambda: g.add_node(node_id=x), lambda: g.get_node(x), lambda: g.remove_node_by_id(x)):
            try:
                f()
            except Exception:
                continue
            need(False, "the id %r is accepted", x)
    need([n.id for n in nodes[:3]] == sorted(g.get_heads_id()), "")
    # every set of given numeric ids, every number of ids generated before and after
    for given in itertools.product((0, 1), repeat=7):
        for first in range(4):
            g, seen = DAGraph(), set()
            for _ in range(first):
                seen.add(g.add_node().id)
            for k, present in enumerate(given):
                for i in [str(k), "%02d" % k]:
                    if present and i not in seen:
                        seen.add(g.add_node(node_id=i).id)
            for _ in range(9):
                new = g.add_node().id
                need(new not in seen, "the generated id %s is taken, given %s after %d generated", new, given, first)
                seen.add(new)
            need(set(g.get_heads_id()) == seen, "nodes are missing")
            cov.step()
    # many generated ids between given ones
    g = DAGraph()
    for k in range(40):
        if k % 3 == 0 and g.get_node(str(k + 2)) is None:
            g.add_node(node_id=str(k + 2))
        g.add_node()
    heads = g.get_heads_id()
    need(len(heads) == len(set(heads)), "generated ids are not fresh")
    cov.outcome("equality")
    cov.trace()
