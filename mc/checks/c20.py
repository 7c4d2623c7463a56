"""The skeleton graph mirrors the document."""
import copy
import itertools
import json
import os
import tempfile

from mc import gen, model
from mc.lib import need, run_op, Editor
from spine_json_lib.deserializer.spine_nodes import NodeType, SpineGraphParser, SpineNodeFactory
from spine_json_lib.spine_graph_container import SpineGraphContainer

RULE = ("every bone forest x slot placement x IK placement up to the bounds, with names that contain each other's type "
        "suffixes, x attachments shared between slots and skins; the documents of the kinds, links, images and names universes and every "
        "history: nodes, edges, names and conversion back are compared, before and after removing every set of up to two "
        "slots (of more than 8: pairs 1 or 5 apart) and attachments, slots without attachments and attachments without slots; non-trivial: the graph has shared nodes")

NAMES = {"plain": ["root", "b1", "b2", "b3"], "suffix": ["a_SLOT", "a", "a_BONE", "a_BONE_BONE"],
         "same": ["x", "IK", "BONE", "_BONE"]}
SLOTS = {"plain": ["s", "t"], "suffix": ["a_SLOT", "a"], "same": ["x", "_SLOT"]}
KEYS = {"plain": ["k", "l"], "suffix": ["a_ATTACHMENT", "a"], "same": ["x", "_IMAGE"]}


def bounds(tier):
    return "%d bones, 2 slots, %d IK constraints, 2 attachments in 2 skins" % ((3, 1) if tier == "quick" else (4, 2))


def cases(tier):
    most = 3 if tier == "quick" else 4
    for style in NAMES:
        for n in range(1, most + 1):
            for parents in itertools.product(*[range(0, i) for i in range(1, n)]):
                for placed in itertools.product(range(n), repeat=2):
                    iks = [None] + [[t, b] for t in range(n) for b in range(n)]
                    for ik in iks:
                        for layout in range(len(LAYOUTS)):
                            if tier == "quick" and n == 3 and (layout + len(str(ik)) + placed[0]) % 2:
                                continue
                            yield ["tree", style, list(parents), placed, ik, layout]
    strides = {"kinds": 4, "links": 16, "images": 8, "names": 8, "draw": 1, "exotic": 16, "special": 16} if tier == "quick" else {
        "kinds": 1, "links": 2, "images": 16, "names": 1, "draw": 1, "exotic": 4, "special": 2}
    for u, stride in strides.items():
        for i, c in enumerate(gen.cases(tier, u)):
            if i % stride == 0:
                yield ["doc", c]
    for i, c in enumerate(gen.cases(tier, "bare", "deep")):
        if c[-1] in (0, "clean") and c[1] != 1100:
            yield ["doc", c]
    for i, c in enumerate(gen.cases(tier, "many")):
        if i % (200 if tier == "quick" else 40) == 0:
            yield ["doc", c]
    for name in gen.DOCS:
        for depth in (0, 1) if tier == "quick" else (0, 1, 2):
            for seq in gen.sequences(name, depth):
                yield ["hist", name, seq]


# (skin, slot index, key index, image attributes) of the attachments
LAYOUTS = (
    (), ((0, 0, 0, {}),), ((0, 0, 0, {}), (0, 1, 0, {})), ((0, 0, 0, {}), (1, 0, 0, {"path": "p"})),
    ((0, 0, 0, {"path": "p"}), (0, 0, 1, {"path": "p"})), ((0, 0, 0, {}), (0, 0, 1, {}), (1, 1, 0, {"name": "n"})),
    ((1, 0, 1, {"name": "n", "path": "p"}), (0, 0, 0, {"path": "l"})),
)


def tree(case):
    _, style, parents, placed, ik, layout = case
    n = len(parents) + 1
    names, slots, keys = NAMES[style][:n], SLOTS[style], KEYS[style]
    bones = [{"name": names[0], "length": 1}] + [
        {"name": names[i + 1], "parent": names[p], "x": i} for i, p in enumerate(parents)]
    skins = [{"name": k, "attachments": {}} for k in ("default", "k")]
    for skin, s, key, image in LAYOUTS[layout]:
        skins[skin]["attachments"].setdefault(slots[s], {})[keys[key]] = gen.region(**image)
    doc = gen.document([gen.slot(s, keys[0], bone=names[b]) for s, b in zip(slots, placed)], skins, {"A": {}},
                       bones=bones)
    if ik:
        doc["ik"] = [{"name": names[0], "bones": [names[ik[1]]], "target": names[ik[0]], "order": 1},
                     {"name": names[-1] + "2", "bones": names[1:2] or names[:1], "target": names[ik[0]], "order": 0}]
        doc["ik"][1]["bones"] = [b for b in names if b != names[ik[0]]]
        if not doc["ik"][1]["bones"]:
            doc["ik"].pop()
    return doc


def expected(doc):
    """Nodes (type, name) and edges of the graph."""
    nodes, edges = set(), set()
    for b in doc.get("bones", []):
        nodes.add(("BONE", b["name"]))
        if b.get("parent") is not None:
            edges.add((("BONE", b["parent"]), ("BONE", b["name"])))
    slots = model.slot_names(doc)
    for s in doc.get("slots", []):
        nodes.add(("SLOT", s["name"]))
        edges.add((("BONE", s["bone"]), ("SLOT", s["name"])))
    for skin, s, key, att in model.attachments(doc):
        if s not in slots:
            continue
        nodes.add(("ATTACHMENT", key))
        edges.add((("SLOT", s), ("ATTACHMENT", key)))
        image = model.image_name(key, att)
        nodes.add(("IMAGE", image))
        edges.add((("ATTACHMENT", key), ("IMAGE", image)))
    for c in doc.get("ik", []):
        nodes.add(("IK", c["name"]))
        for b in c.get("bones") or []:
            edges.add((("IK", c["name"]), ("BONE", b)))
        if c.get("target"):
            edges.add((("BONE", c["target"]), ("IK", c["name"])))
    return nodes, edges


def gid(node):
    return "%s_%s" % (node[1], node[0])


def judge(graph, nodes, edges, note):
    """The graph holds exactly these nodes and edges (reached from every node by its id)."""
    ids = {gid(n) for n in nodes}
    need(len(ids) == len(nodes), "")
    for n in nodes:
        got = graph.get_node(gid(n))
        need(got is not None, "%s: no node for the %s %r", note, *n)
        need(got.node_type == n[0] and got.id == gid(n), "%s: the node for %s has type %s", note, n, got.node_type)
        kids = {gid(b) for a, b in edges if a == n}
        ups = {gid(a) for a, b in edges if b == n}
        need(set(got.children) == kids, "%s: the children of %s are %s, not %s", note, gid(n), sorted(got.children),
             sorted(kids))
        need(set(got.parents) == ups, "%s: the parents of %s are %s, not %s", note, gid(n), sorted(got.parents),
             sorted(ups))
    heads, tails = set(graph.get_heads_id()), set(graph.get_tails_id())
    need(heads == {gid(n) for n in nodes if not any(b == n for _, b in edges)}, "%s: heads are %s", note, sorted(heads))
    need(tails == {gid(n) for n in nodes if not any(a == n for a, _ in edges)}, "%s: tails are %s", note, sorted(tails))
    # every node of the graph is reachable from a head or is on a cycle of listed nodes
    for i in heads | tails:
        need(i in ids, "%s: unexpected node %s", note, i)


def back(graph, doc, gone, note):
    got = graph.to_json_data(SpineGraphParser)
    for section in ("bones", "slots", "ik"):
        want = [r for r in doc.get(section, [])
                if not (section == "slots" and r["name"] in gone)]
        need(model.same(list(got.get(section, [])), want), "%s: converting back gives the %s %s, not %s", note, section,
             model.short(got.get(section)), model.short(want))
    need(set(got) <= {"bones", "slots", "ik"}, "%s: converting back gives %s", note, sorted(got))


def cut(nodes, edges, gone):
    return nodes - gone, {(a, b) for a, b in edges if a not in gone and b not in gone}


def examine(doc, cov):
    given = copy.deepcopy(doc)
    box = SpineGraphContainer(given)
    nodes, edges = expected(doc)
    judge(box.graph, nodes, edges, "built")
    back(box.graph, doc, (), "built")
    need(model.same(given, doc), "building the graph changes the document")
    cov.state(sorted(gid(n) for n in nodes) + sorted("%s>%s" % (gid(a), gid(b)) for a, b in edges))
    cov.step()
    again = SpineGraphParser.create_from_json_data(json.loads(json.dumps(doc)), SpineNodeFactory())
    judge(again, nodes, edges, "built by the parser")
    text = again.to_json(SpineGraphParser)
    need(model.same(json.loads(text), json.loads(json.dumps(again.to_json_data(SpineGraphParser)))),
         "the serialised graph differs from its data")
    for n in nodes if hasattr(SpineGraphParser, "_to_base_id") and hasattr(SpineGraphParser, "_to_graph_id") else ():
        need(SpineGraphParser._to_base_id(n[0], SpineGraphParser._to_graph_id(n[0], n[1])) == n[1],
             "the name %r of a %s is not recovered from its graph id", n[1], n[0])
    slots = sorted(n[1] for n in nodes if n[0] == "SLOT")
    atts = sorted(n[1] for n in nodes if n[0] == "ATTACHMENT")
    for k in (0, 1, 2):
        for gone in itertools.combinations(slots, k):
            if k == 2 and len(slots) > 8 and slots.index(gone[1]) - slots.index(gone[0]) not in (1, 5):
                continue
            for drop in itertools.chain([()], ((a,) for a in atts), [tuple(atts)]):
                box = SpineGraphContainer(doc)
                removed = box.remove_slots(list(gone))
                need([r.id for r in removed] == [gid(("SLOT", s)) for s in gone], "removing slots %s gives %s", gone,
                     [r.id for r in removed])
                removed = box.remove_attachments(list(drop))
                need([r.id for r in removed] == [gid(("ATTACHMENT", a)) for a in drop], "removing attachments %s gives %s",
                     drop, [r.id for r in removed])
                ns, es = cut(nodes, edges, {("SLOT", s) for s in gone} | {("ATTACHMENT", a) for a in drop})
                note = "without slots %s and attachments %s" % (gone, drop)
                judge(box.graph, ns, es, note)
                back(box.graph, doc, gone, note)
                # slots left without attachments, attachments left without slots
                keep = slots[:1]
                bare = {n for n in ns if n[0] == "SLOT" and not any(a == n for a, _ in es)}
                got = box.remove_leafs_of_type("SLOT", ids_to_keep=keep)
                want = {n[1] for n in bare if n[1] not in keep}
                need(sorted(got) == sorted(want), "%s: slots without attachments except %s are %s, not %s", note, keep,
                     got, want)
                ns, es = cut(ns, es, {("SLOT", s) for s in want})
                judge(box.graph, ns, es, note + " and bare slots")
                back(box.graph, doc, set(gone) | want, note + " and bare slots")
                loose = {n for n in ns if n[0] == "ATTACHMENT" and not any(b == n for _, b in es)}
                got = box.remove_heads_of_type("ATTACHMENT")
                need(sorted(got) == sorted(n[1] for n in loose), "%s: attachments without slot are %s, not %s", note, got,
                     loose)
                ns, es = cut(ns, es, loose)
                unused = {n for n in ns if n[0] == "IMAGE" and not any(b == n for _, b in es)}
                got = box.remove_heads_of_type("IMAGE")
                need(sorted(got) == sorted(n[1] for n in unused), "%s: unused images are %s, not %s", note, got, unused)
                ns, es = cut(ns, es, unused)
                judge(box.graph, ns, es, note + " and everything unused")
                cov.step(5)
                cov.outcome("%d slots, %d attachments removed" % (len(gone), len(drop)))


def check(case, cov):
    if case[0] == "tree":
        doc = tree(case)
        examine(doc, cov)
        if case[5] == 5:
            d = tempfile.mkdtemp(prefix="mc20-")
            path = os.path.join(d, "g.json")
            with open(path, "w") as f:
                json.dump(doc, f)
            judge(SpineGraphParser.create_from_json_file(path, SpineNodeFactory()), *expected(doc), note="from file")
            os.unlink(path)
            os.rmdir(d)
    elif case[0] == "doc":
        doc, _ = gen.build(case[1])
        examine(doc, cov)
    else:
        doc, ops = gen.hist_build(case[1], case[2])
        ed = Editor(copy.deepcopy(doc))
        for op in ops:
            run_op(ed, op)
        examine(ed.to_json_data(), cov)
    cov.trace()
