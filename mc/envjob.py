"""Jobs of C23: a document, calls on it and everything observable; run in a worker and again in a child process with
another environment. Answers are JSON data without order where the library promises none."""
import copy
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def jobs(tier, part):
    """The jobs of one part of the enumeration: [kind, ...]."""
    from mc import gen
    if part == "rejected":
        return [["rejected", i] for i in range(len(REJECTED))]
    if part == "special":
        cs = [c for c in gen.special_cases(tier) if not c[2].isascii() and c[3] != "link"]
        return [["case", c] for c in cs] + [["case", ["foreign", n, op]] for n in FOREIGN for op in range(3)]
    if part == "mixed":
        stride = 2003 if tier == "quick" else 101
        us = ("vis", "kinds", "links", "images", "names", "draw", "colors", "many", "bare", "mixed", "pair")
        return [["case", c] for u in us for i, c in enumerate(gen.cases("quick", u)) if i % stride == 0]
    return [["case", ["hist", part, s]] for d in ((0, 1) if tier == "quick" else (0, 1, 2)) for s in gen.sequences(part, d)]


PARTS = ("rich0", "rich1", "tiny0", "tiny1", "special", "rejected", "mixed")
# scripts, combining and control characters, characters outside the basic plane
FOREIGN = ("caf\u00e9", "\u65e5\u672c\u8a9e", "\u0431\u0440\u0430\u0442", "e\u0301", "\U0001f600", "\u00a0", "\u2028", "\ufeff", "\x7f", "\u20ac",
           "tab\t", "\u0130")


def foreign(name, op):
    from mc import gen
    doc = gen.document(
        [gen.slot(name, name), gen.slot("t" + name, name + "t", gen.ALPHA0)],
        [{"name": "default", "attachments": {name: {name: gen.region(1), "u" + name: gen.region(2, path="dir/" + name)}}},
         {"name": name, "attachments": {"t" + name: {name + "t": gen.region(3)}, name: {name: gen.region(4, name="n" + name)}}}],
        {name: {"slots": {name: gen.at((0, None))}}, "A": {"bones": {name: {"rotate": [{"time": 0, "angle": 3}]}}}},
        bones=[{"name": "root"}, {"name": name, "parent": "root"}], events={name: {"string": name}},
        skeleton={"images": "./" + name + "/", "audio": name})
    return doc, [[gen.CLEAN], [gen.erase(name)], [gen.drop(name), ["scale", 2, 2]]][op]


def bad_graph(kind):
    from spine_json_lib.graph.dagraph import DAGraph
    from spine_json_lib.graph.factories import INodeFactory, IGraphParser
    from spine_json_lib.deserializer.spine_nodes import SpineNodeFactory
    if kind == "factory":
        return DAGraph(object())
    if kind == "abstract factory":
        return DAGraph(INodeFactory())
    g = DAGraph(SpineNodeFactory())
    for t in ("BONE", "SLOT", "ATTACHMENT", "IMAGE"):
        g.add_node(t.lower(), node_type=t)
    before = state(g)
    try:
        if kind == "twice":
            g.add_node("bone", node_type="BONE")
        elif kind == "number":
            g.add_node(3, node_type="BONE")
        elif kind == "self":
            g.add_edge("bone", "bone")
        elif kind == "forbidden":
            g.add_edge("slot", "bone")
        elif kind == "forbidden image":
            g.add_edge("image", "slot")
        elif kind == "unknown child":
            g.add_edge("bone", "nothing")
        elif kind == "unknown node":
            g.remove_node_by_id("nothing")
        elif kind == "number node":
            g.get_node(3)
        elif kind == "path from nothing":
            g.get_all_paths("nothing", "bone")
        elif kind == "path in an invalid graph":
            g.get_all_paths("bone", "slot")
        elif kind == "no parser":
            g.to_json(object)
        elif kind == "abstract parser":
            g.to_json_data(IGraphParser)
    except Exception as e:
        return [family(e), state(g) == before]
    return "accepted"


def state(g):
    return {i: [sorted(g.get_node(i).children), sorted(g.get_node(i).parents)]
            for i in ("bone", "slot", "attachment", "image")}


GRAPHS = ("factory", "abstract factory", "twice", "number", "self", "forbidden", "forbidden image", "unknown child",
          "unknown node", "number node", "path from nothing", "path in an invalid graph", "no parser", "abstract parser")
VERSIONS = ("", "3", "3.8.", "3.8.1.2", "a.b", "3.8-beta", " 3.8", "3.8\n", "-3.8", "\u0663.8", "3.8.99")
TAGS = ("b [scale:1.2.3]", "b [scale:2][scale:2]", "b [size:2]", "b [scale:.]", "b [scale:0.5]", "b [\u0645:2]", "b [scale:\u0662]")
REJECTED = ([["graph", k] for k in GRAPHS] + [["version", v] for v in VERSIONS] + [["tag", t] for t in TAGS] + [
    ["doc", k] for k in ("unknown", "bone name", "slot bone", "offset", "type", "deep", "null", "fine")] + [
    ["call", k] for k in ("anim", "half anim", "tuple", "skin", "half skin", "scale", "loose")])


def family(e):
    """What callers can tell rejections apart by, no finer than the exception's built-in base class."""
    for t in (ValueError, TypeError, KeyError, AttributeError, AssertionError, NotImplementedError):
        if isinstance(e, t):
            return t.__name__
    return "Exception"


def rejected(kind, what):
    from mc import gen
    from mc.lib import Editor
    from spine_json_lib.data.spine_version_type import SpineVersion
    if kind == "graph":
        return bad_graph(what)
    if kind == "version":
        v = SpineVersion(what)
        return [v.major, v.minor, v.patch]
    doc = gen.DOCS["rich0"]()
    if kind == "tag":
        doc["bones"][1]["name"] = what
        for b in doc["bones"][2:]:
            if b.get("parent") == "hip":
                b["parent"] = what
        for s in doc["slots"]:
            s["bone"] = what
        doc["animations"], doc["ik"], doc["transform"] = {}, [], []
        return Editor(doc).images_references
    if kind == "doc":
        if what == "unknown":
            doc["slots"][0]["visible"] = True
        elif what == "bone name":
            del doc["bones"][1]["name"]
        elif what == "slot bone":
            del doc["slots"][0]["bone"]
        elif what == "offset":
            doc["animations"]["walk"]["drawOrder"] = [{"time": 0, "offsets": [{"slot": "body"}]}]
        elif what == "type":
            doc["skins"][0]["attachments"].setdefault("body", {})["z"] = {"type": "text"}
        elif what == "deep":
            doc["animations"]["walk"]["bones"] = {"hip": {"rotate": [{"time": 0, "z": 1}]}}
        elif what == "null":
            doc["slots"][0]["name"] = None
        return Editor(doc).to_json_data()
    ed = Editor(doc)
    before = copy.deepcopy([ed.to_json_data(), ed.images_references])
    try:
        if what == "anim":
            ed.erase_animations(["nope"])
        elif what == "half anim":
            ed.erase_animations(["walk", "nope"])
        elif what == "tuple":
            ed.erase_animations(("walk",))
        elif what == "skin":
            ed.erase_skins(["nope"])
        elif what == "half skin":
            ed.erase_skins(["red", "nope"])
        elif what == "scale":
            ed.scale_animation(2, "2")
        elif what == "loose":
            ed.erase_animations(["nope", "walk"], strict_mode=False)
    except Exception as e:
        return [family(e), [ed.to_json_data(), ed.images_references] == before]
    return ed.to_json_data()


def answer(job, folder):
    if job[0] == "rejected":
        try:
            return rejected(*REJECTED[job[1]])
        except Exception as e:
            return family(e)
    from mc import gen
    from mc.lib import Editor, run_op, summary
    doc, ops = foreign(*job[1][1:]) if job[1][0] == "foreign" else gen.build(job[1])
    given = os.path.join(folder, "given.json")
    raw = job[1][0] != "special"  # the special names hold lone surrogates, which only escapes can spell
    with open(given, "wb") as f:
        f.write(json.dumps(doc, ensure_ascii=not raw).encode("utf-8"))
    out = []
    for ed in (Editor.from_json_file(given), Editor(copy.deepcopy(doc))):
        log = []
        for op in ops:
            r = run_op(ed, op)
            s = summary(op, r)
            log.append([sorted(s[0]), sorted(s[1])] if s is not None else None)
            log.append(sorted(set(r[1])) if op[0] == "skin" else None)
        log += [ed.to_json_data(), ed.images_references]
        for name, save in (("out.json", ed.to_json), ("images.json", ed.save_images_json)):
            path = os.path.join(folder, "sub", name)
            save(path)
            with open(path, "rb") as f:
                log.append(json.loads(f.read().decode("utf-8")))
        out.append(log)
    return out


def run_all(tier, part, folder):
    out = []
    for job in jobs(tier, part):
        try:
            out.append(json.loads(json.dumps(answer(job, folder), sort_keys=True)))
        except Exception as e:
            out.append("raised %s: %s" % (type(e).__name__, ascii(str(e))))
        shutil.rmtree(os.path.join(folder, "sub"), ignore_errors=True)
    return out


def main():
    tier, part, target = sys.argv[1:4]
    folder = tempfile.mkdtemp(prefix="mc23-")
    try:
        out = run_all(tier, part, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    with open(target, "wb") as f:
        f.write(json.dumps(out, sort_keys=True).encode("ascii"))


if __name__ == "__main__":
    main()
