"""Unknown attributes, unsupported attachment types and missing required attributes are rejected."""
import copy

from mc import gen, model
from mc.checks import c01
from mc.lib import Editor, need

RULE = ("every object at every nesting level of rich and per-kind documents x every injected attribute "
        "name (a foreign one, every attribute name of every other kind of object, every member name of the data classes) x values; "
        "every attachment x unsupported types; every object x each required attribute removed; "
        "non-trivial: the mutated document differs from a supported one in exactly that place")

FOREIGN = ("zz9", "Name", "name ", "color2")


def objects(doc):
    """(path, kind) of every object of a document, schema-driven."""
    yield [], "document"
    for section in ("bones", "slots", "ik", "transform", "path"):
        for i, _ in enumerate(doc.get(section) or []):
            yield [section, i], section
    for k in doc.get("events") or {}:
        yield ["events", k], "event"
    for i, skin in enumerate(doc.get("skins") or []):
        yield ["skins", i], "skin"
        for sl, atts in (skin.get("attachments") or {}).items():
            for k, a in atts.items():
                yield ["skins", i, "attachments", sl, k], "att." + model.attachment_kind(a)
    for name, a in (doc.get("animations") or {}).items():
        base = ["animations", name]
        yield base, "animation"
        for section, kind in (("bones", "bonetimeline"), ("slots", "slottimeline")):
            for k, tls in (a.get(section) or {}).items():
                yield base + [section, k], kind
                for t, frames in tls.items():
                    for i, _ in enumerate(frames):
                        yield base + [section, k, t, i], "key." + t
        for section in ("ik", "transform"):
            for k, frames in (a.get(section) or {}).items():
                for i, _ in enumerate(frames):
                    yield base + [section, k, i], "key." + section
        for k, tls in (a.get("path") or {}).items():
            yield base + ["path", k], "pathtimeline"
            for t, frames in tls.items():
                for i, _ in enumerate(frames):
                    yield base + ["path", k, t, i], "key.path" + t
        for sk, sls in (a.get("deform") or {}).items():
            for sl, atts in sls.items():
                for k, frames in atts.items():
                    for i, _ in enumerate(frames):
                        yield base + ["deform", sk, sl, k, i], "key.deform"
        for i, _ in enumerate(a.get("events") or []):
            yield base + ["events", i], "key.event"
        for i, f in enumerate(a.get("drawOrder") or []):
            yield base + ["drawOrder", i], "key.drawOrder"
            for j, _ in enumerate(f.get("offsets") or []):
                yield base + ["drawOrder", i, "offsets", j], "offset"


def get(doc, path):
    for p in path:
        doc = doc[p]
    return doc


ALL_NAMES = sorted({a for t in list(model.KEY.values()) + list(model.ATTACHMENT.values()) +
                    [model.BONE, model.SLOT, model.IK, model.TRANSFORM, model.PATH, model.EVENT]
                    for a in t} - {"type"})


def members():
    """Names that mean something to Python or to the data classes, but nothing in a document."""
    import importlib
    import pkgutil
    import spine_json_lib.data.data_types as package
    names = set(dir(object)) | {"data", "values", "key", "version", "is_valid_node", "self", "kwargs"}
    for info in pkgutil.iter_modules(package.__path__):
        module = importlib.import_module(package.__name__ + "." + info.name)
        for thing in vars(module).values():
            if isinstance(thing, type):
                names |= set(dir(thing))
    return sorted(names - set(ALL_NAMES) - {"type"})


REQUIRED = {"bones": ["name"], "slots": ["name", "bone"], "offset": ["offset"],
            "document": ["skeleton"]}
TYPES = ("slot", "foo", "Region", "REGION", "meshes", "skinnedmesh", "weightedmesh", "linkedMesh",
         "", " ", "None", "bounding", "clip", "sequence")


def docs():
    """name -> document; together they hold every kind of object."""
    for name in gen.DOCS:
        yield name, gen.DOCS[name]()
    for kind in c01.SPECS:
        if kind != "header":
            fixed = c01.SPECS[kind][0]
            yield "kind:" + kind, c01.place(kind, [dict(fixed), dict(fixed, **c01.full(kind))]
                                            if "name" not in fixed or kind == "eventkey" else
                                            [dict(fixed, name="n1"),
                                             dict(fixed, **dict(c01.full(kind), name="n2"))])


def document(name):
    return dict(docs())[name] if name.startswith("kind:") else gen.DOCS[name]()


def cases(tier):
    for name, doc in docs():
        seen = {}
        for path, kind in objects(doc):
            seen[kind] = seen.get(kind, 0) + 1
            if kind == "pathtimeline":  # a table of timelines: further ones are kept or rejected
                for attr in FOREIGN:
                    for value in (1, "x", [], [{"time": 1}]):
                        yield ["other", name, path, attr, value]
                continue
            for attr in FOREIGN:
                for value in (1, "x", None, {}, [], False):
                    yield ["foreign", name, path, attr, value]
            # other kinds' names: one object of each kind per document is enough in quick
            if tier == "thorough" or (seen[kind] <= 2 and name.startswith(("kind:", "rich0"))):
                for attr in ALL_NAMES:
                    yield ["other", name, path, attr, 7]
            if seen[kind] == 1 and name.startswith(("kind:", "rich0")) or tier == "thorough":
                for attr in members():
                    yield ["other", name, path, attr, 7]
            for attr in REQUIRED.get(kind, []):
                yield ["missing", name, path, attr]
                if attr != "skeleton":
                    yield ["null", name, path, attr]
            if kind.startswith("att."):
                for t in TYPES:
                    yield ["type", name, path, t]


def check(case, cov):
    what, name, path = case[:3]
    value = None
    doc = copy.deepcopy(document(name))
    target = get(doc, path)
    if what in ("foreign", "other"):
        attr, value = case[3:]
        if attr in target:
            return
        target[attr] = value
    elif what == "missing":
        if case[3] not in target:
            return
        del target[case[3]]
    elif what == "null":
        target[case[3]] = None
    else:
        target["type"] = case[3]
    cov.state(doc)
    cov.step()
    try:
        out = Editor(copy.deepcopy(doc)).to_json_data()
    except Exception as e:
        cov.outcome("%s rejected: %s" % (what, type(e).__name__))
        cov.trace()
        return
    need(what == "other", "%s in %s of document %s: %r loads without an error", what, path, name,
         case[3:])
    # an attribute of another kind: supported here (then it has to be exported) or rejected
    try:
        kept = get(out, path)
    except (KeyError, IndexError, TypeError):
        kept = {}
    need(isinstance(kept, dict) and attr in kept and model.same(kept[attr], value),
         "attribute %s in %s of document %s is silently dropped: %s", attr, path, name,
         model.short(kept))
    cov.outcome("supported and kept")
    cov.trace()
