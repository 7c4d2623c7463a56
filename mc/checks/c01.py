"""Round trip: loading and exporting keeps the meaning, attribute by attribute."""
import copy
import itertools
import json

from mc import gen, model, steps
from mc.lib import Editor, need

RULE = ("for every kind of object of the format: the product of attribute values {absent, null, default, "
        "other values, falsy values} over every pair of attributes with all others absent and with "
        "all others present, and every single attribute in full products of up to 4 attributes; presence subsets of "
        "document sections; all orders and repetitions of 2-3 objects; rich documents; non-trivial: "
        "an attribute differs from the format default")
ASSUMPTIONS = ["the format tables of mc/model.py are what a Spine 3.8 loader assumes for absent attributes",
               "the pre-3.x bone attributes inheritRotation/inheritScale are not part of the 3.8 format"]

NUM = (None, 0, 1, -2.5)
NUM1 = (None, 0, 1, 0.5)
STR = (None, "x", "", "\u00f1 x")
COL = (None, "ffffffff", "12345600", "000000ff")
BOOL = (None, True, False)
ARR = (None, [], [0, 1.5], [0])
CRV = {"curve": (None, "stepped", 0.25, 0, [0.1, 0.2, 0.3, 0.4]), "c2": (None, 0, 1, 0.5),
       "c3": (None, 0, 1, 0.5), "c4": (None, 0, 1, 0.5)}
TIME = (None, 0, 1, 0.5)


def d(**kw):
    return kw


# kind -> (fixed attributes, attribute -> values besides absent, how to put it into a document)
SPECS = {
    "bone": (d(name="bb", parent="root"), d(
        length=NUM, x=NUM, y=NUM, rotation=NUM, scaleX=NUM1, scaleY=NUM1, shearX=NUM, shearY=NUM,
        transform=(None, "normal", "onlyTranslation", "noRotationOrReflection", "noScale",
                   "noScaleOrReflection"), color=COL)),
    "slot": (d(name="s2", bone="root"), d(
        attachment=STR, color=COL, dark=(None, "000000", "ffffff"),
        blend=(None, "normal", "additive", "screen"))),
    "ik": (d(name="c", bones=["b"], target="root"), d(
        order=NUM, mix=NUM1, softness=NUM, bendPositive=BOOL, compress=BOOL, stretch=BOOL,
        uniform=BOOL)),
    "transform": (d(name="c", bones=["b"], target="root"), d(
        order=NUM, bone=(None, "b"), rotation=NUM, x=NUM, y=NUM, scaleX=NUM, scaleY=NUM,
        shearX=NUM, shearY=NUM, rotateMix=NUM1, translateMix=NUM1, scaleMix=NUM1, shearMix=NUM1,
        local=BOOL, relative=BOOL)),
    "path": (d(name="c", bones=["b"], target="s"), d(
        order=NUM, skin=BOOL, positionMode=(None, "fixed", "percent"),
        spacingMode=(None, "length", "fixed", "percent"),
        rotateMode=(None, "tangent", "chain", "chainScale"), rotation=NUM, position=NUM,
        spacing=NUM1, rotateMix=NUM1, translateMix=NUM1)),
    "event": ({}, d(int=NUM, float=(None, 0, 0.5, 0.0, 1), string=STR)),
    "region": ({}, d(
        type=(None, "region"), x=NUM, y=NUM, rotation=NUM, scaleX=NUM1, scaleY=NUM1,
        width=(None, 0, 32), height=(None, 0, 32), name=(None, "n"), path=(None, "p"), color=COL)),
    "mesh": (d(type="mesh"), d(
        hull=(None, 0, 3), uvs=ARR, vertices=ARR, edges=ARR, triangles=ARR, width=(None, 0, 32),
        height=(None, 0, 32), name=(None, "n"), path=(None, "p"), color=COL)),
    "linkedmesh": (d(type="linkedmesh", parent="m"), d(
        skin=(None, "default", "k"), deform=BOOL, width=(None, 0, 32), height=(None, 0, 32),
        name=(None, "n"), path=(None, "p"), color=COL)),
    "pathatt": (d(type="path"), d(
        closed=BOOL, constantSpeed=BOOL, lengths=ARR, vertexCount=(None, 0, 3), vertices=ARR,
        color=COL, name=(None, "n"))),
    "point": (d(type="point"), d(x=NUM, y=NUM, rotation=NUM, color=COL, name=(None, "n"))),
    "clipping": (d(type="clipping"), d(
        end=(None, "s"), vertexCount=(None, 0, 3), vertices=ARR, color=COL, name=(None, "n"))),
    "boundingbox": (d(type="boundingbox"), d(
        vertexCount=(None, 0, 3), vertices=ARR, color=COL, name=(None, "n"))),
    "rotate": ({}, dict(time=TIME, angle=NUM, **CRV)),
    "translate": ({}, dict(time=TIME, x=NUM, y=NUM, **CRV)),
    "shear": ({}, dict(time=TIME, x=NUM, y=NUM, **CRV)),
    "scale": ({}, dict(time=TIME, x=NUM1, y=NUM1, **CRV)),
    "attachment": ({}, d(time=TIME, name=(None, "a", ""))),
    "color": ({}, dict(time=TIME, color=COL, **CRV)),
    "twoColor": ({}, dict(time=TIME, light=COL, dark=(None, "000000", "ffffff"), **CRV)),
    "ikkey": ({}, dict(time=TIME, mix=NUM1, bendPositive=BOOL, compress=BOOL, stretch=BOOL, **CRV)),
    "transformkey": ({}, dict(time=TIME, rotateMix=NUM1, translateMix=NUM1, scaleMix=NUM1,
                              shearMix=NUM1, **CRV)),
    "pathposition": ({}, dict(time=TIME, position=NUM1, **CRV)),
    "pathspacing": ({}, dict(time=TIME, spacing=NUM1, **CRV)),
    "pathmix": ({}, dict(time=TIME, rotateMix=NUM1, translateMix=NUM1, **CRV)),
    "deform": ({}, dict(time=TIME, vertices=ARR, offset=(None, 0, 2), **CRV)),
    "eventkey": (d(name="e"), d(
        time=TIME, int=NUM, float=(None, 0, 0.5, 1), string=STR, volume=NUM1, balance=NUM1,
        audio=STR)),
    "order": ({}, d(time=TIME, offsets=([], [{"slot": "s", "offset": 0}],
                                        [{"slot": "s", "offset": 1}],
                                        [{"offset": 1, "slot": "s"}, {"slot": "t", "offset": -1}]))),
    "header": (d(spine="3.8.99"), d(
        hash=STR, x=NUM, y=NUM, width=(None, 0, 3.5), height=(None, 0, 3.5),
        images=("", "./i/", "/abs"), audio=STR, fps=NUM,
        custom=(None, {"deep": [1, {"x": None, "y": ""}]}, [], False))),
}
ABSENT = "<absent>"


def skeleton_doc():
    doc = gen.document(
        [gen.slot("s", "a"), gen.slot("t")],
        [{"name": "default", "attachments": {"s": {"a": gen.region(), "m": gen.mesh()}}},
         {"name": "k", "attachments": {"s": {"m": gen.mesh(5)}}}],
        {"A": {}, "B": {}}, bones=[{"name": "root"}, {"name": "b", "parent": "root"}])
    doc["ik"] = [{"name": "ik", "bones": ["b"], "target": "root"}]
    doc["transform"] = [{"name": "tc", "bones": ["b"], "target": "root"}]
    doc["path"] = [{"name": "pc", "bones": ["b"], "target": "s"}]
    doc["events"] = {"e": {"int": 3}}
    return doc


def place(kind, records):
    """A document holding these records of one kind, in this order."""
    doc = skeleton_doc()
    a = doc["animations"]["A"]
    if kind == "bone":
        doc["bones"] += records
    elif kind == "slot":
        doc["slots"] += records
    elif kind in ("ik", "transform", "path"):
        doc[kind] = records
    elif kind == "event":
        doc["events"] = {"e%d" % (9 - i): r for i, r in enumerate(records)}
    elif kind in ("region", "mesh", "linkedmesh", "pathatt", "point", "clipping", "boundingbox"):
        doc["skins"][1]["attachments"]["t"] = {"z%d" % (9 - i): r for i, r in enumerate(records)}
        doc["skins"][0]["attachments"]["t"] = {"m": gen.mesh(2)}
        doc["skins"][1]["attachments"]["t"]["m"] = gen.mesh(3)
    elif kind in ("rotate", "translate", "shear", "scale"):
        a["bones"] = {"b": {kind: records}, "root": {kind: records[:1]}}
    elif kind in ("attachment", "color", "twoColor"):
        a["slots"] = {"t": {kind: records}, "s": {kind: records[:1]}}
    elif kind == "ikkey":
        a["ik"] = {"ik": records}
    elif kind == "transformkey":
        a["transform"] = {"tc": records}
    elif kind.startswith("path"):
        a["path"] = {"pc": {kind[4:]: records}}
    elif kind == "deform":
        a["deform"] = {"k": {"s": {"m": records}}, "default": {"s": {"m": records[:1]}}}
    elif kind == "eventkey":
        a["events"] = records
    elif kind == "order":
        a["drawOrder"] = records
    elif kind == "header":
        doc["skeleton"] = dict(records[0])
    else:
        raise ValueError(kind)
    return doc


def values(kind, attr):
    return (ABSENT,) + tuple(SPECS[kind][1][attr])


def full(kind):
    """A record of the kind with every attribute present and not default."""
    out = {}
    for attr, vals in SPECS[kind][1].items():
        out[attr] = [v for v in vals if v is not None][-1]
    return out


def cases(tier):
    for kind, (fixed, spec) in SPECS.items():
        attrs = list(spec)
        limit = 3000 if tier == "quick" else 120000
        size = 1
        for a in attrs:
            size *= len(values(kind, a))
        if size <= limit:
            for combo in itertools.product(*[values(kind, a) for a in attrs]):
                yield ["product", kind, combo]
            continue
        for back in ("absent", "full"):
            for n in ((2,) if tier == "quick" else (2, 3)):
                for group in itertools.combinations(attrs, n):
                    for combo in itertools.product(*[values(kind, a) for a in group]):
                        yield ["group", kind, back, group, combo]
    for kind in SPECS:
        if kind == "header":
            continue
        for order in itertools.product(range(3), repeat=3):
            yield ["order", kind, order]
    sections = ["bones", "slots", "skins", "ik", "transform", "path", "events", "animations"]
    for keep in itertools.product((0, 1, 2), repeat=len(sections)):
        yield ["sections", keep]
    inner = ["bones", "slots", "ik", "transform", "path", "deform", "events", "drawOrder"]
    for keep in itertools.product((0, 1, 2), repeat=len(inner)):
        yield ["animation", keep]
    for name in gen.DOCS:
        for perm in itertools.permutations(range(3)):
            yield ["doc", name, perm]
    for doc in ("tiny0", "tiny1"):
        for old in ("s", "t", "u", "k", "A", "B", "m", "a", "b", "default", "root"):
            for new in WEIRD:
                yield ["rename", doc, old, new]
    for kind, (fixed, spec) in SPECS.items():
        for attr, vals in spec.items():
            if isinstance([v for v in vals if v is not None][-1], (int, float)) and \
                    not isinstance(vals[-1], bool):
                for n in range(len(NUMBERS)):
                    yield ["number", kind, attr, n]
            elif isinstance([v for v in vals if v is not None][-1], str) and attr in TEXTS:
                for n in range(len(WEIRD)):
                    yield ["text", kind, attr, n]
    seen = None
    for case in gen.cases(tier, "special", "names", "bare", "colors", "many", "near"):
        if tuple(map(str, case[:-1])) != seen:  # the last parameter is the operation
            seen = tuple(map(str, case[:-1]))
            yield ["of", case]
    for v in ("3.8", "3.8.0", "3.8.99", "3.10", "3.10.1", "4.0.64", "10.0"):
        yield ["version", v]


NUMBERS = (10 ** 20, 2 ** 53 + 1, 1e-7, 1e300, 0.1 + 0.2, 1 / 3, -1e-300, 123456.789, -0.5)
TEXTS = ("string", "audio", "images", "hash", "name", "path", "end", "skin", "attachment")
WEIRD = ("", "name", "attachments", "attachment", "bones", "skeleton", "time", "curve", "c2", "null",
         "0", "1.0", "deform", "d/e f", "\u00f1\U0001f600", "a_SLOT", "type", "idx", "data", "None2")


def document(case):
    if case[0] == "of":
        return gen.build(case[1])[0]
    if case[0] in ("number", "text"):
        _, kind, attr, n = case
        return place(kind, [dict(SPECS[kind][0], **{attr: (NUMBERS if case[0] == "number" else WEIRD)[n]})])
    if case[0] == "rename":
        _, name, old, new = case
        return json.loads(json.dumps(gen.DOCS[name]()).replace('"%s"' % old, json.dumps(new)))
    if case[0] == "product":
        kind, combo = case[1:]
        r = dict(SPECS[kind][0])
        r.update({a: v for a, v in zip(SPECS[kind][1], combo) if v != ABSENT})
        return place(kind, [r])
    if case[0] == "group":
        kind, back, group, combo = case[1:]
        r = dict(SPECS[kind][0])
        if back == "full":
            r.update(full(kind))
        for a, v in zip(group, combo):
            r.pop(a, None)
            if v != ABSENT:
                r[a] = v
        return place(kind, [r])
    if case[0] == "order":
        kind, order = case[1:]
        fixed = SPECS[kind][0]
        attr, vals = list(SPECS[kind][1].items())[-1]
        samples = [dict(fixed), dict(fixed, **full(kind)),
                   dict(fixed, **{attr: [v for v in vals if v is not None][0]})]
        records = []
        for i, o in enumerate(order):
            r = copy.deepcopy(samples[o])
            if "name" in fixed and kind not in ("eventkey",):
                r["name"] = "%s%d" % (r["name"], 9 - i)
            records.append(r)
        return place(kind, records)
    if case[0] == "sections":
        doc = gen.rich(0)
        sections = ["bones", "slots", "skins", "ik", "transform", "path", "events", "animations"]
        for s, k in zip(sections, case[1]):
            if k == 0:
                del doc[s]
            elif k == 1:
                doc[s] = type(doc[s])()
        # what remains has to make sense to the loader: images need slots and bones
        if doc.get("skins") and not doc.get("slots"):
            return None
        return doc
    if case[0] == "animation":
        doc = gen.rich(0)
        inner = ["bones", "slots", "ik", "transform", "path", "deform", "events", "drawOrder"]
        a = doc["animations"]["walk"]
        for s, k in zip(inner, case[1]):
            if k == 0:
                del a[s]
            elif k == 1:
                a[s] = type(a[s])()
        return doc
    if case[0] == "doc":
        doc = gen.DOCS[case[1]]()
        anims = list(doc["animations"].items())
        doc["animations"] = dict(anims[i] for i in case[2] if i < len(anims))
        doc["skins"] = [doc["skins"][i] for i in case[2] if i < len(doc["skins"])]
        return doc
    doc = gen.rich(0)
    doc["skeleton"]["spine"] = case[1]
    return doc


def check(case, cov):
    doc = document(case)
    if doc is None:
        return
    out = Editor(copy.deepcopy(doc)).to_json_data()
    a, b = model.canon(doc), steps.canon(out)
    need(a == b, "the export reads differently: %s", model.diff(a, b))
    cov.state(a)
    cov.step()
    cov.trace()
    cov.outcome(case[0] + " " + str(case[1] if isinstance(case[1], str) else ""))
