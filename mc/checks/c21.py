"""Exporting for older versions."""
import contextlib
import copy
import itertools

from mc import gen, model, steps
from mc.checks import c01
from mc.lib import Editor, need, run_op
from spine_json_lib.data.spine_version_type import SpineVersion

RULE = ("every keyframe and object kind: products of attribute values (all of the kind's attributes where the product is small, "
        "every pair otherwise, the rest absent or present) x export versions on both sides of 3.8 x clearing "
        "unsupported attributes for each version first; the export of every history; documents are read by a "
        "pre-3.8 reader that has no default for times, angles, coordinates, volume, balance, deform offset, stretch, compress and curve parameters; non-trivial: the "
        "input leaves one of them to its 3.8 default")

OLD = ("3.7", "3.7.99", "3.6.39", "2.1.27", "3.0", "0.9.9")
NEW = ("3.8", "3.8.0", "3.8.99", "3.10", "4.0.64", "10.7")
PARAMS = ("c2", "c3", "c4")
IMPLICIT = ("time", "angle", "x", "y", "volume", "balance", "offset", "stretch", "compress")
KEY37 = {kind: {a: (model.NODEF if a in IMPLICIT + PARAMS else d) for a, d in table.items()}
         for kind, table in model.KEY.items()}
# what the library may spell out of the defaults of other keys of the same kind of timeline
HARMLESS = {"angle": 0, "x": (0, 1), "y": (0, 1), "c2": 0, "c3": 1, "c4": 1}


def bounds(tier):
    return "%s versions, %s" % ("4" if tier == "quick" else "12", c01.RULE.split(";")[0])


def cases(tier):
    old, new = (OLD[:2], NEW[1:3]) if tier == "quick" else (OLD, NEW)
    for i, c in enumerate(c01.cases(tier)):
        if c[0] in ("product", "group"):
            kind = c[1]
            if kind == "header":
                continue
            key = kind in KINDS
            if not key and (tier == "quick" and i % 11 or tier != "quick" and i % 5):
                continue
            if key and c[0] == "group" and tier == "quick" and i % 2:
                continue
            yield ["one", c, old[i % len(old)], new[i % len(new)]]
        elif c[0] in ("order", "animation") and (tier != "quick" or i % 3 == 0):
            yield ["one", c, old[i % len(old)], new[i % len(new)]]
    for name in gen.DOCS:
        for depth in (0, 1, 2) if tier != "quick" or name.startswith("tiny") else (0, 1):
            for seq in gen.sequences(name, depth):
                for v, w in zip(old, new):
                    yield ["hist", name, seq, v, w]


KINDS = ("rotate", "translate", "shear", "scale", "attachment", "color", "twoColor", "ikkey", "transformkey",
         "pathposition", "pathspacing", "pathmix", "deform", "eventkey", "order")


def frames(doc):
    """(kind, keyframe) of every keyframe."""
    for a in (doc.get("animations") or {}).values():
        for section in ("bones", "slots"):
            for tls in (a.get(section) or {}).values():
                for t, fs in tls.items():
                    for f in fs:
                        yield t, f
        for section in ("ik", "transform"):
            for fs in (a.get(section) or {}).values():
                for f in fs:
                    yield section, f
        for tls in (a.get("path") or {}).values():
            for fs in tls.values():
                for f in fs:
                    yield "pathkey", f
        for sls in (a.get("deform") or {}).values():
            for atts in sls.values():
                for fs in atts.values():
                    for f in fs:
                        yield "deform", f
        for f in a.get("events") or []:
            yield "event", f
        for f in a.get("drawOrder") or []:
            yield "drawOrder", f


def numeric(f):
    return isinstance(f.get("curve"), (int, float)) and not isinstance(f.get("curve"), bool)


def spelled(doc, cleared):
    """The document with everything explicit that only a 3.8 loader assumes."""
    doc = copy.deepcopy(doc)
    for kind, f in frames(doc):
        for a in IMPLICIT:
            if a in model.KEY[kind] and f.get(a) is None:
                f[a] = model.KEY[kind][a]
        for a in PARAMS:
            if cleared:
                f.pop(a, None)
            elif a in model.KEY[kind] and numeric(f) and f.get(a) is None:
                f[a] = model.KEY[kind][a]
    return tidy(doc)


def tidy(doc):
    """Leave out what has no meaning: attributes of other kinds, parameters of no curve."""
    for kind, f in frames(doc):
        for a, harmless in HARMLESS.items():
            ok = harmless if isinstance(harmless, tuple) else (harmless,)
            if a in f and not isinstance(f[a], bool) and f[a] in ok and (
                    a not in model.KEY[kind] or a in PARAMS and not numeric(f)):
                del f[a]
    return doc


@contextlib.contextmanager
def reader37():
    old = model.KEY
    model.KEY = KEY37
    try:
        yield
    finally:
        model.KEY = old


def canon37(doc):
    with reader37():
        return model.canon(doc)


def export(ed, version, doc):
    out = ed.spine_anim_data.data.to_json(SpineVersion(version))
    need(isinstance(out, dict), "exporting for %s gives %r", version, out)
    out = dict(out)
    out["skeleton"] = doc["skeleton"]
    return out


def check(case, cov):
    if case[0] == "one":
        _, inner, old, new = case
        doc = c01.document(inner)
        ops = []
        cov.outcome("%s" % inner[1] if inner[0] in ("product", "group") else inner[0])
    else:
        _, name, seq, old, new = case
        doc, ops = gen.hist_build(name, seq)
        cov.outcome("history of length %d" % len(ops))
    if doc is None:
        return
    ed = Editor(copy.deepcopy(doc))
    for op in ops:
        run_op(ed, op)
    if ops:
        doc = ed.to_json_data()
    agree(canon37(spelled(doc, False)), export37(ed, old, doc), "the export for %s" % old)
    agree(model.canon(doc), model.canon(export(ed, new, doc)), "the export for %s" % new)
    # clearing for a version that supports everything changes nothing
    ed.spine_anim_data.data.clean_unsupported_attributes(SpineVersion(new))
    agree(canon37(spelled(doc, False)), export37(ed, old, doc), "the export for %s after clearing for %s" % (old, new))
    agree(model.canon(doc), model.canon(export(ed, new, doc)), "the export for %s after clearing for it" % new)
    raw, raw38 = export(ed, old, doc), export(ed, new, doc)
    ed.spine_anim_data.data.clean_unsupported_attributes(SpineVersion(old))
    agree(canon37(spelled(doc, True)), export37(ed, old, doc), "the export for %s after clearing for it" % old)
    for before, version in ((raw, old), (raw38, new)):
        want = copy.deepcopy(before)
        for _, f in frames(want):
            for a in PARAMS:
                f.pop(a, None)
        agree(model.tag(want), model.tag(export(ed, version, doc)), "the export for %s after clearing for %s" % (
            version, old))
    cov.state(model.canon(doc))
    cov.step(6)
    cov.trace()


def export37(ed, version, doc):
    return canon37(tidy(export(ed, version, doc)))


def agree(want, got, what):
    need(want == got, "%s: %s", what, model.diff(want, got))
