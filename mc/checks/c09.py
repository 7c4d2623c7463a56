import copy

from mc import gen, model, steps
from mc.lib import Editor, need

RULE = ("every document x edit sequence of the image, linked-mesh, attachment-kind, name, exotic-name and history "
        "universes; after loading and after each edit the image references are compared with the "
        "images the exported document uses, and the image list of each skin erasure with the "
        "difference of the images used; non-trivial: documents use shared and private images")


def cases(tier):
    yield from gen.cases(tier, "images", "hist", "links", "kinds", "names", "pair", "many", "special", "mixed", "bare", "deep", "frames", "exotic", "near")
    for folder in ("./images/", "img", "", "/abs/", "a/b"):
        for first in ([], ["clean"], ["skin", ["red"], False], ["anim", ["walk"], False, True]):
            yield ["folder", folder, first]
    yield ["folder", None, []]


def same_refs(doc, refs, what, case):
    want = model.used_images(doc)
    need(set(refs) == set(want), "%s: image references are %s, the document uses %s", what,
         sorted(refs), sorted(want))
    for k, v in refs.items():
        need(v.get("path") == model.image_path(doc, k), "%s: image %s has path %r instead of %r",
             what, k, v.get("path"), model.image_path(doc, k))
        need(set(v) <= {"path", "scale"}, "%s: image %s has entry %s", what, k, v)


def check(case, cov):
    if case[0] == "folder":
        doc = gen.rich(0)
        if case[1] is None:
            del doc["skeleton"]["images"]
        else:
            doc["skeleton"]["images"] = case[1]
        from mc.lib import run_op
        ed = Editor(copy.deepcopy(doc))
        same_refs(doc, ed.images_references, "after loading", case)
        if case[2]:
            run_op(ed, case[2])
            same_refs(ed.to_json_data(), ed.images_references, "after %s" % case[2], case)
            cov.step()
        cov.state(case)
        return
    for s in steps.run(case, cov, images=True):
        if s.first:
            same_refs(s.before, s.images_before, "after loading", case)
        same_refs(s.after, s.images_after, "after %s" % s.op, case)
        if s.op[0] == "skin":
            erased = set(s.op[1])
            want = set(model.used_images(s.before, erased)) - set(model.used_images(
                s.before, set(model.skin_names(s.before)) - erased))
            need(set(s.result[1]) == want, "%s returns images %s instead of %s", s.op,
                 sorted(set(s.result[1])), sorted(want))
            cov.outcome("skin erased: %d images" % len(want))
        else:
            cov.outcome("%s: %d -> %d images" % (s.op[0], len(s.images_before),
                                                 len(s.images_after)))
