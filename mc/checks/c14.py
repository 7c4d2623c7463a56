"""The live editor and a fresh editor on its export behave the same from there on."""
import copy

from mc import gen, model, steps
from mc.checks.c11 import equal, normal, state
from mc.lib import Editor, need, run_op

RULE = ("every history up to the depth bound over four documents x every next operation: the live editor "
        "and a fresh editor loaded from its export are compared on document, image references and result; the same "
        "comparison after every step of the linked-mesh, attachment-kind, image, shared-name and name universes; "
        "every (erase/clean, scale) pair in both orders; every history under several hash seeds; "
        "non-trivial: the history edited something before the compared operation")


def bounds(tier):
    return "histories of length <= %d (small documents) / %d (rich), one compared operation" % (
        (2, 1) if tier == "quick" else (3, 2))


def cases(tier):
    for name in gen.DOCS:
        small = name.startswith("tiny")
        deep = (2 if small else 1) if tier == "quick" else (3 if small else 2)
        for depth in range(0, deep + 1):
            for seq in gen.sequences(name, depth):
                yield ["next", name, seq]
        for depth in (1, 2):
            if depth == 2 and not small and tier == "quick":
                continue
            for seq in gen.sequences(name, depth):
                yield ["commute", name, seq]
    # not sharded by case but repeated on every worker's hash seed
    for name in gen.DOCS:
        for seq in gen.sequences(name, 2 if name.startswith("tiny") else 1):
            yield ["seeds", name, seq]
    stride = 4 if tier == "quick" else 1
    for u in ("links", "kinds", "images", "pair", "names", "draw", "many", "bare", "special", "mixed"):
        for i, c in enumerate(gen.cases(tier, u)):
            if i % stride == 0:
                yield ["reload", c]


FOLLOW = {"mixed": [["clean"]], "links": [["clean"]], "kinds": [["clean"], ["scale", 2, 2]], "images": [["clean"]],
          "pair": [["clean"], ["anim", ["B"], False, True]], "names": [["clean"]],
          "special": [["clean"], ["anim", ["C"], False, False]],
          "many": [["clean"], ["anim", ["A3"], False, False]], "bare": [["clean"], ["scale", 2, 2]],
          "draw": [["anim", ["A"], False, False], ["clean"]]}


def check(case, cov):
    what = case[0]
    if what == "reload":
        doc, ops = gen.build(case[1])
        ed = Editor(copy.deepcopy(doc))
        for op in ops:
            run_op(ed, op)
            cov.step()
        compare(lambda: copy.deepcopy(ed), FOLLOW[case[1][0]], ops, cov)
        cov.trace()
        return
    _, name, seq = case
    doc, ops = gen.hist_build(name, seq)

    def live():
        ed = Editor(copy.deepcopy(doc))
        for op in ops:
            run_op(ed, op)
        return ed

    if what == "next":
        out = live().to_json_data()
        nexts = [op for op in gen.alphabet(name) if gen.valid_op(
            op, model.anim_names(out), model.skin_names(out)) is not None]
        compare(live, nexts, ops, cov)
        cov.trace()
        return
    if what == "commute":
        for sx, sy in ((2, 4), (0.5, 0.25)):
            a = live()
            a.scale_animation(sx, sy)
            b = Editor(copy.deepcopy(doc))
            b.scale_animation(sx, sy)
            for op in ops:
                run_op(b, op)
            need(equal(state(a), state(b)), "scaling by (%s, %s) before or after %s differs: %s",
                 sx, sy, ops, model.diff(model.tag(state(a)), model.tag(state(b))))
            cov.step(2)
        cov.outcome("scaling commutes")
        return
    # seeds: the export is a function of the document; the other seeds' answer comes from a child
    import hashlib
    import json
    from mc import seeds
    mine = hashlib.sha256(json.dumps(seeds.answer(doc, ops)).encode()).hexdigest()
    table = seeds.table(name, len(seq))
    key = json.dumps(seq)
    need(table[key] == mine, "%s give another result under another hash seed", ops)
    cov.step()
    cov.outcome("hash seeds agree")


def compare(live, nexts, ops, cov):
    ed = live()
    out, images = ed.to_json_data(), ed.images_references
    fresh = Editor(copy.deepcopy(out))
    need(equal(fresh.to_json_data(), out), "the export reloads differently after %s: %s", ops,
         model.diff(model.tag(out), model.tag(fresh.to_json_data())))
    need(fresh.images_references == images, "after %s the image references are %s, a fresh editor "
         "has %s", ops, images, fresh.images_references)
    cov.state(out)
    for op in nexts:
        a, b = live(), Editor(copy.deepcopy(out))
        x, y = normal(op, run_op(a, op)), normal(op, run_op(b, op))
        cov.step(2)
        need(equal(x, y), "after %s, %s returns %s on the live editor and %s on a fresh one", ops, op,
             model.short(x), model.short(y))
        need(equal(state(a), state(b)), "after %s, %s gives another document on the live editor than "
             "on a fresh one: %s", ops, op, model.diff(model.tag(state(b)), model.tag(state(a))))
        cov.outcome("next " + op[0])
