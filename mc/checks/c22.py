"""Equivalent ways of making the same edit agree."""
import copy
import itertools

from mc import gen, model
from mc.lib import Editor, need, run_op, summary

RULE = ("every document of the universes (reached by every history up to the bound for the four history documents) x "
        "every pair of its animations and of its skins (all triples of the history documents) x the equivalences: order and "
        "repetition of names in one call; safe mode then cleaning against normal mode; one call against one call per name in "
        "safe mode; safe erasures and scaling in every order; cleaning until nothing is left against erasing animations with a "
        "cleaning after each; non-trivial: the edit changes the document")
ASSUMPTIONS = ["results are compared without order; documents with draw-order keys read as a runtime reads them only for the "
               "last equivalence, exactly for the others"]


def bounds(tier):
    return "histories of length <= %d before the compared edits; first %d animations and skins of a document" % (
        (1, 2) if tier == "quick" else (2, 4))


STRIDE = {"vis": 97, "pair": 61, "kinds": 17, "links": 79, "images": 41, "names": 23, "draw": 7, "colors": 47, "many": 61,
          "deep": 4, "bare": 3, "special": 19, "mixed": 31, "near": 13, "frames": 79, "exotic": 199}


def cases(tier):
    for name in gen.DOCS:
        for depth in (0, 1) if tier == "quick" else (0, 1, 2):
            for seq in gen.sequences(name, depth):
                yield [["hist", name, seq], 3]
    for u, stride in STRIDE.items():
        for i, c in enumerate(gen.cases("quick", u)):
            if i % (stride if tier == "quick" else max(1, stride // 10)) == 0:
                yield [c, 2 if tier == "quick" else 4]


def look(ed):
    return [ed.to_json_data(), ed.images_references]


def meaning(state):
    doc, images = copy.deepcopy(state)
    names = model.slot_names(doc)
    for anim in (doc.get("animations") or {}).values():
        for f in anim.get("drawOrder") or []:
            f["offsets"] = model.runtime_order(names, f.get("offsets") or [])
    return [doc, images]


def results(op, r):
    s = summary(op, r)
    out = [sorted(s[0]), sorted(s[1])] if s is not None else None
    return out, sorted(set(r[1])) if op[0] == "skin" else None


def settle(ed, what):
    for _ in range(20):
        r = ed.clean_animation()
        if not list(r[0]) and not list(r[1]):
            return
    need(False, "cleaning never comes to rest after %s", what)


def check(case, cov):
    inner, most = case
    doc, ops = gen.build(inner)
    start = Editor(copy.deepcopy(doc))
    if inner[0] == "hist":
        for op in ops:
            run_op(start, op)
    base = start.to_json_data()
    anims, skins = model.anim_names(base)[-most:], model.skin_names(base)[:most]
    cov.state(model.canon(base))

    def run(*todo):
        ed = Editor(copy.deepcopy(base))
        out = []
        for op in todo:
            out.append((op, run_op(ed, op)))
            cov.step()
        return ed, out

    def agree(a, b, how=lambda s: s, rest=False):
        (x, rx), (y, ry) = run(*a), run(*b)
        if rest:
            settle(x, a)
            settle(y, b)
        p, q = how(look(x)), how(look(y))
        need(model.same(p, q),
             "%s and %s leave different documents: %s", a, b, model.diff(model.tag(p), model.tag(q)))
        if len(a) == len(b) == 1:
            p, q = results(*rx[0]), results(*ry[0])
            need(p == q, "%s and %s return %s and %s", a, b, model.short(p), model.short(q))
        elif b[-1] == ["clean"] and len(a) == 1:
            p, q = results(*rx[0])[0], results(*ry[-1])[0]
            need(p == q, "%s returns %s, cleaning after %s returns %s", a, model.short(p), b[0], model.short(q))

    anim = lambda *n: ["anim", list(n), False, True]
    asafe = lambda *n: ["anim", list(n), True, True]
    skin = lambda *n: ["skin", list(n), False]
    ssafe = lambda *n: ["skin", list(n), True]
    for names, normal, safe in ((anims, anim, asafe), (skins, skin, ssafe)):
        for n in range(1, len(names) + 1):
            for some in itertools.combinations(names, n):
                agree([normal(*some)], [safe(*some), ["clean"]])
                for perm in itertools.permutations(some):
                    if perm != some:
                        agree([normal(*some)], [normal(*perm)])
                    if n > 1:
                        agree([safe(*some)], [safe(x) for x in perm])
                agree([normal(*some)], [normal(*(some + some[:1]))])
                agree([safe(*some)], [safe(*(some[-1:] + some))])
                agree([safe(*some)], [safe(*(some * 3))])
                agree([normal(*some)], [normal(*(some[-1:] * 4 + some + some[:1]))])
                cov.outcome("%s of %d" % (normal("")[0], n))
    for a in anims:
        for k in skins:
            parts = [asafe(a), ssafe(k), ["scale", 2, 0.5]]
            perms = [p for p in itertools.permutations(parts) if list(p) != parts]
            for perm in perms if inner[0] == "hist" else [perms[-1], perms[2]]:
                agree(parts, list(perm))
    for x, y in itertools.permutations(anims, 2):
        if len(model.anim_names(base)) > 2:
            agree([anim(x, y)], [anim(x), anim(y)], meaning, rest=True)
            cov.outcome("one after the other")
    agree([["clean"]], [anim()])
    cov.trace()
