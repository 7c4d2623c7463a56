"""Rejected edits change nothing; unknown names in non-strict mode are ignored."""
import copy

from mc import gen, model, steps
from mc.lib import Editor, need, run_op

RULE = ("every history up to the depth bound x every rejected call (unknown names before and after known "
        "ones, wrong types, unhashable names, safe and normal mode) x every next operation, against "
        "an editor on which the rejected call was not made; and every non-strict erase with unknown "
        "names against the erase of the known ones; non-trivial: the rejected call also names things that exist")

# called as (method, args): "A1"/"K1" stand for an existing animation/skin, "A2"/"K2" for another
BAD = [
    ["anim", ["nope"], False, True], ["anim", ["A1", "nope"], False, True],
    ["anim", ["nope", "A1"], True, True], ["anim", ["A1", "A2", "nope"], True, True],
    ["anim", ["A1", None], False, True], ["anim", ["A1", ["A2"]], False, True],
    ["anim", ["A1", ["A2"]], True, False], ["anim", ["A1", ""], False, True],
    ["raw anim", "tuple"], ["raw anim", "str"], ["raw anim", "None"], ["raw anim", "dict"],
    ["raw anim", "set"], ["raw anim", "generator"],
    ["skin", ["nope"], False], ["skin", ["K1", "nope"], False], ["skin", ["nope", "K1"], True],
    ["skin", ["K1", "K2", "nope"], True], ["skin", ["K1", None], False],
    ["skin", ["K1", ["K2"]], False], ["skin", ["K1", "K1", "nope"], True],
    ["raw skin", "None"], ["raw skin", "int"],
    ["scale", 2, None], ["scale", None, 2], ["scale", "x", 2], ["scale", 2, "x"], ["scale", [2], 2],
    ["scale", 2, {}],
    # names the history has erased
    ["anim", ["GA", "A1"], False, True], ["anim", ["A1", "GA"], True, True], ["anim", ["GA"], False, True],
    ["skin", ["GK", "K1"], False], ["skin", ["K1", "GK"], False], ["skin", ["K1", "GK"], True], ["skin", ["GK"], False],
]
LOOSE = [["nope"], ["A1", "nope"], ["nope", "A1"], ["A1", "nope", "A2", "other"], ["", "A2"], ["GA", "A1"],
         ["A1", "GA", "nope"]]
KEYS = ("A1", "A2", "K1", "K2", "GA", "GK")


def bounds(tier):
    return "histories of length <= %d before the rejected call, one operation after it" % (
        1 if tier == "quick" else 2)


def cases(tier):
    deepest = 1 if tier == "quick" else 2
    for name in gen.DOCS:
        for depth in range(0, deepest + 1):
            for seq in gen.sequences(name, depth):
                for i in range(len(BAD)):
                    yield ["bad", name, seq, i]
                for i in range(len(LOOSE)):
                    for safe in (False, True):
                        yield ["loose", name, seq, i, safe]


def names_of(doc, first):
    a, k = model.anim_names(doc), model.skin_names(doc)
    out = {}
    for key, pool in (("A", a), ("K", k)):
        for n in (1, 2):
            if len(pool) >= n:
                out["%s%d" % (key, n)] = pool[-n]
    gone = ([n for n in model.anim_names(first) if n not in a], [n for n in model.skin_names(first) if n not in k])
    for key, names in zip(("GA", "GK"), gone):
        if names:
            out[key] = names[0]
    return out


def fill(names, table):
    out = []
    for n in names:
        if isinstance(n, list):
            out.append(fill(n, table))
        elif n in KEYS:
            if n in table:
                out.append(table[n])
        else:
            out.append(n)
    return out


def call(ed, bad, table):
    if bad[0] == "raw anim":
        a = table.get("A1", "nope")
        arg = {"tuple": (a,), "str": a, "None": None, "dict": {a: 1}, "set": {a},
               "generator": (x for x in [a])}[bad[1]]
        return ed.erase_animations(arg)
    if bad[0] == "raw skin":
        return ed.erase_skins({"None": None, "int": 3}[bad[1]])
    op = copy.deepcopy(bad)
    if op[0] != "scale":
        op[1] = fill(op[1], table)
    return run_op(ed, op)


def state(ed):
    return copy.deepcopy([ed.to_json_data(), ed.images_references])


def normal(op, result):
    if op[0] == "anim":
        return [result.result_data_json, sorted(result.result_summary[0]),
                sorted(result.result_summary[1])]
    if op[0] == "skin":
        return [sorted(result[0][0]), sorted(result[0][1]), sorted(result[1])]
    if op[0] == "clean":
        return [sorted(result[0]), sorted(result[1])]
    return None


def equal(a, b):
    return model.same(a, b)


def check(case, cov):
    what, name, seq = case[:3]
    doc, ops = gen.hist_build(name, seq)

    def editor():
        ed = Editor(copy.deepcopy(doc))
        for op in ops:
            run_op(ed, op)
        return ed

    ed = editor()
    before = state(ed)
    table = names_of(before[0], doc)
    cov.state(before)
    if what == "loose":
        wanted = fill(LOOSE[case[3]], table)
        known = [n for n in wanted if n in model.anim_names(before[0])]
        control = editor()
        r1 = run_op(ed, ["anim", wanted, case[4], False])
        r2 = run_op(control, ["anim", known, case[4], True])
        need(equal(normal(["anim"], r1), normal(["anim"], r2)) and equal(state(ed), state(control)),
             "erasing %s non-strictly differs from erasing %s", wanted, known)
        cov.step(2)
        cov.outcome("non-strict, %d known" % len(known))
        return
    bad = BAD[case[3]]
    if any(k in str(bad) and k not in table for k in ("A1", "K1", "GA", "GK")):
        return
    try:
        call(ed, bad, table)
    except Exception as e:
        cov.outcome("%s rejected: %s" % (bad[0], type(e).__name__))
    else:
        need(False, "%s (with %s) is not rejected after %s", bad, table, ops)
    cov.step()
    need(equal(state(ed), before), "the rejected call %s (with %s) after %s changes the animation: %s",
         bad, table, ops, model.diff(model.tag(before), model.tag(state(ed))))
    cur = table
    for op in gen.alphabet(name):
        if gen.valid_op(op, model.anim_names(before[0]), model.skin_names(before[0])) is None:
            continue
        live, control = editor(), editor()
        try:
            call(live, bad, cur)
        except Exception:
            pass
        r1, r2 = run_op(live, op), run_op(control, op)
        cov.step(2)
        need(equal(normal(op, r1), normal(op, r2)), "%s returns %s after the rejected call %s, and "
             "%s without it", op, r1, bad, r2)
        need(equal(state(live), state(control)), "%s after the rejected call %s gives another "
             "document than without it", op, bad)
    cov.trace()
