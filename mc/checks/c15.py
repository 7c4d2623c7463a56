"""Editors share nothing with their input, their output, each other or earlier work."""
import copy
import enum
import json
import os
import subprocess
import sys

from mc import gen, model
from mc.checks.c11 import normal
from mc.lib import Editor, need, run_op

RULE = ("every history up to the depth bound over four documents: the given data is compared after every "
        "operation, everything obtained at any earlier point is compared after every later operation, all of "
        "it (given data, documents, erase results) is scribbled over recursively and the editor is compared "
        "with one that was left alone, now and after every next operation; two editors on the same given "
        "object under every interleaving of their operations; every history against a cold process; "
        "non-trivial: the history edits something")
ASSUMPTIONS = ["editor.images_references is the editor's own state: it may be changed through, but edits must not "
               "change a reference obtained earlier"]
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def bounds(tier):
    return "histories of length <= %s, interleavings of 2 x %d operations" % (
        ("2 (small documents) / 1 (rich)", 1) if tier == "quick" else
        ("3 (small documents) / 2 (rich)", 2))


def cases(tier):
    for name in gen.DOCS:
        small = name.startswith("tiny")
        deepest = (2 if small else 1) + (tier == "thorough")
        for depth in range(0, deepest + 1):
            for seq in gen.sequences(name, depth):
                yield ["alone", name, seq]
                yield ["hurried", name, seq]
        for depth in (0, 1):
            for seq in gen.sequences(name, depth):
                yield ["cold", name, seq]
        for i, a in enumerate(gen.sequences(name, 1)):
            for j, b in enumerate(gen.sequences(name, 1)):
                if small or tier == "thorough" or (i + j) % 4 == 0:
                    yield ["pair", name, a, b]
        if tier == "thorough" and small:
            for a in gen.sequences(name, 2):
                for b in gen.sequences(name, 1):
                    yield ["pair", name, a, b]


def observe(ed):
    return [ed.to_json_data(), ed.images_references]


def scribble(obj):
    """Change everything reachable from obj in place."""
    if isinstance(obj, dict):
        for k in list(obj):
            scribble(obj[k])
            if not isinstance(obj[k], (dict, list)):
                obj[k] = "scribble"
        obj["scribble"] = {"name": "scribble"}
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            scribble(v)
            if not isinstance(v, (dict, list)):
                obj[i] = -99.5
        obj.append("scribble")
    elif isinstance(obj, tuple):
        for v in obj:
            scribble(v)


def check(case, cov):
    {"alone": alone, "hurried": hurried, "cold": cold, "pair": pair}[case[0]](case, cov)
    cov.trace()


def alone(case, cov):
    _, name, seq = case
    doc, ops = gen.hist_build(name, seq)
    control = Editor(copy.deepcopy(doc))
    expected = [copy.deepcopy(observe(control))]
    results = []
    for op in ops:
        results.append(copy.deepcopy(normal(op, run_op(control, op))))
        expected.append(copy.deepcopy(observe(control)))
    nexts = [op for op in gen.alphabet(name) if gen.valid_op(
        op, model.anim_names(expected[-1][0]), model.skin_names(expected[-1][0])) is not None]
    after = []
    for op in nexts[:: max(1, len(nexts) // 4)]:
        ed = copy.deepcopy(control)
        r = normal(op, run_op(ed, op))
        after.append((op, copy.deepcopy(r), copy.deepcopy(observe(ed))))

    given = copy.deepcopy(doc)
    ed = Editor(given)
    need(model.same(given, doc), "loading changes the given data: %s",
         model.diff(model.tag(doc), model.tag(given)))
    taken = [(ed.to_json_data(), ed.get_images_references(), ed.images_references)]
    got = []
    for n, op in enumerate(ops):
        names = list(op[1]) if op[0] in ("anim", "skin") else None
        if names is None:
            got.append(run_op(ed, op))
        else:
            got.append(ed.erase_animations(names, strict_mode=op[3], is_safe_mode=op[2])
                       if op[0] == "anim" else ed.erase_skins(names, is_safe_mode=op[2]))
            need(names == list(op[1]), "%s changes the list of names it was given to %s", op, names)
            scribble(names)
        taken.append((ed.to_json_data(), ed.get_images_references(), ed.images_references))
        cov.step()
        need(model.same(given, doc), "%s changes the data the editor was given: %s", op,
             model.diff(model.tag(doc), model.tag(given)))
        for i, (a, b, c) in enumerate(taken):
            need(model.same([a, b], expected[i]) and model.same(c, expected[i][1]),
                 "%s changes what was obtained after %d operations", ops[:n + 1], i)
        for i, r in enumerate(got):
            need(model.same(normal(ops[i], r), results[i]), "%s changes the result obtained from %s",
                 op, ops[i])
    cov.state(expected[-1])
    # scribble over everything obtained, newest and oldest, and what was given
    scribble(given)
    for a, b, _ in taken:
        scribble(a)
        scribble(b)
    for r in got:
        scribble(r)
        if hasattr(r, "result_data_json"):
            scribble(r.result_data_json)
    need(model.same(observe(ed), expected[-1]), "changing data given to or obtained from the editor after %s "
         "shows up in it: %s", ops, model.diff(model.tag(expected[-1]), model.tag(observe(ed))))
    for op, r, state in after:
        live = copy.deepcopy(ed)
        x = normal(op, run_op(live, op))
        cov.step()
        need(model.same(x, r) and model.same(observe(live), state),
             "changing data given to or obtained from the editor after %s shows up after %s", ops, op)
    fresh = Editor(copy.deepcopy(doc))
    need(model.same(observe(fresh), expected[0]), "working with one editor changes how the same document is "
         "loaded later: %s", model.diff(model.tag(expected[0]), model.tag(observe(fresh))))
    cov.outcome("%d operations, then scribbled" % len(ops))


def internals(obj, seen):
    """Every list and table that belongs to an object of the library."""
    if id(obj) in seen or isinstance(obj, (str, int, float, type, enum.Enum)):
        return
    seen[id(obj)] = obj
    if isinstance(obj, dict):
        for v in list(obj.values()):
            internals(v, seen)
    elif isinstance(obj, (list, tuple)):
        for v in list(obj):
            internals(v, seen)
    elif type(obj).__module__.startswith("spine_json_lib"):
        for v in list(vars(obj).values()):
            internals(v, seen)


def hurried(case, cov):
    """Results are scribbled over as soon as they come, nothing else is looked at in between; then the editor itself
    is taken apart while another one on the same document goes on."""
    _, name, seq = case
    doc, ops = gen.hist_build(name, seq)
    control, ed, other = Editor(copy.deepcopy(doc)), Editor(copy.deepcopy(doc)), Editor(copy.deepcopy(doc))
    for op in ops:
        want = copy.deepcopy(normal(op, run_op(control, op)))
        control.to_json_data()
        r = run_op(ed, op)
        need(model.same(normal(op, r), want), "%s gives another result after the last one was changed", op)
        scribble(r)
        if hasattr(r, "result_data_json"):
            scribble(r.result_data_json)
        scribble(other.to_json_data())
        run_op(other, op)
        cov.step()
    need(model.same(observe(ed), observe(control)), "changing the results of %s shows up in the document: %s", ops,
         model.diff(model.tag(observe(control)), model.tag(observe(ed))))
    need(model.same(observe(other), observe(control)), "changing the exports between %s shows up: %s", ops,
         model.diff(model.tag(observe(control)), model.tag(observe(other))))
    # two editors hold no common list or table: what is added to one's is not seen in the other
    seen = {}
    internals(ed, seen)
    before = copy.deepcopy(observe(control))
    for obj in seen.values():
        if isinstance(obj, dict):
            obj["scribble"] = "scribble"
        elif isinstance(obj, list):
            obj.append("scribble")
    need(model.same(observe(other), before), "two editors of the same document share data: %s",
         model.diff(model.tag(before), model.tag(observe(other))))
    fresh = Editor(copy.deepcopy(doc))
    for op in ops:
        run_op(fresh, op)
    need(model.same(observe(fresh), before), "an editor shares data with the ones loaded later: %s",
         model.diff(model.tag(before), model.tag(observe(fresh))))
    cov.outcome("taken apart after %d operations" % len(ops))


def answer(doc, ops):
    ed = Editor(copy.deepcopy(doc))
    out = [observe(ed)]
    for op in ops:
        out.append([normal(op, run_op(ed, op)), observe(ed)])
    return json.loads(json.dumps(out))


def cold(case, cov):
    """The same history in a process that did nothing else before."""
    _, name, seq = case
    doc, ops = gen.hist_build(name, seq)
    mine = answer(doc, ops)
    out = subprocess.run([sys.executable, "-B", "-m", "mc.checks.c15", json.dumps([doc, ops])], cwd=ROOT,
                         check=True, stdout=subprocess.PIPE).stdout
    theirs = json.loads(out.decode().splitlines()[-1])
    need(model.same(mine, theirs), "%s after other work in the same process differs from a fresh process: %s", ops,
         model.diff(model.tag(theirs), model.tag(mine)))
    cov.step()
    cov.outcome("same as in a cold process")


def merges(a, b):
    if not a or not b:
        yield [0] * len(a) + [1] * len(b)
        return
    for rest in merges(a[1:], b):
        yield [0] + rest
    for rest in merges(a, b[1:]):
        yield [1] + rest


def pair(case, cov):
    _, name, first, second = case
    doc, a = gen.hist_build(name, first)
    _, b = gen.hist_build(name, second)
    want = []
    for ops in (a, b):
        ed = Editor(copy.deepcopy(doc))
        results = [normal(op, run_op(ed, op)) for op in ops]
        want.append(copy.deepcopy([results, observe(ed)]))
    for order in merges(a, b):
        given = copy.deepcopy(doc)
        eds = [Editor(given), Editor(given)]
        todo, got = [list(a), list(b)], [[], []]
        for who in order:
            op = todo[who].pop(0)
            got[who].append(copy.deepcopy(normal(op, run_op(eds[who], op))))
            cov.step()
        for who in (0, 1):
            need(model.same([got[who], observe(eds[who])], want[who]),
                 "two editors on the same data influence each other: %s and %s in order %s", a, b, order)
        need(model.same(given, doc), "editing changes the data the editors were given")
        cov.count("interleavings")
    cov.state(want)
    cov.outcome("two editors")


if __name__ == "__main__":
    real, sys.stdout = sys.stdout, open(os.devnull, "w")
    result = answer(*json.loads(sys.argv[1]))
    print(json.dumps(result), file=real)
