"""Exports reload to the same document, in memory and through files."""
import copy
import json
import os
import shutil
import tempfile

from mc import gen, model, steps
from mc.lib import Editor, need, run_op

RULE = ("every document reached in the history, attachment-kind and draw-order universes "
        "(thorough: also linked-mesh, name, image, shared-name and visibility) is exported, reloaded and exported again; every state of the short histories is also "
        "saved to {existing folder, new nested folders, bare file name, over a longer file, over a "
        "folder sibling} and read back byte-wise; non-trivial: saved documents differ in length and hold "
        "non-ASCII names")
ASSUMPTIONS = ["saving is not claimed to be atomic with respect to crashes"]

# a name with other alphabets, quotes, control characters, a line separator and half of a surrogate pair
WEIRD = '"b\\u00f1\\u20ac \\" \\\\ \\n\\u0007\\u2028\\ud83d"'
TARGETS = ("existing", "nested", "bare", "overwrite", "dot", "relative", "spaces", "twice")


def cases(tier):
    yield from gen.cases(tier, "hist", "kinds", "draw", "bare", "many", "special", "deep", "near")
    if tier == "thorough":
        yield from gen.cases(tier, "links", "vis", "pair", "names", "images")
    for name in gen.DOCS:
        for n in (0, 1, 2):
            for seq in gen.sequences(name, n):
                if tier == "quick" and n == 2 and name.startswith("rich"):
                    continue
                for target in TARGETS:
                    yield ["file", name, seq, target]


def check(case, cov):
    if case[0] == "file":
        return files(case, cov)
    for s in steps.run(case, cov):
        again = Editor(copy.deepcopy(s.after)).to_json_data()
        need(model.same(again, s.after), "after %s: exporting the reloaded export differs: %s",
             s.op, model.diff(model.tag(s.after), model.tag(again)))
        # the export is JSON
        need(model.same(json.loads(json.dumps(s.after)), s.after),
             "after %s: the export does not survive JSON", s.op)
        cov.outcome("reloaded after " + s.op[0])


def place(base, target, name):
    if target == "existing":
        os.mkdir(os.path.join(base, "have"))
        return os.path.join(base, "have", name)
    if target == "nested":
        return os.path.join(base, "a", "b", "c", name)
    if target == "overwrite":
        path = os.path.join(base, name)
        with open(path, "w") as f:
            f.write("{}" + "\n[1, 2, 3]" * 20000)
        return path
    if target == "dot":
        return "./" + name
    if target == "relative":
        return os.path.join("sub", "..", "sub", name)
    if target == "spaces":
        return os.path.join(base, "a folder", "\u00f1", name)
    return name if target == "bare" else os.path.join(base, name)


def files(case, cov):
    _, name, seq, target = case
    doc, ops = gen.hist_build(name, seq)
    doc = json.loads(json.dumps(doc).replace('"body2"', WEIRD)
                     .replace('"walk"', '"walk \\u00e9"'))
    ops = json.loads(json.dumps(ops).replace('"walk"', '"walk \\u00e9"'))
    ed = Editor(copy.deepcopy(doc))
    for op in ops:
        run_op(ed, op)
        cov.step()
    base = tempfile.mkdtemp(prefix="mc-c03-")
    cwd = os.getcwd()
    try:
        os.chdir(base)
        want, images = ed.to_json_data(), copy.deepcopy(ed.images_references)
        path = place(base, target, "out.json")
        ipath = os.path.join(os.path.dirname(path), "images.json")
        if target == "twice":  # a bigger document was saved there before
            Editor(gen.rich(0)).to_json(path)
            Editor(gen.rich(0)).save_images_json(ipath)
        ed.to_json(path)
        with open(path) as f:
            text = f.read()
        got = json.loads(text)
        need(model.same(got, want) and list(got) == list(want),
             "the file saved at %s differs from the export: %s", target,
             model.diff(model.tag(want), model.tag(got)))
        again = Editor.from_json_file(path)
        need(model.same(again.to_json_data(), want), "the reloaded file exports differently: %s",
             model.diff(model.tag(want), model.tag(again.to_json_data())))
        need(again.images_references == images, "the reloaded file has image references %s, not %s",
             again.images_references, images)
        ed.save_images_json(ipath)
        with open(ipath) as f:
            refs = json.load(f)
        need(refs == images, "the images file holds %s instead of %s", refs, images)
        need(model.same(ed.to_json_data(), want), "saving changes the document")
        # ... and into another new folder of its own
        other = os.path.join(base, "n1", "n2", "i.json")
        ed.save_images_json(other)
        with open(other) as f:
            need(json.load(f) == images, "the images file in a new folder differs")
        cov.outcome("file " + target)
        cov.state(want)
        cov.trace()
    finally:
        os.chdir(cwd)
        shutil.rmtree(base)
