"""Runs one case (document + operations) on the real editor, one observed step at a time."""
import copy

from mc import gen, model
from mc.lib import Editor, Violation, run_op, summary


class Step:
    """before/after are exported documents; before of the first step is the given document."""
    __slots__ = ("op", "before", "after", "result", "images_before", "images_after", "editor",
                 "removed", "first")


def run(case, cov, images=False):
    doc, ops = gen.build(case)
    editor = Editor(copy.deepcopy(doc))
    before = doc
    cov.state(model.canon(doc))
    for n, op in enumerate(ops):
        s = Step()
        s.first = n == 0
        s.op, s.before, s.editor = op, before, editor
        s.images_before = copy.deepcopy(editor.images_references) if images else None
        s.result = run_op(editor, op)
        s.removed = summary(op, s.result)
        s.after = editor.to_json_data()
        s.images_after = copy.deepcopy(editor.images_references) if images else None
        cov.step()
        cov.state(canon(s.after))
        yield s
        before = s.after
    cov.trace()


def canon(doc):
    try:
        return model.canon(doc)
    except (model.Malformed, AttributeError, TypeError, KeyError) as e:
        raise Violation("the exported document is malformed: %s" % e)
