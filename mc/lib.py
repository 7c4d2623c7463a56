"""Access to the code under test: always the working tree of /repo, never a copy.

SPINE_REPO overrides the path for experiments in scratch copies only."""
import os
import sys

REPO = os.environ.get("SPINE_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import spine_json_lib  # noqa: E402

if not os.path.realpath(spine_json_lib.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("spine_json_lib was not imported from %s" % REPO)

from spine_json_lib import SpineAnimationEditor as Editor  # noqa: E402


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    """The code under test did not come back."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def run_op(editor, op):
    """Apply one operation of the alphabet. Returns its result."""
    kind = op[0]
    if kind == "anim":  # names, safe, strict
        return editor.erase_animations(list(op[1]), strict_mode=op[3], is_safe_mode=op[2])
    if kind == "skin":  # names, safe
        return editor.erase_skins(list(op[1]), is_safe_mode=op[2])
    if kind == "clean":
        return editor.clean_animation()
    if kind == "scale":
        return editor.scale_animation(op[1], op[2])
    if kind == "badanim":  # an argument that is not a list
        return editor.erase_animations(tuple(op[1]))
    raise ValueError(op)


def summary(op, result):
    """(slots, attachments) reported as removed by an edit, or None when there is none."""
    if op[0] == "anim":
        r = result.result_summary
    elif op[0] == "skin":
        r = result[0]
    elif op[0] == "clean":
        r = result
    else:
        return None
    return list(r[0]), list(r[1])


def is_safe(op):
    return (op[0] in ("anim", "skin") and op[2]) or op[0] == "scale"
