"""Answers of the same histories under another hash seed, computed once per worker in a child."""
import copy
import hashlib
import json
import os
import subprocess
import sys

from mc import gen

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_cache = {}


def answer(doc, ops):
    """Everything observable at the end of a history, with unordered results sorted."""
    from mc.checks.c11 import normal
    from mc.lib import Editor, run_op
    ed = Editor(copy.deepcopy(doc))
    out = []
    for op in ops:
        out.append(normal(op, run_op(ed, op)))
    out.append(ed.to_json_data())
    out.append(ed.images_references)
    return json.loads(json.dumps(out, sort_keys=True))


def table(name, depth):
    if (name, depth) not in _cache:
        seed = str(100 + int(os.environ.get("PYTHONHASHSEED", "0") or 0))
        out = subprocess.run([sys.executable, "-B", "-m", "mc.seeds", name, str(depth)], cwd=ROOT,
                             env=dict(os.environ, PYTHONHASHSEED=seed), check=True,
                             stdout=subprocess.PIPE).stdout
        _cache[name, depth] = json.loads(out.decode().splitlines()[-1])
    return _cache[name, depth]


def main():
    name, depth = sys.argv[1], int(sys.argv[2])
    out = {}
    real = sys.stdout
    sys.stdout = open(os.devnull, "w")
    for seq in gen.sequences(name, depth):
        doc, ops = gen.hist_build(name, seq)
        out[json.dumps(seq)] = hashlib.sha256(json.dumps(answer(doc, ops)).encode()).hexdigest()
    sys.stdout = real
    print(json.dumps(out))


if __name__ == "__main__":
    main()
