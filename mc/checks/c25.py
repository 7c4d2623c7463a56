"""Editors and graphs that share nothing can be used from different threads."""
import copy
import itertools
import os
import sys
import threading

from mc import gen
from mc.lib import REPO, Editor, need, run_op, summary
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.graph_validator import UCNodeType
from spine_json_lib.spine_graph_container import SpineGraphContainer

RULE = ("pairs of programs (load, edit, export an editor of its own; build, check, order a graph of its own) in two real threads under a "
        "controlled scheduler: every schedule that interrupts one program once, before any line of the library it executes, runs "
        "the other to its end and resumes (quick: in the generic base class and the keyframe types only before calls); and every schedule "
        "that interrupts both once at any call that is at most three library calls deep; each program's "
        "results equal those it has alone; non-trivial: the interruption lies inside a library call")
ASSUMPTIONS = ["switching inside one line, in the interpreter's own library or more than twice is not explored",
               "a schedule that a lock makes impossible is skipped"]
PACKAGE = os.path.realpath(REPO) + os.sep
INNER = ("base_type.py", "slot.py", "bone.py", "spine_version_type.py")


def mini(n):
    """Two small documents with different contents under overlapping names."""
    if n == 0:
        return gen.document(
            [gen.slot("s", "a", bone="b [scale:2]"), gen.slot("t", None), gen.slot("u", "v", gen.ALPHA0)],
            [{"name": "default", "attachments": {"s": {"a": gen.region(1), "v": gen.mesh(2)}, "u": {"v": gen.region(3)}}},
             {"name": "k", "attachments": {"s": {"v": gen.linked("v", "default")}}}],
            {"A": dict(gen.anim(s="null0"), drawOrder=[{"time": 0, "offsets": [{"slot": "s", "offset": 2}]}]), "B": gen.anim(t="a0")},
            bones=[{"name": "root"}, {"name": "b [scale:2]", "parent": "root", "transform": "noScale"}])
    return gen.document(
        [gen.slot("t", "a"), gen.slot("s", "v", bone="b [scale:3]")],
        [{"name": "k", "attachments": {"s": {"v": gen.region(5), "x": gen.region(6)}}},
         {"name": "default", "attachments": {"t": {"a": gen.mesh(7)}, "s": {"a": gen.region(8)}}}],
        {"B": dict(gen.anim(s="c00"), drawOrder=[{"time": 1, "offsets": [{"slot": "t", "offset": 1}]}]), "A": gen.anim(t="null0")},
        bones=[{"name": "root", "scaleX": 2}, {"name": "b [scale:3]", "parent": "root"}],
        ik=[{"name": "i", "bones": ["root"], "target": "b [scale:3]", "order": 0}], version="4.0.1" if n == 2 else "3.8.99")


EDITS = {"load": [], "clean": [[gen.CLEAN][0]], "anim": [gen.erase("A")], "skin": [gen.drop("k")], "default": [gen.drop("default", safe=True)],
         "scale": [["scale", 2, 3]], "loose": [gen.erase("B", "nope", safe=True, strict=False)]}


def edit(n, what):
    """[prepare, run]: what is done before and under the scheduler."""
    def prepare():
        return None if what == "load" else Editor(mini(n))

    def run(ed):
        if ed is None:
            ed = Editor(mini(n))
        out = []
        for op in EDITS[what]:
            r = run_op(ed, op)
            s = summary(op, r)
            out += [[sorted(s[0]), sorted(s[1])] if s is not None else None, sorted(set(r[1])) if op[0] == "skin" else None]
        return out + [ed.to_json_data(), ed.images_references]
    return prepare, run


def older(n):
    def run(ed):
        ed.spine_anim_data.data.clean_unsupported_attributes(ed.spine_version)
        return [ed.spine_anim_data.data.to_json(v) for v in (ed.spine_version, type(ed.spine_version)("3.7" if n else "3.8"))]
    return (lambda: Editor(mini(n))), run


def both():
    """Two editors on one given object."""
    return mini(0)


SHARED = both()


def shared(what):
    def run(_):
        ed = Editor(SHARED)
        for op in EDITS[what]:
            run_op(ed, op)
        return [ed.to_json_data(), ed.images_references, copy.deepcopy(SHARED)]
    return (lambda: None), run


def graph(n):
    edges = [("a", "b"), ("b", "c"), ("a", "c"), ("c", "d"), ("b", "d")] if n == 0 else [("d", "c"), ("c", "a"), ("d", "b"), ("b", "a")]

    def run(_):
        g = DAGraph()
        root = UCNodeType.INPUT_ROOT_NODE_TYPE.name
        for i in "abcd" if n else "dcba":
            g.add_node(i, node_type=root if i == edges[0][0] else "x")
        new = g.add_node().id
        for a, b in edges:
            g.add_edge(a, b)
        out = [new, sorted(g.get_heads_id()), sorted(g.get_tails_id()), len(g.validate().errors)]
        g.remove_node_by_id(new)
        out += [g.sequential_order_of_execution(), sorted(g.get_all_paths(edges[0][0], edges[-1][1])), len(g.validate().errors)]
        g.remove_edge(*edges[1])
        g.add_edge(edges[-1][1], edges[0][0])
        return out + [len(g.validate().errors), sorted(g.get_heads_id()), {i: sorted(g.get_node(i).parents) for i in "abcd"}]
    return (lambda: None), run


def container(n):
    def run(_):
        box = SpineGraphContainer(mini(n))
        out = [sorted(box.get_leafs_of_type("SLOT")), [r.id for r in box.remove_attachments(["a"])], sorted(box.remove_leafs_of_type("SLOT")),
               sorted(box.remove_heads_of_type("IMAGE"))]
        return out + [sorted(box.graph.get_heads_id()), sorted(box.graph.get_tails_id())]
    return (lambda: None), run


PROGRAMS = {"%s%d" % (w, n): (lambda n=n, w=w: edit(n, w)) for w in EDITS for n in (0, 1)}
PROGRAMS.update({"older%d" % n: (lambda n=n: older(n)) for n in (0, 2)})
PROGRAMS.update({"graph%d" % n: (lambda n=n: graph(n)) for n in (0, 1)})
PROGRAMS.update({"box%d" % n: (lambda n=n: container(n)) for n in (0, 1)})
PROGRAMS.update({"shared " + w: (lambda w=w: shared(w)) for w in ("load", "clean", "skin")})

# which is interrupted, by which
PAIRS = [("load0", "load1"), ("clean0", "clean1"), ("anim0", "anim1"), ("skin0", "skin1"), ("skin1", "default0"), ("scale0", "load1"),
         ("loose1", "anim0"), ("graph0", "graph1"), ("box0", "box1"), ("older0", "older2"), ("older2", "load0"), ("load1", "older2"),
         ("shared clean", "shared skin"), ("default0", "clean1")]


def bounds(tier):
    return "one interruption before any library line, %d pairs of programs; two interruptions at calls, %s" % (
        len(PAIRS) if tier == "quick" else len(PROGRAMS) ** 2, "4 pairs" if tier == "quick" else "all these pairs")


def cases(tier):
    pairs = PAIRS if tier == "quick" else [(a, b) for a in PROGRAMS for b in PROGRAMS]
    for a, b in pairs:
        for part in range(8):
            yield ["one", a, b, part, 8, 1 if tier == "quick" else 0]
    for a, b in PAIRS[1:4] + [("graph0", "graph1")] if tier == "quick" else PAIRS:
        for part in range(16):
            yield ["two", a, b, part, 16, 2]


# scheduling points: every line; every line outside the inner modules and every call; every call at most three deep
LINES, COARSE, CALLS = 0, 1, 2
_kinds = {}


def kind_of(name):
    """None outside the package, else whether the file is an inner one."""
    if name not in _kinds:
        real = os.path.realpath(name)
        _kinds[name] = os.path.basename(real) in INNER if real.startswith(PACKAGE) else None
    return _kinds[name]


def depth(frame):
    n = 0
    while frame is not None:
        n += kind_of(frame.f_code.co_filename) is not None
        frame = frame.f_back
    return n


class Program(object):
    """One thread of the schedule: stops before its k-th scheduling point and lets the other go on."""

    def __init__(self, name, level):
        self.prepare, self.run = PROGRAMS[name]()
        self.state = self.prepare()
        self.level = level
        self.seen = 0
        self.stop = None
        self.turn = threading.Semaphore(0)
        self.other = None
        self.result = self.error = None
        self.done = False
        self.stuck = False

    def tracer(self, frame, event, arg):
        inner = kind_of(frame.f_code.co_filename)
        if inner is None:
            return None
        if self.level == LINES or self.level == COARSE and not inner:
            return self.local
        if self.level == COARSE or depth(frame) <= 3:
            self.point()
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def point(self):
        self.seen += 1
        if self.seen == self.stop:
            sys.settrace(None)
            self.switch()

    def switch(self):
        if self.other is not None and not self.other.done:
            self.other.turn.release()
            if not self.turn.acquire(timeout=20):  # the other waits for something this one holds
                self.stuck = True

    def body(self):
        if not self.turn.acquire(timeout=60):
            return
        if self.stop is not None:
            sys.settrace(self.tracer)
        try:
            self.result = self.run(self.state)
        except Exception as e:
            self.error = "%s: %s" % (type(e).__name__, e)
        finally:
            sys.settrace(None)
            self.done = True
            if self.other is not None:
                self.other.turn.release()


def play(a, b, k, m, level):
    """a up to its point k, b up to its point m (or to its end), a to its end, b to its end."""
    pa, pb = Program(a, level), Program(b, level)
    pa.other, pb.other = pb, pa
    pa.stop, pb.stop = k, m
    threads = [threading.Thread(target=p.body, daemon=True) for p in (pa, pb)]
    for t in threads:
        t.start()
    pa.turn.release()
    for t in threads:
        t.join(50)
    return pa, pb


_alone = {}


def alone(name, level):
    """Result and number of scheduling points of a program that is not interrupted."""
    if (name, level) not in _alone:
        p = Program(name, level)
        p.stop = -1
        p.turn.release()
        t = threading.Thread(target=p.body)
        t.start()
        t.join()
        need(p.error is None, "%s alone raises %s", name, p.error)
        _alone[name, level] = (copy.deepcopy(p.result), p.seen)
    return _alone[name, level]


def compare(a, b, k, m, level, cov):
    pa, pb = play(a, b, k, m, level)
    where = "at its point %d" % k + (" and this at its point %d" % m if m is not None else "")
    if pa.stuck or pb.stuck:
        cov.outcome("impossible")
        return
    for p, name in ((pa, a), (pb, b)):
        want = alone(name, level)[0]
        need(p.done, "%s did not finish when %s was interrupted by %s %s", name, a, b, where)
        need(p.error is None, "%s raises %s when %s is interrupted by %s %s", name, p.error, a, b, where)
        need(p.result == want, "%s gives %s, not %s, when %s is interrupted by %s %s", name, repr(p.result)[:400], repr(want)[:400], a,
             b, where)
    cov.step()
    cov.trace()
    cov.state([a, b, k, m, level])
    cov.outcome("%s interrupted %s" % (a.rstrip("012"), "once" if m is None else "twice"))


def check(case, cov):
    kind, a, b, part, of, level = case
    for k in range(1 + part, alone(a, level)[1] + 1, of):
        for m in [None] if kind == "one" else range(1, alone(b, level)[1] + 1):
            compare(a, b, k, m, level, cov)
