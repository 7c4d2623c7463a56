"""Scaling."""
import copy
import itertools
import math

from mc import gen, model, steps
from mc.lib import Editor, need, run_op

RULE = ("every bone forest shape up to the bound x every assignment of transform modes x setup scales x "
        "names of the root x scale sequences, and every set of other attributes, judged bone by bone (exactly) and, for uniform scales, by the world transforms of "
        "a Spine 3.8 skeleton; scaling steps inside histories of rich documents; non-trivial: a bone "
        "does not inherit scale")
ASSUMPTIONS = ["dyadic scales, so products are exact; world transforms compared with tolerance 1e-9"]

MODES = ("normal", "onlyTranslation", "noRotationOrReflection", "noScale", "noScaleOrReflection")
NOSCALE = ("onlyTranslation", "noScale", "noScaleOrReflection")
SCALES = ((2, 2), (0.5, 0.5), (1, 1), (2, 0.25), (-1, 1), (3.0, 3.0), (0, 2), (0.5, 8), (2.0 ** -12, 1 + 2.0 ** -20),
          (2.0 ** 40, 2.0 ** -30), (-0.5, -0.5))


def bounds(tier):
    return "%d bones, 1-3 successive scalings" % (4 if tier == "quick" else 5)


def cases(tier):
    most = 4 if tier == "quick" else 5
    for n in range(1, most + 1):
        for parents in itertools.product(*[range(0, i) for i in range(1, n)]):
            modes = MODES if n < 4 or tier == "thorough" and n < 5 else ("normal", "noScale",
                                                                         "onlyTranslation")
            for ms in itertools.product(modes, repeat=n - 1):
                for setup in (0, 1):
                    for root in ("root", "other"):
                        yield ["tree", [-1] + list(parents), ["normal"] + list(ms), setup, root]
    # bones not listed root first are not exported by Spine; the root named differently is
    for m in MODES:
        for setup in (0, 1, 2):
            for seq in itertools.product(range(len(SCALES)), repeat=2):
                yield ["seq", m, setup, seq]
    for m in MODES:  # what else bones carry makes no difference
        for own in itertools.product((0, 1), repeat=len(EXTRA)):
            yield ["record", m, own]
    yield from gen.cases(tier, "hist")


EXTRA = ({"length": 12.5}, {"color": "ff00ff00"}, {"rotation": 30}, {"x": 3, "y": -1},
         {"shearX": 10, "shearY": 5}, {"scaleX": 0.5, "scaleY": 4}, {"inheritScale": True, "inheritRotation": True},
         {"name": "c [scale:0.5]"})


def world(doc):
    """World transforms (a, b, c, d, x, y) of a Spine 3.8 skeleton in its setup pose, and the bones below one whose
    scale is so close to 0 that the runtime takes it for 0."""
    out, tiny = {}, []
    cos = lambda r: math.cos(math.radians(r))
    sin = lambda r: math.sin(math.radians(r))
    for b in doc["bones"]:
        g = lambda k, dflt=0: b.get(k, dflt)
        rot, sx, sy = g("rotation"), g("scaleX", 1), g("scaleY", 1)
        shx, shy = g("shearX"), g("shearY")
        mode = g("transform", "normal")
        ry = rot + 90 + shy
        if b.get("parent") is None:
            out[b["name"]] = (cos(rot + shx) * sx, cos(ry) * sy, sin(rot + shx) * sx,
                              sin(ry) * sy, g("x"), g("y"))
            continue
        pa, pb, pc, pd, px, py = out[b["parent"]]
        x = pa * g("x") + pb * g("y") + px
        y = pc * g("x") + pd * g("y") + py
        la, lb = cos(rot + shx) * sx, cos(ry) * sy
        lc, ld = sin(rot + shx) * sx, sin(ry) * sy
        if mode == "normal":
            w = (pa * la + pb * lc, pa * lb + pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        elif mode == "onlyTranslation":
            w = (la, lb, lc, ld)
        elif mode == "noRotationOrReflection":
            s = pa * pa + pc * pc
            if s > 0.0001:
                s = abs(pa * pd - pb * pc) / s
                pb, pd = pc * s, pa * s
                prx = math.degrees(math.atan2(pc, pa))
            else:
                tiny.append(b["name"])
                pa = pc = 0
                prx = 90 - math.degrees(math.atan2(pd, pb))
            rx, ry2 = rot + shx - prx, rot + shy - prx + 90
            la, lb, lc, ld = cos(rx) * sx, cos(ry2) * sy, sin(rx) * sx, sin(ry2) * sy
            w = (pa * la - pb * lc, pa * lb - pb * ld, pc * la + pd * lc, pc * lb + pd * ld)
        else:
            c, s = cos(rot), sin(rot)
            za, zc = pa * c + pb * s, pc * c + pd * s
            k = math.sqrt(za * za + zc * zc)
            if k <= 0.00001:
                tiny.append(b["name"])
            k = 1 / k if k > 0.00001 else k
            za, zc = za * k, zc * k
            k = math.sqrt(za * za + zc * zc)
            if mode == "noScale" and (pa * pd - pb * pc < 0):
                k = -k
            r = math.pi / 2 + math.atan2(zc, za)
            zb, zd = math.cos(r) * k, math.sin(r) * k
            la, lb = cos(shx) * sx, cos(90 + shy) * sy
            lc, ld = sin(shx) * sx, sin(90 + shy) * sy
            w = (za * la + zb * lc, za * lb + zb * ld, zc * la + zd * lc, zc * lb + zd * ld)
        out[b["name"]] = w + (x, y)
    return out, tiny


def scaled(doc, sx, sy):
    """The document scaling has to give."""
    out = copy.deepcopy(doc)
    for b in out["bones"]:
        if b.get("parent") is None or b.get("transform") in NOSCALE:
            b["scaleX"] = b.get("scaleX", 1) * sx
            b["scaleY"] = b.get("scaleY", 1) * sy
    return out


def compare(before, after, sx, sy, cov):
    want, got = model.canon(scaled(before, sx, sy)), steps.canon(after)
    need(want == got, "scaling by (%s, %s): %s", sx, sy, model.diff(want, got))
    if sx == sy and sx > 0:
        roots = [b["name"] for b in before["bones"] if b.get("parent") is None]
        if len(roots) == 1:
            olds, tiny = world(before)
            news, tiny2 = world(after)
            if tiny != tiny2:
                cov.outcome("scale so small that the runtime takes it for 0: only bone values compared")
                olds = {}
            o = olds.get(roots[0])
            for name, w in olds.items():
                v = news[name]
                want_w = [sx * k for k in w[:4]] + [o[4] + sx * (w[4] - o[4]),
                                                   o[5] + sx * (w[5] - o[5])]
                need(all(abs(p - q) < 1e-9 * max(1, abs(p)) for p, q in zip(want_w, v)),
                     "uniform scaling by %s: bone %s has world transform %s instead of %s", sx, name,
                     v, want_w)
    cov.step()
    cov.state(got)


def check(case, cov):
    if case[0] == "hist":
        for s in steps.run(case, cov):
            if s.op[0] == "scale":
                compare(s.before, s.after, s.op[1], s.op[2], cov)
                cov.outcome("scaled inside a history")
        return
    if case[0] == "tree":
        _, parents, modes, setup, root = case
        bones = []
        for i, (p, m) in enumerate(zip(parents, modes)):
            b = {"name": root if i == 0 else ("root" if root != "root" and i == 1 else "b%d" % i)}
            if p >= 0:
                b["parent"] = bones[p]["name"]
            if m != "normal":
                b["transform"] = m
            if setup:
                b.update(scaleX=(0.5, 2, -1)[i % 3], scaleY=(2, 0.25, 1)[i % 3], x=i + 1, y=-2,
                         rotation=30 * i, shearX=5 * (i % 2))
            bones.append(b)
        seqs = [[(2, 2)], [(0.5, 0.5)], [(2, 0.25)], [(1, 1)], [(4, 4), (0.5, 0.5)],
                [(2, 8), (0.5, 0.125)], [(2.0 ** -7, 2.0 ** -7)] * 3 + [(2.0 ** 21, 2.0 ** 20)]]
    elif case[0] == "record":
        _, m, own = case
        more = {}
        for on, extra in zip(own, EXTRA):
            more.update(extra if on else {})
        bones = [dict({"name": "root"}, **{k: v for k, v in more.items() if k not in ("name", "transform")}),
                 dict({"name": "c", "parent": "root", "transform": m}, **more), {"name": "g", "parent": more.get("name", "c")},
                 dict(more, name="h", parent="g", transform=m)]
        seqs = [[(2, 2)], [(0.5, 4), (2, 2)]]
    else:
        _, m, setup, seq = case
        bones = [{"name": "root", "x": 5}, {"name": "c", "parent": "root", "transform": m, "x": 3},
                 {"name": "g", "parent": "c"}]
        if setup:
            for b in bones:
                b["scaleX"], b["scaleY"] = (3, 0.5) if setup == 1 else (0, -2)
        seqs = [[SCALES[i] for i in seq]]
    doc = gen.document([gen.slot("s", "a")],
                       [{"name": "default", "attachments": {"s": {"a": gen.region()}}}],
                       {"A": {"bones": {bones[-1]["name"]: {"scale": [{"x": 2}],
                                                            "translate": [{"x": 3}]}}}},
                       bones=bones)
    cov.state(model.canon(doc))
    for seq in seqs:
        ed = Editor(copy.deepcopy(doc))
        before = doc
        for sx, sy in seq:
            need(ed.scale_animation(sx, sy) is None or True, "")
            after = ed.to_json_data()
            compare(before, after, sx, sy, cov)
            before = after
        total = [1, 1]
        for sx, sy in seq:
            total = [total[0] * sx, total[1] * sy]
        want = model.canon(scaled(doc, *total))
        need(want == steps.canon(ed.to_json_data()), "scalings %s do not compose", seq)
        cov.outcome("%d scalings of %d bones" % (len(seq), len(bones)))
        cov.trace()
