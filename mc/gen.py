"""Bounded universes of documents and edit histories that the checks enumerate exhaustively.

A case is a JSON list [universe, parameters...]; build(case) turns it into (document, operations).
Generators only yield parameters, so enumerating the whole space costs nothing in the workers that
do not own a case."""
import itertools

from mc import model

ALPHA0 = "ffffff00"


# ---------------------------------------------------------------------------------------------
# Building blocks
# ---------------------------------------------------------------------------------------------
def document(slots, skins, animations=None, bones=None, version="3.8.99", skeleton=None, **more):
    doc = {
        "skeleton": dict({"hash": "h", "spine": version, "width": 10, "height": 20,
                          "images": "./images/"}, **(skeleton or {})),
        "bones": bones if bones is not None else [{"name": "root"}],
        "slots": slots,
        "skins": skins,
        "animations": animations if animations is not None else {},
    }
    doc.update(more)
    return doc


def slot(name, attachment=None, color=None, bone="root", **more):
    out = {"name": name, "bone": bone}
    if attachment is not None:
        out["attachment"] = attachment
    if color is not None:
        out["color"] = color
    out.update({k: v for k, v in more.items() if v is not None})
    return out


def region(n=0, **more):
    return dict({"x": 1 + n, "y": 2, "rotation": 3, "width": 32, "height": 16 + n}, **more)


def mesh(n=0, **more):
    return dict({"type": "mesh", "uvs": [0, 0, 1, 0, 1, 1], "triangles": [0, 1, 2],
                 "vertices": [n, 0, 5, 0, 5, 5 + n], "hull": 3, "edges": [0, 2, 2, 4, 0, 4],
                 "width": 64, "height": 32 + n}, **more)


def linked(parent, skin=None, **more):
    out = {"type": "linkedmesh", "parent": parent, "width": 8, "height": 9}
    if skin is not None:
        out["skin"] = skin
    out.update(more)
    return out


def of_kind(kind, n=0, end=None):
    if kind == "region":
        return region(n)
    if kind == "region!":
        return region(n, type="region")
    if kind == "mesh":
        return mesh(n)
    if kind == "path":
        return {"type": "path", "lengths": [1 + n, 2], "vertexCount": 3,
                "vertices": [0, 0, 1, 1, 2, 2 + n], "color": "ff0000ff"}
    if kind == "point":
        return {"type": "point", "x": 3 + n, "y": 4, "rotation": 5}
    if kind == "clipping":
        out = {"type": "clipping", "vertexCount": 3, "vertices": [0, 0, 9, 0, 9, 9 + n]}
        if end is not None:
            out["end"] = end
        return out
    if kind == "boundingbox":
        return {"type": "boundingbox", "vertexCount": 3, "vertices": [0, 0, 7, 0, 7, 7 + n]}
    raise ValueError(kind)


def at(*frames):
    """attachment timeline: pairs (time, name); time None leaves the time out."""
    out = []
    for time, name in frames:
        f = {"name": name}
        if time is not None:
            f["time"] = time
        out.append(f)
    return {"attachment": out}


def col(*frames):
    return {"color": [{"time": t, "color": c} for t, c in frames]}


# Slot timelines that exercise every visibility rule
TIMELINES = {
    "-": None,
    "empty": {},
    "null0": at((0, None)),
    "null": at((None, None)),
    "null1": at((1, None)),
    "a0": at((0, "a")),
    "b0": at((0, "b")),
    "null0,a1": at((0, None), (1, "a")),
    "a0,null1": at((0, "a"), (1, None)),
    "null0,null1": at((0, None), (1, None)),
    "a.5,b1": at((0.5, "a"), (1, "b")),
    "c00": col((0, ALPHA0)),
    "cff": col((0, "ffffffff")),
    "c00,ff1": col((0, ALPHA0), (1, "ffffffff")),
    "null0+cff": dict(at((0, None)), **col((0, "ffffffff"))),
    "b1+c00": dict(at((1, "b")), **col((0, ALPHA0))),
    "2c": {"twoColor": [{"time": 0, "light": "ffffffff", "dark": "000000"}]},
    "null0+2c": dict(at((0, None)),
                     twoColor=[{"time": 0, "light": "ffffff80", "dark": "000000"}]),
    "lists": {"attachment": [], "color": []},
}
TL = list(TIMELINES)


def anim(**slots):
    """Animation with the given slot timelines (names from TIMELINES) and a bone timeline."""
    out = {}
    tls = {s: TIMELINES[t] for s, t in slots.items() if TIMELINES[t] is not None}
    if tls:
        out["slots"] = tls
    return out


def bone_anim():
    return {"bones": {"root": {"rotate": [{"angle": 5}]}}}


CLEAN = ["clean"]


def erase(*names, safe=False, strict=True):
    return ["anim", list(names), safe, strict]


def drop(*names, safe=False):
    return ["skin", list(names), safe]


def thin(items, quick_stride, tier):
    """Deterministic subset of a product for the quick tier; everything for thorough."""
    if tier == "thorough" or quick_stride == 1:
        return items
    return itertools.islice(items, 0, None, quick_stride)


# ---------------------------------------------------------------------------------------------
# vis: visibility rules of one slot
# ---------------------------------------------------------------------------------------------
VIS_LAYOUTS = ["", "da", "ka", "da db", "da kb", "ka kb", "da ka", "da db ka kb", "db", "kb ka da"]


def vis_cases(tier):
    tls = [t for t in TL if t != "lists"] if tier == "quick" else TL
    pairs = list(itertools.combinations_with_replacement(tls, 2))
    for setup in (None, "a", "b"):
        for color in (None, "ffffffff", ALPHA0, "00000001"):
            for extra in ("", "blend", "dark"):
                for layout in VIS_LAYOUTS:
                    if tier == "quick" and extra and layout not in ("da", "da kb", "ka kb"):
                        continue
                    if tier == "quick" and color == "ffffffff" and layout not in ("da db", "ka"):
                        continue
                    for pair in pairs:
                        yield ["vis", setup, color, extra, layout, pair, "clean"]
                    for t in tls:
                        for op in (["noanim", "last"] if tier == "quick"
                                   else ["noanim", "last", "skin", "default"]):
                            yield ["vis", setup, color, extra, layout, [t, t], op]


def vis_build(setup, color, extra, layout, pair, op):
    atts = {"default": {}, "k": {}}
    for i, item in enumerate(layout.split()):
        atts["default" if item[0] == "d" else "k"][item[1]] = region(i)
    skins = [{"name": n, "attachments": dict({"o": {"o": region(9)}} if n == "default" else {},
                                             **({"s": a} if a else {}))}
             for n, a in atts.items()]
    doc = document(
        [slot("s", setup, color, blend="additive" if extra == "blend" else None,
              dark="112233" if extra == "dark" else None), slot("o", "o")],
        skins, {"A": anim(s=pair[0]), "B": anim(s=pair[1]), "Z": anim(s="a0")})
    ops = {"clean": [erase("Z")], "noanim": [erase("A", "B", "Z")],
           "last": [erase("Z", "A", safe=True), CLEAN], "skin": [drop("k")],
           "default": [drop("default")]}[op]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# pair: two slots that share attachment names, and attachments kept or removed by name
# ---------------------------------------------------------------------------------------------
def pair_cases(tier):
    kinds = ("", "region", "mesh")
    tls = ("-", "null0", "a0", "b0")
    space = itertools.product((None, "a", "b"), (None, "a", "b"), (None, ALPHA0), (None, ALPHA0),
                              itertools.product(kinds, repeat=4), tls, tls, ("d", "k"),
                              ("clean", "A"))
    for i, c in enumerate(thin(space, 13, tier)):
        yield ["pair"] + list(c)


def pair_build(s_att, t_att, s_col, t_col, kinds, s_tl, t_tl, where, op):
    s_atts = {k: of_kind(kind, i) for i, (k, kind) in enumerate(zip("ab", kinds[:2])) if kind}
    t_atts = {k: of_kind(kind, i + 5) for i, (k, kind) in enumerate(zip("ab", kinds[2:])) if kind}
    default = {"s": s_atts} if s_atts else {}
    k = {}
    if t_atts:
        (default if where == "d" else k)["t"] = t_atts
    # the erased animation Z makes both slots show everything
    doc = document([slot("s", s_att, s_col), slot("t", t_att, t_col)],
                   [{"name": "default", "attachments": default}, {"name": "k", "attachments": k}],
                   {"A": anim(s=s_tl, t=t_tl), "B": anim(s=s_tl),
                    "Z": anim(s="a.5,b1", t="a.5,b1")})
    for a in ("A", "B"):
        d = {}
        for sl, atts, sk in (("s", s_atts, "default"),
                             ("t", t_atts, "default" if where == "d" else "k")):
            for key, att in atts.items():
                if att.get("type") == "mesh":
                    d.setdefault(sk, {}).setdefault(sl, {})[key] = [
                        {"time": 0, "offset": 1, "vertices": [1, 2]}, {"time": 1}]
        if d:
            doc["animations"][a]["deform"] = d
    return doc, [erase("Z")] if op == "clean" else [erase("Z", "A")]


# ---------------------------------------------------------------------------------------------
# kinds: attachment kinds, constraint targets, clipping ends
# ---------------------------------------------------------------------------------------------
KINDS = ("region", "region!", "mesh", "linked", "path", "point", "clipping", "boundingbox")


# second clipping of a slot, clippings of two ends, in a later skin, path constraints without bones or sharing a target, bones and
# constraints named like the slot
REFS = ("clip second", "clip both", "clip j", "path no bones", "ik no bones", "path twice", "ik named", "transform named")


def kinds_cases(tier):
    tls = ("-", "null0", "a0", "null0,a1", "cff", "null0+cff", "c00,ff1")
    space = itertools.product(KINDS, (None, ALPHA0), (None, "a"), tls,
                              ("", "clip", "clipk", "path", "ghost"), ("d", "k", "dk"),
                              ("clean", "skin", "skins"))
    for c in space:
        yield ["kinds"] + list(c)
    for c in itertools.product(("region", "mesh", "clipping"), (None, ALPHA0), (None, "a"), ("-", "null0", "a0"), REFS, ("d", "k", "dk"),
                               ("clean", "skin", "skins")):
        yield ["kinds"] + list(c)


def kinds_build(kind, color, setup, tl, ref, where, op):
    att = linked("m", "default") if kind == "linked" else of_kind(kind, 1, end="o")
    default, k = {"o": {"o": region(3)}}, {}
    if "d" in where:
        default["s"] = {"a": att}
    if "k" in where:
        k["s"] = {"a": dict(att)}
    if kind == "linked":
        default.setdefault("s", {})["m"] = mesh(4)
    slots = [slot("c", "cut" if ref.startswith("clip") else None), slot("s", setup, color),
             slot("o", "o"), slot("e")]
    more = {}
    if ref == "clip":
        default["c"] = {"cut": of_kind("clipping", 2, end="s")}
    elif ref == "clipk":
        k["c"] = {"cut": of_kind("clipping", 2, end="s")}
    elif ref == "path":
        more["path"] = [{"name": "pc", "bones": ["root"], "target": "s"}]
    elif ref == "ghost":  # referenced slot without any attachment
        more["path"] = [{"name": "pc", "bones": ["root"], "target": "e"}]
        slots[3]["color"] = ALPHA0
    elif ref == "clip second":
        slots[0]["attachment"] = "cut"
        default["c"] = {"first": region(5), "cut": of_kind("clipping", 2, end="s")}
    elif ref == "clip both":
        default["c"] = {"cut": of_kind("clipping", 2, end="o"), "cut2": of_kind("clipping", 3, end="s")}
    elif ref == "path no bones":
        more["path"] = [{"name": "pc", "bones": [], "target": "s"}]
    elif ref == "ik no bones":
        more["ik"] = [{"name": "i", "bones": [], "target": "root"}, {"name": "i2", "target": "root"}]
    elif ref == "path twice":
        more["path"] = [{"name": "p" + n, "bones": ["root"], "target": t} for n, t in (("1", "o"), ("c", "s"), ("3", "s"))]
    elif ref.endswith("named"):
        more["bones"] = [{"name": "root"}, {"name": "s", "parent": "root"}, {"name": "e", "parent": "root"}]
        section = ref.split()[0]
        more[section] = [{"name": "s", "bones": ["e"], "target": "s"}, {"name": "e", "bones": ["s"], "target": "root"}]
    js = {"c": {"first": region(5), "cut": of_kind("clipping", 2, end="s")}} if ref == "clip j" else {}
    anims = {"A": dict(anim(s=tl), drawOrder=[
                 {"time": 0, "offsets": [{"slot": "c", "offset": 2}, {"slot": "o", "offset": -1}]},
                 {"time": 1}]),
             "Z": anim(s="a0", e="a0")}
    if kind in ("mesh", "linked", "path", "clipping", "boundingbox"):
        deform = {}
        if "d" in where and kind != "linked":
            deform["default"] = {"s": {"a": [{"vertices": [1, 1]}]}}
        if kind == "linked":
            deform["default"] = {"s": {"m": [{"vertices": [1, 3]}]}}
        if "k" in where and kind != "linked":
            deform["k"] = {"s": {"a": [{"vertices": [2, 1]}]}}
        anims["A"]["deform"] = deform
        anims["Z"]["deform"] = {s: dict(v) for s, v in deform.items()}
    if "path" in more:
        anims["A"]["path"] = {"pc": {"position": [{"time": 0, "position": 2}]}}
    doc = document(slots, [{"name": "default", "attachments": default},
                           {"name": "k", "attachments": k}, {"name": "j", "attachments": js}],
                   anims, **more)
    ops = {"clean": [erase("Z")], "skin": [erase("Z", safe=True), drop("k"), CLEAN],
           "skins": [drop("j", safe=True), drop("k", safe=True), erase("A", "Z")]}[op]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# links: linked meshes
# ---------------------------------------------------------------------------------------------
SKINS3 = ("default", "k1", "k2")
ERASED = [list(p) for n in (1, 2, 3) for p in itertools.permutations(SKINS3, n)]


def links_cases(tier):
    erased = [e for e in ERASED if len(e) < 3 or e == list(SKINS3)]
    space = itertools.product(
        SKINS3, SKINS3, ("m", "l"), ("explicit", "absent", "no parent"), (None, True, False), (0, 1),
        ("plain", "path", "name", "color"), (0, 1, 2), range(len(erased)), (True, False), (0, 1))
    for i, c in enumerate(space):
        src, own, key, skin_attr, deform, keyed, attrs, second, e, safe, split = c
        if src == own and key == "m":
            continue  # that is the mesh itself
        if skin_attr == "absent" and src != "default" or skin_attr == "no parent" and (key != "m" or attrs != "plain"):
            continue
        if split and len(erased[e]) == 1:
            continue
        if tier == "quick" and i % 3:
            continue
        if tier == "quick" and second == 2 and i % 2:
            continue
        yield ["links"] + list(c[:8]) + [erased[e], safe, split]


def links_build(src, own, key, skin_attr, deform, keyed, attrs, second, erased, safe, split):
    skins = {n: {"s": {}, "x": {}} for n in SKINS3}
    for i, n in enumerate(SKINS3):
        # decoys: the same keys elsewhere, with other geometry
        skins[n]["x"] = {"m": mesh(40 + i), "l": mesh(50 + i)}
        skins[n]["s"]["other"] = mesh(60 + i)
        if n not in (src, own):
            skins[n]["s"]["m"] = mesh(70 + i)
    skins[src]["s"]["m"] = mesh(1, path="src/img", color="112233ff")
    more = {"plain": {}, "path": {"path": "own/img"}, "name": {"name": "own", "width": 77},
            "color": {"color": "44556677", "name": "own2"}}[attrs]
    if deform is not None:
        more["deform"] = deform
    link = linked("m", None if skin_attr == "absent" else src, **more)
    if skin_attr == "no parent":  # then the mesh has the link's own key
        del link["parent"]
    skins[own]["s"][key] = link
    if second == 2:  # two more beside it, and deform keys of their skin there already
        skins[own]["s"]["l2"] = linked("m", src, path="l2img")
        skins[own]["s"]["l3"] = linked("m", src, deform=False)
        skins[own]["s"]["plain"] = mesh(80)
    elif second:
        third = [n for n in SKINS3 if n not in (src, own)]
        if third:
            skins[third[0]]["s"]["l2"] = linked("m", src, path="l2img")
        else:
            skins[own]["s"]["l2"] = linked("m", src, path="l2img")
    d = {}
    if keyed:
        d = {src: {"s": {"m": [{"time": 0, "vertices": [1, 2], "offset": 2}, {"time": 1}]}}}
        for i, n in enumerate(SKINS3):
            d.setdefault(n, {})["x"] = {"m": [{"vertices": [9, i]}]}
        if second == 2:
            d[own].setdefault("s", {})["plain"] = [{"vertices": [8]}, {"time": 2}]
    a = {"slots": {"s": at((0, "m"), (1, key), (2, "l2"))}}
    b = {"slots": {"s": at((0, key))}}
    if d:
        a["deform"] = d
    doc = document([slot("s", key), slot("x", "m")],
                   [{"name": n, "attachments": skins[n]} for n in SKINS3], {"A": a, "B": b})
    ops = [drop(n, safe=safe) for n in erased] if split else [drop(*erased, safe=safe)]
    return doc, ops + ([CLEAN] if safe else [])


# ---------------------------------------------------------------------------------------------
# images: which images are in use
# ---------------------------------------------------------------------------------------------
IMAGE_OPTIONS = {
    "-": None,
    "key": region(),
    "name=i": region(name="i"),
    "path=i": region(path="i"),
    "name=i,path=j": region(name="i", path="j"),
    "mesh": mesh(),
    "mesh name=i": mesh(name="i"),
    "mesh path=d/j": mesh(path="d/j"),
    "mesh name=j,path=i": mesh(name="j", path="i"),
    "linked path=i": linked("m", "default", path="i"),
    "linked": linked("m", "default"),
    "path name=i": dict(of_kind("path"), name="i"),
    "point": of_kind("point"),
}


def images_cases(tier):
    opts = list(IMAGE_OPTIONS)
    few = ["-", "key", "name=i", "path=i", "mesh name=j,path=i", "linked", "path name=i"]
    shown = ("both", "s", "none")
    ops = ("clean", "k", "k safe", "default safe", "k,default", "A")
    if tier == "quick":
        space = itertools.product(opts, few, few, ("key", "mesh path=d/j"), shown[:2], ops)
        space = thin(space, 2, tier)
    else:
        space = itertools.product(opts, opts, opts, few, shown, ops)
    for c in space:
        yield ["images"] + list(c)


def images_build(d_s, k_s, d_t, k_t, shown, op):
    default, k = {"s": {}, "t": {}}, {"s": {}, "t": {}}
    for skin, where, opt, key in ((default, "s", d_s, "a"), (k, "s", k_s, "a"),
                                  (default, "t", d_t, "b"), (k, "t", k_t, "a")):
        att = IMAGE_OPTIONS[opt]
        if att is not None:
            skin[where][key] = dict(att)
            if opt.startswith("linked"):
                default[where]["m"] = mesh(3, path="mm")
    doc = document([slot("s", "a"), slot("t", "b" if d_t != "-" else "a",
                                         None if shown == "both" else ALPHA0)],
                   [{"name": "default", "attachments": default},
                    {"name": "k", "attachments": k}],
                   {"A": anim(s="null0" if shown == "none" else "-"),
                    "Z": anim(t="c00,ff1", s="a0")})
    ops = {"clean": [erase("Z")], "k": [drop("k")], "k safe": [drop("k", safe=True), CLEAN],
           "default safe": [drop("default", safe=True), erase("Z")],
           "k,default": [drop("k", "default")],
           "A": [erase("A", safe=True), drop("k", safe=True)]}[op]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# names: names that look like graph ids
# ---------------------------------------------------------------------------------------------
SLOT_POOL = ("a", "a_SLOT", "a_SLOT_b", "_SLOT", "b_ATTACHMENT", "SLOT", "1")
ATT_POOL = ("a", "a_ATTACHMENT", "x_ATTACHMENT_y", "_ATTACHMENT", "a_IMAGE", "d/e", "ATTACHMENT")


def names_cases(tier):
    for s, t in itertools.permutations(SLOT_POOL, 2):
        for a, b in itertools.permutations(ATT_POOL, 2):
            for hide in ("s", "t", "leaf", "b"):
                for op in ("clean", "skin"):
                    yield ["names", s, t, a, b, hide, op]


def names_build(s, t, a, b, hide, op):
    default = {s: {a: region(1), b: region(2)}, t: {b: region(3)}}
    k = {t: {a: mesh(1)}}
    if hide == "leaf":
        default.pop(t)
        k = {}
    doc = document(
        [slot(s, a, ALPHA0 if hide == "s" else None, bone="a_BONE"),
         slot(t, b, ALPHA0 if hide == "t" else None, bone="a")],
        [{"name": "default", "attachments": default}, {"name": "k_ATTACHMENT", "attachments": k}],
        {"A": {"drawOrder": [{"time": 0, "offsets": [{"slot": s, "offset": 1}]}]},
         "Z": {"slots": {s: at((0, b)), t: at((0, a))}}},
        bones=[{"name": "root"}, {"name": "a_BONE", "parent": "root"},
               {"name": "a", "parent": "a_BONE"}],
        ik=[{"name": "a_BONE", "bones": ["a"], "target": "a_BONE"}])
    return doc, [erase("Z")] if op == "clean" else [drop("k_ATTACHMENT"), erase("Z")]


# ---------------------------------------------------------------------------------------------
# draw: all draw-order keyframes of n slots, all removed subsets
# ---------------------------------------------------------------------------------------------
def encodings(names, perm):
    """All offset lists a runtime reads as the order perm (a tuple of indices)."""
    n = len(names)
    place = {s: k for k, s in enumerate(perm)}
    want = [names[i] for i in perm]
    for listed in itertools.product((0, 1), repeat=n):
        offs = [{"slot": names[i], "offset": place[i] - i} for i in range(n) if listed[i]]
        if model.runtime_order(names, offs) == want:
            yield offs


def draw_cases(tier):
    for n in range(1, (6 if tier == "quick" else 7)):
        perms = list(itertools.permutations(range(n)))
        size = 24 if n < 6 else 40
        for removed in itertools.product((0, 1), repeat=n):
            if not any(removed):
                continue
            for start in range(0, len(perms), size):
                yield ["draw", n, removed, start, size, "alpha"]
    for n in (2, 3, 4):
        for removed in itertools.product((0, 1), repeat=n):
            for how in ("null", "leaf", "skin", "twice"):
                yield ["draw", n, removed, 0, 24, how]
    # more than ten slots: every move of one and two slots
    for n in (12,) if tier == "quick" else (11, 12, 13):
        for gone in ([0], [6], [n - 1], [2, 9], [1, 5, 10]):
            for i in range(n):
                for j in range(i, n):
                    yield ["draw", n, [int(x in gone) for x in range(n)], i, j, "moves"]


def draw_build(n, removed, start, size, how):
    names = ["s%d" % i for i in range(n)]
    default = {s: {"a": region(i)} for i, s in enumerate(names)}
    k = {}
    slots, tls = [], {}
    for i, s in enumerate(names):
        hit = removed[i]
        slots.append(slot(s, "a", ALPHA0 if hit and how in ("alpha", "twice", "moves") and
                          not (how == "twice" and i % 2) else None))
        if hit and how == "null":
            tls[s] = at((0, None))
        if hit and how == "leaf":
            default.pop(s)
        if hit and how == "skin":
            k[s] = default.pop(s)
        if hit and how == "twice" and i % 2:
            tls[s] = at((0, None))
    frames = []
    if how == "moves":
        i, j = start, size
        for a, b in itertools.product(range(n), repeat=2):
            if i != j and a != b:
                frames.append({"time": len(frames), "offsets": [{"slot": names[i], "offset": a - i}, {"slot": names[j], "offset": b - j}]})
            elif i == j and a == b:
                frames.append({"time": len(frames), "offsets": [{"slot": names[i], "offset": a - i}]})
    for perm in [] if how == "moves" else list(itertools.permutations(range(n)))[start:start + size]:
        for offs in encodings(names, perm):
            frames.append({"time": len(frames), "offsets": offs})
    frames.append({"time": len(frames)})
    anims = {"A": {"drawOrder": frames, "slots": tls},
             "Y": {"drawOrder": [dict(f, time=1) for f in frames[2:6]]},  # several keys at one time
             "Z": {"slots": {s: at((0, "a")) for s in names}}}
    doc = document(slots, [{"name": "default", "attachments": default},
                           {"name": "k", "attachments": k}], anims)
    if how in ("alpha", "moves"):
        ops = [erase("Z")]
    elif how == "null":
        ops = [erase("Z", "Y")]
    elif how == "twice":
        ops = [erase("Z"), erase("Y")]
    else:
        ops = [drop("k")]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# rich documents with every section, and histories over them
# ---------------------------------------------------------------------------------------------
def rich(n):
    bones = [{"name": "root"},
             {"name": "hip", "parent": "root", "x": 1, "y": 2, "length": 10, "rotation": 30},
             {"name": "arm [scale:0.5]", "parent": "hip", "scaleX": 2, "transform": "noScale"},
             {"name": "hand", "parent": "arm [scale:0.5]", "transform": "onlyTranslation",
              "color": "abc123ff"},
             {"name": "free", "parent": "hip", "transform": "noRotationOrReflection",
              "shearX": 5}]
    slots = [slot("body", "body", bone="hip"),
             slot("arm", "arm", bone="arm [scale:0.5]"),
             slot("fx", None, ALPHA0, bone="free"),
             slot("glow", "glow", ALPHA0, bone="hip", blend="additive"),
             slot("weapon", None, bone="hand"),
             slot("clip", "cut"), slot("rail", "rail"), slot("box", "bb", bone="hip"),
             slot("ghost")]
    default = {
        "body": {"body": region(1, path="p/body"), "body2": region(2), "shared": region(3)},
        "arm": {"arm": mesh(1, path="p/arm"), "spare": mesh(2)},
        "fx": {"fx": region(4), "shared": region(5, name="fximg")},
        "glow": {"glow": region(6, color="ffffff80")},
        "clip": {"cut": of_kind("clipping", 1, end="glow")},
        "rail": {"rail": of_kind("path", 1)},
        "box": {"bb": of_kind("boundingbox", 1), "pt": of_kind("point", 1)},
    }
    red = {"body": {"body": region(7, path="r/body")},
           "arm": {"arm": linked("arm", "default", path="r/arm"),
                   "extra": mesh(8, name="extraimg")},
           "weapon": {"sword": region(9), "bow": mesh(9)}}
    blue = {"body": {"body": region(7, path="p/body")},
            "arm": {"arm": linked("arm", "default", path="b/arm", deform=False),
                    "extra": linked("extra", "red")},
            "weapon": {"sword": linked("bow", "red", path="p/sword"), "bow": region(1, name="bow!")}}
    walk = {
        "bones": {"hip": {"rotate": [{"angle": 4}, {"time": 1, "angle": 9, "curve": 0.25,
                                                     "c2": 0.1, "c3": 0.75}],
                          "translate": [{"x": 3}, {"time": 1, "curve": "stepped"}]},
                  "hand": {"scale": [{"x": 2}], "shear": [{"y": 2}]}},
        "slots": {"fx": {"attachment": [{"name": "fx"}, {"time": 1, "name": None}],
                         "color": [{"color": ALPHA0}, {"time": 0.5, "color": "ffffffff"}]},
                  "weapon": at((0, "sword"))},
        "ik": {"reach": [{"mix": 0.5}, {"time": 1, "bendPositive": False}]},
        "transform": {"tc": [{"rotateMix": 0}, {"time": 1, "shearMix": 0.5}]},
        "path": {"pc": {"position": [{"time": 0, "position": 3}],
                        "spacing": [{"time": 0, "spacing": 2}],
                        "mix": [{"time": 0, "rotateMix": 0.5}]}},
        "deform": {"default": {"arm": {"arm": [{"offset": 2, "vertices": [1, 2]}, {"time": 1}]}},
                   "red": {"weapon": {"bow": [{"vertices": [3]}]}}},
        "drawOrder": [{"offsets": [{"slot": "body", "offset": 3}, {"slot": "weapon", "offset": -4}]},
                      {"time": 1},
                      {"time": 2, "offsets": [{"slot": "arm", "offset": 1},
                                              {"slot": "ghost", "offset": -8}]}],
        "events": [{"name": "step", "int": 0, "string": ""}, {"time": 1, "name": "hit"}],
    }
    idle = {"slots": {"body": at((0, "body2"), (1, "body")), "glow": at((0, None)),
                      "arm": {"twoColor": [{"light": "ffffffff", "dark": "000000"}]}},
            "drawOrder": [{"time": 0.5, "offsets": [{"slot": "fx", "offset": -2}]}],
            "events": [{"time": 0.5, "name": "hit", "float": 2}]}
    hide = {"slots": {"body": at((0, None)), "weapon": at((0, "bow")), "fx": at((0, "shared")),
                      "glow": col((0, ALPHA0), (1, "ffffffff"))},
            "deform": {"red": {"weapon": {"bow": [{"time": 1, "vertices": [1]}]},
                               "arm": {"extra": [{"vertices": [5]}]}}}}
    more = dict(
        ik=[{"name": "reach", "order": 1, "bones": ["hip"], "target": "hand", "softness": 2},
            {"name": "reach2", "bones": ["free"], "target": "root", "stretch": True}],
        transform=[{"name": "tc", "order": 2, "bones": ["free"], "target": "hip", "x": 3,
                    "rotateMix": 0.5, "local": True}],
        path=[{"name": "pc", "order": 3, "bones": ["hand"], "target": "rail", "spacing": 1}],
        events={"step": {"int": 3}, "hit": {}})
    anims = {"walk": walk, "idle": idle, "hide": hide}
    if n == 1:  # default skin last, another version, no images folder, no constraints
        skins = [{"name": "red", "attachments": red}, {"name": "blue", "attachments": blue},
                 {"name": "default", "attachments": default}]
        more["ik"] = more["ik"][1:]
        del walk["ik"]
        return document(slots, skins, anims, bones=bones, version="3.8", skeleton={"audio": "./a", "custom": {"x": [1, {"y": "z"}]}},
                        **more)
    skins = [{"name": "default", "attachments": default}, {"name": "red", "attachments": red},
             {"name": "blue", "attachments": blue}]
    return document(slots, skins, anims, bones=bones, skeleton={"custom": [{"deep": [1, 2]}, {"x": {}}]}, **more)


def tiny(n):
    """Smaller documents for deep histories."""
    if n == 0:
        return document(
            [slot("s", "a"), slot("t", None), slot("u", "m", ALPHA0)],
            [{"name": "default", "attachments": {"s": {"a": region(1), "b": region(2)},
                                                 "u": {"m": mesh(1)}}},
             {"name": "k", "attachments": {"t": {"b": region(3, path="a")},
                                           "u": {"m": linked("m", "default", path="km")}}}],
            {"A": {"slots": {"t": at((0, "b")), "s": at((0, None))},
                   "drawOrder": [{"offsets": [{"slot": "s", "offset": 2}]}]},
             "B": {"slots": {"s": at((1, "b")), "u": TIMELINES["c00,ff1"]},
                   "deform": {"default": {"u": {"m": [{"vertices": [1]}]}}},
                   "drawOrder": [{"offsets": [{"slot": "u", "offset": -1}]}, {"time": 1}]}},
            bones=[{"name": "root"}, {"name": "b", "parent": "root", "transform": "noScale",
                                      "scaleX": 3}], skeleton={"custom": {"deep": [1]}})
    return document(
        [slot("s", "a"), slot("t", "c")],
        [{"name": "k", "attachments": {"s": {"a": mesh(1)}}},
         {"name": "default", "attachments": {"s": {"a": region(1), "d": linked("a", "k")},
                                             "t": {"c": of_kind("clipping", end="s")}}}],
        {"A": {"slots": {"s": at((0, "d"))}, "bones": {"root": {"scale": [{"x": 2}]}},
               "deform": {"k": {"s": {"a": [{"vertices": [4]}]}}}},
         "B": {"slots": {"s": at((0, None)), "t": at((0, None))}}},
        bones=[{"name": "top", "scaleX": 0.5}, {"name": "x", "parent": "top",
                                                 "transform": "onlyTranslation"}] +
              [{"name": "root", "parent": "x"}])


DOCS = {"rich0": lambda: rich(0), "rich1": lambda: rich(1), "tiny0": lambda: tiny(0),
        "tiny1": lambda: tiny(1)}


def alphabet(name, bad=False):
    if name.startswith("rich"):
        ops = [CLEAN, erase("walk"), erase("idle"), erase("hide"), erase("walk", "hide"),
               erase("walk", safe=True), erase("hide", "idle", safe=True),
               erase("nope", "idle", strict=False), drop("red"), drop("default"),
               drop("red", safe=True), drop("blue", safe=True), drop("default", safe=True),
               drop("blue", "red"), ["scale", 2, 4], ["scale", 0.5, 0.5]]
        bads = [["anim", ["walk", "nope"], False, True], ["skin", ["blue", "nope"], False],
                ["badanim", ["walk"]]]
    else:
        ops = [CLEAN, erase("A"), erase("B"), erase("A", "B"), erase("A", safe=True),
               erase("B", safe=True), erase(), drop("k"), drop("default"), drop("k", safe=True),
               drop("default", safe=True), drop("k", "default", safe=True), ["scale", 2, 0.5],
               ["scale", 1, 1]]
        bads = [["anim", ["A", "nope"], True, True], ["skin", ["k", "nope"], True],
                ["scale", 2, None]]
    return ops + bads if bad else ops


def valid_op(op, anims, skins):
    """Whether the operation refers to what is there; keeps track of what is erased."""
    if op[0] == "anim":
        if op[3] and not set(op[1]) <= set(anims):
            return None
        return [a for a in anims if a not in op[1]], skins
    if op[0] == "skin":
        if not set(op[1]) <= set(skins):
            return None
        return anims, [s for s in skins if s not in op[1]]
    if op[0] in ("badanim",) or op[0] == "scale" and None in op:
        return None
    return anims, skins


def sequences(name, depth):
    """All valid operation sequences of exactly this length over a document."""
    doc = DOCS[name]()
    ops = alphabet(name)

    def extend(prefix, anims, skins):
        if len(prefix) == depth:
            yield list(prefix)
            return
        for i, op in enumerate(ops):
            nxt = valid_op(op, anims, skins)
            if nxt is not None:
                yield from extend(prefix + [i], *nxt)

    yield from extend([], model.anim_names(doc), model.skin_names(doc))


def hist_cases(tier):
    depths = ({"tiny0": 3, "tiny1": 3, "rich0": 2, "rich1": 2} if tier == "quick" else
              {"tiny0": 4, "tiny1": 4, "rich0": 3, "rich1": 3})
    for name, depth in depths.items():
        for seq in sequences(name, depth):
            yield ["hist", name, seq]


def hist_build(name, seq):
    ops = alphabet(name)
    return DOCS[name](), [ops[i] for i in seq]


# ---------------------------------------------------------------------------------------------
# colors: how transparency is written
# ---------------------------------------------------------------------------------------------
COLORS = (None, ALPHA0, "12345600", "00000000", "FFFFFF00", "ABcdEF00", "00000001", "000000ff", "ffffff0a", "ffffffA0",
          "00ffff10", "ff00ff80", "fffffff0", "0000ff01", "FF000000")


def colors_cases(tier):
    for color in COLORS:
        for setup in (None, "a", "b"):
            for layout in ("da", "da kb", "ka kb", "db", ""):
                for extra in (None, "dark", "blend"):
                    for t, u in (("-", "-"), ("-", "null0"), ("a0", "-"), ("null0", "a0"), ("cff", "-"), ("c00", "2c")):
                        for kind in ("region", "mesh"):
                            yield ["colors", color, setup, layout, extra, t, u, kind]


def colors_build(color, setup, layout, extra, t, u, kind):
    atts = {"default": {}, "k": {}}
    for i, item in enumerate(layout.split()):
        atts["default" if item[0] == "d" else "k"][item[1]] = of_kind(kind, i)
    skins = [{"name": n, "attachments": {"s": a} if a else {}} for n, a in atts.items()]
    more = {"dark": {"dark": "000000"}, "blend": {"blend": "normal"}, None: {}}[extra]
    doc = document([slot("q", "a"), slot("s", setup, color, **more)], skins, {"A": anim(s=t), "B": anim(s=u)})
    skins[0]["attachments"]["q"] = {"a": region(5)}
    return doc, [erase("B", safe=True), CLEAN] if u == "a0" else [erase()]


# ---------------------------------------------------------------------------------------------
# many: more than ten of everything, names that contain each other
# ---------------------------------------------------------------------------------------------
def many_cases(tier):
    n = 13
    sets = [[i] for i in range(n)] + [[i, i + 1] for i in range(n - 1)] + [[0, n - 1], list(range(0, n, 2)),
            list(range(1, n, 2)), list(range(10)), list(range(10, n)), list(range(n - 1)), list(range(n)), []]
    for gone in sets:
        for how in ("alpha", "null", "leaf", "names"):
            for rot in range(0, n, 1 if tier == "thorough" else 4):
                for op in ("clean", "skins", "anims"):
                    yield ["many", n, gone, how, rot, op]


def many_build(n, gone, how, rot, op):
    names = ["s%d" % i for i in range(n)]
    skins = [{"name": "k%d" % i, "attachments": {}} for i in range(12)]
    skins[3]["name"] = "default"
    slots, tls = [], {}
    for i, s in enumerate(names):
        hit = i in gone
        slots.append(slot(s, "a%d" % i if i % 3 else None, ALPHA0 if hit and how == "alpha" else None,
                          bone="b%d" % (i % 12)))
        if hit and how == "null":
            tls[s] = at((0, None))
        elif i % 3 == 0 and not (hit and how == "names"):
            tls[s] = at((i, "a%d" % i), (i + 10, None))
        if not (hit and how == "leaf"):
            for j in {3, i % 12, (i * 5 + 1) % 12}:
                skins[j]["attachments"][s] = {"a%d" % i: mesh(i) if i % 4 == 3 else region(i, path="p%d" % (i % 11)),
                                              "a%d" % (i + 100): region(i), "a1": region(1, name="n")}
    perm = list(range(n))
    perm = perm[rot:] + perm[:rot]
    perm[2], perm[n - 2] = perm[n - 2], perm[2]
    frames = [{"time": t, "offsets": o} for t, o in enumerate(
        [[{"slot": names[i], "offset": perm.index(i) - i} for i in range(n)], [],
         [{"slot": names[rot], "offset": n - 1 - rot}], [{"slot": names[n - 1], "offset": -rot}],
         [{"slot": names[0], "offset": rot}, {"slot": names[n - 1], "offset": -rot}] if rot != n - 1 - rot else []])]
    anims = {"A%d" % i: {"slots": dict(tls), "events": [{"time": i, "name": "e%d" % i}]} for i in range(12)}
    anims["A1"]["drawOrder"] = frames
    anims["A11"]["drawOrder"] = [dict(f, time=f["time"] + 5) for f in frames[::-1]]
    anims["A10"]["bones"] = {"b%d" % i: {"rotate": [{"time": i, "angle": i}]} for i in range(12)}
    anims["A10"]["deform"] = {k["name"]: {s: {"a%d" % int(s[1:]): [{"vertices": [int(s[1:])]}]}
                                          for s in k["attachments"] if int(s[1:]) % 4 == 3} for k in skins}
    doc = document(slots, skins, anims, bones=[{"name": "b0"}] + [
        {"name": "b%d" % i, "parent": "b%d" % (i // 2), "x": i} for i in range(1, 12)],
        ik=[{"name": "i%d" % i, "order": 12 - i, "bones": ["b%d" % i], "target": "b%d" % (i - 1)} for i in range(1, 12)],
        events={"e%d" % i: {"int": i} for i in range(12)})
    return doc, {"clean": [CLEAN], "skins": [drop("k1", "k10", safe=True), drop("k2", "default"), drop("k11")],
                 "anims": [erase("A1", "A2", "A10"), erase(*["A%d" % i for i in (0, 3, 4, 5, 6, 7, 8, 9, 11)])]}[op]


# ---------------------------------------------------------------------------------------------
# bare: sections left out, empty or present
# ---------------------------------------------------------------------------------------------
def bare_cases(tier):
    for slots in ("no", "empty", "some", "unattached"):
        for skins in ("no", "empty", "hollow", "blank", "some"):
            for anims in ("no", "empty", "blank", "some"):
                for more in ("no", "empty"):
                    for op in range(8):
                        yield ["bare", slots, skins, anims, more, op]


def bare_build(slots, skins, anims, more, op):
    doc = {"skeleton": {"spine": "3.8"}, "bones": [{"name": "root"}]}
    names = ["s", "t"] if slots in ("some", "unattached") else []
    if slots != "no":
        doc["slots"] = [slot(n, "a" if slots == "some" and skins == "some" else None) for n in names]
    if skins != "no":
        doc["skins"] = {"empty": [], "hollow": [{"name": "default"}, {"name": "k"}],
                        "blank": [{"name": "default", "attachments": {}}, {"name": "k", "attachments": {n: {} for n in names}}],
                        "some": [{"name": "default", "attachments": {n: {"a": region(i)} for i, n in enumerate(names)}},
                                 {"name": "k"}]}[skins]
    if anims != "no":
        doc["animations"] = {"empty": {}, "blank": {"A": {}, "B": {}},
                             "some": {"A": {"bones": {"root": {"rotate": [{"angle": 1}]}},
                                            "slots": {n: {} for n in names}},
                                      "B": {"slots": {n: {"color": [{"color": "ffffffff"}]} for n in names},
                                            "drawOrder": [{"time": 1}]}}}[anims]
    if more == "empty":
        doc.update(ik=[], transform=[], path=[], events={})
    has = {"A": anims in ("blank", "some"), "k": skins in ("hollow", "blank", "some")}
    ops = [[CLEAN], [["scale", 2, 4]], [erase("A", strict=False), CLEAN], [erase("A", "B", safe=True, strict=False)],
           [erase("A", "B", strict=False)], [erase()], [drop("k")] if has["k"] else [CLEAN, CLEAN],
           [drop("default", "k", safe=True), erase("A", strict=False)] if has["k"] else [["scale", 1, 1], CLEAN]][op]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# special: names that mean something to Python, JSON, the file system or a careless reader
# ---------------------------------------------------------------------------------------------
SPECIAL = ("None", "", "null", "0", "default", "attachments", "a/b", "\u00e9 \ud83d", "s", "a", "A", "k", " ", "..", "time",
           "attachment", "[1]", "True", "name", "v1.2")


SIBLING = {"slot": "o", "attachment": "a2", "attachment2": "a1", "animation": "B", "skin": "j", "bone": "c"}


def special_cases(tier):
    for entity in ("slot", "attachment", "attachment2", "animation", "skin", "bone", "event", "ik", "path"):
        x = SIBLING.get(entity)
        twins = (x.swapcase(), x + " ", " " + x, x + "1", "1" + x, "./" + x, x + "/", x + ".png") if x else ()
        if entity == "skin":
            twins += ("Default", "default ")
        for name in SPECIAL + twins:
            # two skins cannot share a name; the library reads the attachment key "None" as no attachment
            if (entity, name) == ("skin", "default") or entity.startswith("attachment") and name == "None":
                continue
            for kind in ("region", "mesh", "link"):
                for op in range(7):
                    yield ["special", entity, name, kind, op]


def special_build(entity, name, kind, op):
    n = {"slot": "s1", "attachment": "a1", "attachment2": "a2", "animation": "A1", "skin": "k1", "bone": "b1", "event": "e1",
         "ik": "i1", "path": "p1"}
    n[entity] = name
    s, a, b = n["slot"], n["attachment"], n["attachment2"]
    default = {"o": {"o": region(3), "h": mesh(5)}, s: {a: mesh(1) if kind == "link" else of_kind(kind, 1)}}
    k = {s: {b: linked(a, "default", path="i") if kind == "link" else of_kind(kind, 2)}, "t": {b: region(4)}}
    doc = document(
        [slot("t", None, bone=n["bone"]), slot(s, a, bone=n["bone"], blend="additive"), slot("o", "o"), slot("u", b, ALPHA0)],
        [{"name": "default", "attachments": default}, {"name": n["skin"], "attachments": k},
         {"name": "j", "attachments": {"u": {b: region(6), a: region(7)}}}],
        {n["animation"]: {"slots": {s: at((0, None), (1, b)), "t": at((1, b))},
                          "drawOrder": [{"time": 0, "offsets": [{"slot": "t", "offset": 3}, {"slot": s, "offset": 1}]}],
                          "events": [{"time": 0, "name": n["event"], "string": "x"}],
                          "ik": {n["ik"]: [{"time": 0, "mix": 0.5}]},
                          "path": {n["path"]: {"position": [{"time": 0, "position": 1}]}},
                          "bones": {n["bone"]: {"rotate": [{"time": 0, "angle": 3}]}}},
         "B": {"slots": {s: at((0, None)), "o": at((0, "h"))}}, "C": {"slots": {"u": at((0, a))}}},
        bones=[{"name": "root"}, {"name": n["bone"], "parent": "root"}, {"name": "c", "parent": n["bone"]}],
        ik=[{"name": n["ik"], "bones": [n["bone"]], "target": "c"}],
        path=[{"name": n["path"], "bones": ["c"], "target": "o"}], events={n["event"]: {"string": "y"}})
    if kind != "region":
        doc["animations"]["B"]["deform"] = {"default": {s: {a: [{"vertices": [1, 2]}]}, "o": {"h": [{"vertices": [1]}]}}}
    ops = [[CLEAN], [erase(n["animation"])], [erase("B", "C")], [drop(n["skin"])], [drop("default", safe=True), CLEAN],
           [drop(n["skin"], safe=True), ["scale", 2, 2], erase("C")], [erase(n["animation"], "B", safe=True), drop("j")]][op]
    return doc, ops


# ---------------------------------------------------------------------------------------------
# mixed: attachments of two kinds in one slot, deform keys in several animations, kept hidden slots
# ---------------------------------------------------------------------------------------------
def mixed_cases(tier):
    kinds = ("region", "mesh", "linked", "path", "point", "clipping", "boundingbox")
    space = itertools.product(kinds, kinds, ("dd", "dk", "kd"), (None, ALPHA0), (None, "a", "b"),
                              ("-", "null0", "a0", "null0,a1"), (0, 1, 2), ("clean", "last", "skin"))
    for i, c in enumerate(space):
        if tier == "quick" and i % 7:
            continue
        yield ["mixed"] + list(c)


def mixed_build(first, second, where, color, setup, tl, held, op):
    atts = {"default": {"m": mesh(4)} if "linked" in (first, second) else {}, "k": {}}
    for i, (key, kind, w) in enumerate((("a", first, where[0]), ("b", second, where[1]))):
        atts["default" if w == "d" else "k"][key] = linked("m", "default") if kind == "linked" else of_kind(kind, i, end="o")
    skins = [{"name": n, "attachments": {"s": v}} for n, v in atts.items()]
    skins[0]["attachments"]["o"] = {"o": region(3)}
    skins[1]["attachments"]["h"] = {"h": region(6), "a": region(7)}
    skins[0]["attachments"]["g"] = {"h": region(8, path="x")}
    anims = {"A": anim(s=tl, h="null0", g="null0"), "B": anim(s="-" if tl == "a0" else tl, h="null0", g="null0"),
             "Z": anim(s="a.5,b1", h="a0")}
    deform = {}
    for sk in skins:
        for sl, v in sk["attachments"].items():
            for key, att in v.items():
                if att.get("type") in ("mesh", "path", "clipping", "boundingbox"):
                    deform.setdefault(sk["name"], {}).setdefault(sl, {})[key] = [{"vertices": [1, len(sl)]}]
    if held == 2:  # attachments named like their slots, with deform keys, in slots that go
        for sk in skins:
            for sl, v in sk["attachments"].items():
                if sl == "s":  # never shown, in a slot that may well stay
                    v["s"] = of_kind("boundingbox", 5)
                    deform.setdefault(sk["name"], {}).setdefault("s", {})["s"] = [{"vertices": [4, 1]}]
                else:
                    v["h" if sl == "g" else sl] = mesh(8) if sl == "h" else of_kind("boundingbox", 7)
                    v[sl] = of_kind("boundingbox" if sl != "h" else "mesh", 9)
                    deform.setdefault(sk["name"], {})[sl] = {k: [{"vertices": [2, 3]}] for k, x in v.items() if "type" in x}
    for i, a in enumerate(anims.values()):
        if deform:
            a["deform"] = {n: {sl: {k: [dict(f, time=i) for f in fs] for k, fs in v.items()} for sl, v in d.items()}
                           for n, d in deform.items()}
        a["drawOrder"] = [{"time": i, "offsets": [{"slot": "g", "offset": 2}]}, {"time": i + 1, "offsets": []},
                          {"time": i + 2, "offsets": [{"slot": "s", "offset": 2}, {"slot": "h", "offset": -2}]}]
    more = {}
    if held == 1:
        more["path"] = [{"name": "p" + t, "bones": ["root"], "target": t} for t in ("g", "s", "h")]
    doc = document([slot("g", "h"), slot("s", setup, color), slot("o", "o"), slot("h", "h")], skins, anims, **more)
    return doc, {"clean": [erase("Z")], "last": [erase("Z", "A", safe=True), CLEAN],
                 "skin": [erase("Z", safe=True), drop("k")]}[op]


# ---------------------------------------------------------------------------------------------
# deep: long chains of bones and constraints
# ---------------------------------------------------------------------------------------------
def deep_cases(tier):
    for n in (12, 33, 70, 300):
        for kind in ("anims", "skins", "keys"):
            for last in (0, 1):
                yield ["deep", n, kind, last]
    for n in (40, 1100):
        for back in (0, 1):
            for op in ("clean", "skin", "anim", "scale"):
                yield ["deep", n, back, op]


def wide_build(n, kind, last):
    """Many animations, skins or keys, of which only the first or the last shows the slot that is hidden otherwise."""
    i = n - 1 if last else 0
    a, skins = {"A%d" % k: anim(s="null0") for k in range(n if kind == "anims" else 2)}, 1 if kind != "skins" else n
    if kind == "anims":
        a["A%d" % i] = anim(s="a0", t="b0")
    elif kind == "keys":
        a["A0"] = {"slots": {"s": at(*[(k, "a" if k == i else None) for k in range(n)]),
                             "t": at(*[(k, "b" if k == i else None) for k in range(n)])}}
    else:
        a["A1"] = anim(s="a0", t="b0")
    atts = [{"o": {"o": region(1)}} if k == 0 else {} for k in range(skins)]
    atts[i if kind == "skins" else 0].update({"s": {"a": region(2), "c": region(3)}, "t": {"b": mesh(4), "c": region(5)}})
    return document([slot("s", "a"), slot("t", None), slot("o", "o")],
                    [{"name": "k%d" % k if k else "default", "attachments": v} for k, v in enumerate(atts)], a), [CLEAN, erase("A1")]


def deep_build(n, back, op):
    if isinstance(back, str):
        return wide_build(n, back, op)
    name = lambda i: "b%d" % (n - 1 - i if back else i)
    bones = [{"name": name(0), "scaleX": 2}] + [{"name": name(i), "parent": name(i - 1), "x": i} for i in range(1, n)]
    slots = [slot("s%d" % i, "a%d" % i, ALPHA0 if i % 3 == 0 else None, bone=name(n - 1 - i * (n // 10))) for i in range(8)]
    skins = [{"name": "default", "attachments": {"s%d" % i: {"a%d" % i: region(i)} for i in range(8)}},
             {"name": "k", "attachments": {"s%d" % i: {"a%d" % (i + 1): mesh(i)} for i in range(7)}}]
    doc = document(slots, skins, {"A": anim(s1="null0"), "B": anim(s1="null0", s2="null0", s3="null0")}, bones=bones,
                   ik=[{"name": "i%d" % i, "order": i, "bones": [name(i), name(i + 1)], "target": name(n - 1 - i)} for i in range(5)])
    return doc, {"clean": [CLEAN], "skin": [drop("k")], "anim": [erase("A"), drop("default", safe=True), CLEAN],
                 "scale": [["scale", 2, 0.5], CLEAN]}[op]


# ---------------------------------------------------------------------------------------------
# frames: every sequence of attachment keys and of colour keys up to a length
# ---------------------------------------------------------------------------------------------
def sequences_of(symbols, longest):
    return [q for n in range(1, longest + 1) for q in itertools.product(symbols, repeat=n)]


def frames_cases(tier):
    longest = 4 if tier == "quick" else 5
    for keys in sequences_of((None, "a", "b"), longest):
        for setup in (None, "a", "b"):
            for color in (None, ALPHA0):
                for layout in ("da db", "ka kb"):
                    for first in (0, 0.5) if len(keys) > 2 else (0, 0.5, 0.0001, 1e-9, 1000):
                        yield ["frames", keys, (), setup, color, layout, first]
    for colors in sequences_of((ALPHA0, "00000080", "ffffffff"), 3):
        for keys in [()] + sequences_of((None, "a"), 2):
            for setup in (None, "a"):
                for color in (None, ALPHA0):
                    for first in (0, 0.5):
                        yield ["frames", keys, colors, setup, color, "da kb", first]


def frames_build(keys, colors, setup, color, layout, first):
    skins = {"default": {"o": {"o": region(9)}}, "k": {}}
    for i, item in enumerate(layout.split()):
        skins["default" if item[0] == "d" else "k"].setdefault("s", {})[item[1]] = region(i)
    tl = {}
    if keys:
        tl.update(at(*[(first + i, k) for i, k in enumerate(keys)]))
    if colors:
        tl.update(col(*[(first + i, c) for i, c in enumerate(colors)]))
    doc = document([slot("s", setup, color), slot("o", "o")],
                   [{"name": n, "attachments": a} for n, a in skins.items()],
                   {"A": {"slots": {"s": tl}}, "Z": anim(s="a.5,b1")})
    return doc, [erase("Z")]


# ---------------------------------------------------------------------------------------------
# exotic: image names that a file system or a careless comparison may take for one another
# ---------------------------------------------------------------------------------------------
EXOTIC = ("a", "a.png", "a.PNG", "A", " a", "a ", "./a", "../a", "d/a", "d//a", "d/./a", "d/../a", "/a", "a/", "d\\a", "a.v1.2", ".a",
          "a.", "a\n", "a\t", "\u00e9", "e\u0301", "a:b", "C:/a", "~a", "%61", "a?x#y", "0", "", "a_IMAGE", "images/a", "./images/a", "nul", "{}", "a" * 300)


def exotic_cases(tier):
    few = EXOTIC if tier == "thorough" else EXOTIC[::3] + ("a.png",)
    for first in EXOTIC:
        for second in few:
            if first != second:
                for roles in (("path", "path"), ("name", "path"), ("key", "path"), ("path", "key"), ("key", "name"), ("path", "name")):
                    if "" in (first, second) and "key" not in roles[0 if first == "" else 1]:
                        continue  # an empty path or name is no path or name
                    for op in range(4):
                        yield ["exotic", first, second, roles, op]


def exotic_build(first, second, roles, op):
    """Two images, first in slot s (and in skin k of slot t), second in skin k only."""
    def entry(name, role, n):
        att = region(n) if n % 2 else mesh(n)
        if role == "key":
            return {name: att}
        return {"key%d" % n: dict(att, **{role: name}, **({"name": "decoy"} if role == "path" else {}))}
    shown = entry(first, roles[0], 1)
    doc = document([slot("s", list(shown)[0]), slot("t", "x"), slot("u", "key1", ALPHA0)],
                       [{"name": "default", "attachments": {"s": shown, "t": {"x": region(4)}}},
                        {"name": "k", "attachments": {"s": entry(second, roles[1], 2), "t": entry(second, roles[1], 3)}},
                        {"name": "j", "attachments": {"u": entry(first, roles[0], 5)}}],
                       {"A": {"slots": {"t": at((0, "key3"))}}, "B": {"slots": {"t": at((0, None))}}})
    return doc, [[["clean"], ["skin", ["k"], False], ["skin", ["default"], True], ["skin", ["k", "j"], True]][op]]


# ---------------------------------------------------------------------------------------------
# near: names of two objects of a kind that are nearly the same; one of them goes, the other stays
# ---------------------------------------------------------------------------------------------
NEAR = ("n/", "n/b", "b/n", "N", "n ", " n", "n1", "nn", "1n", "n.b", "n_b", "n-b", "n:b", "n b", "b n", "n,b", "n\u0301", "\uff4e")
ENTITIES = ("slot", "attachment", "skin", "animation", "bone", "all")


def near_cases(tier):
    for entity in ENTITIES:
        for v in range(len(NEAR)):
            for turned in (0, 1):
                for op in range(6):
                    yield ["near", entity, v, turned, op]


def near_build(entity, v, turned, op):
    pair = ("n", NEAR[v])[::-1 if turned else 1]
    n = {e: pair if entity in (e, "all") else ("%s1" % e, "%s2" % e) for e in ENTITIES[:-1]}
    (s, t), (a, b), (k, j), (x, y), (bone, other) = (n[e] for e in ENTITIES[:-1])  # the first of each goes
    default = {s: {a: region(1), "m": mesh(1)}, t: {b: mesh(2), a: region(3), "r": region(4)}, "o": {"o": region(5), a: of_kind("point")}}
    first = {t: {b: mesh(6, path=b), "q": region(7, path=a)}, s: {b: mesh(8)}}
    second = {t: {b: linked(b, k), "l": linked(b, "default", path=a), "p": region(9, name=b)}}
    deform = {"default": {s: {"m": [{"vertices": [1]}]}, t: {b: [{"vertices": [2]}]}},
              k: {t: {b: [{"vertices": [3]}]}, s: {b: [{"vertices": [4]}]}}}
    doc = document(
        [slot(s, "m", ALPHA0, bone=bone), slot(t, b, bone=other), slot("o", "o")],
        [{"name": "default", "attachments": default}, {"name": k, "attachments": first}, {"name": j, "attachments": second}],
        {x: {"slots": {s: dict(at((0, a)), **col((0, "ffffffff")))}, "deform": deform},
         y: {"slots": {t: at((0, b), (1, None), (2, "p")), s: at((0, "m"))}, "deform": {p: dict(q) for p, q in deform.items()},
             "bones": {bone: {"rotate": [{"time": 0, "angle": 1}]}, other: {"rotate": [{"time": 0, "angle": 2}]}},
             "drawOrder": [{"time": 0, "offsets": [{"slot": s, "offset": 1}, {"slot": t, "offset": 1}]}, {"time": 1}]}},
        bones=[{"name": "root"}, {"name": bone, "parent": "root"}, {"name": other, "parent": bone}])
    return doc, [[CLEAN], [erase(x)], [drop(k)], [drop(k, safe=True), erase(x)], [erase(x, safe=True), drop(k), ["scale", 2, 2], CLEAN],
                 [drop(k, "default", safe=True), erase(x, safe=True), CLEAN]][op]


UNIVERSES = {
    "near": (near_cases, near_build),
    "exotic": (exotic_cases, exotic_build),
    "frames": (frames_cases, frames_build),
    "deep": (deep_cases, deep_build),
    "mixed": (mixed_cases, mixed_build),
    "vis": (vis_cases, vis_build), "pair": (pair_cases, pair_build),
    "kinds": (kinds_cases, kinds_build), "links": (links_cases, links_build),
    "images": (images_cases, images_build), "names": (names_cases, names_build),
    "draw": (draw_cases, draw_build), "hist": (hist_cases, hist_build),
    "special": (special_cases, special_build),
    "colors": (colors_cases, colors_build), "many": (many_cases, many_build), "bare": (bare_cases, bare_build),
}


def cases(tier, *universes):
    for u in universes:
        yield from UNIVERSES[u][0](tier)


def build(case):
    return UNIVERSES[case[0]][1](*case[1:])


if __name__ == "__main__":
    for tier in ("quick", "thorough"):
        print(tier, {u: sum(1 for _ in f[0](tier)) for u, f in UNIVERSES.items()})
    for u, f in UNIVERSES.items():
        bad = 0
        for i, c in enumerate(f[0]("quick")):
            if i % 101 == 0:
                d, _ = build(c)
                if model.dangling(d):
                    bad += 1
                    if bad < 3:
                        print(u, c, model.dangling(d))
