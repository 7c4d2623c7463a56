"""Reference model: what a Spine 3.8 document means, written from the Spine 3.8 JSON format and
runtime rules, independently of the library's own default tables.

Documents are plain JSON data. Nothing here imports the code under test."""
import json

# ---------------------------------------------------------------------------------------------
# Format tables: attribute -> value a Spine 3.8 loader assumes when the attribute is absent.
# NODEF: the attribute is optional and has no value equal to "absent".
# ---------------------------------------------------------------------------------------------
NODEF = ("<no default>",)
CURVE = {"curve": NODEF, "c2": 0, "c3": 1, "c4": 1}


def _t(**kw):
    return kw


BONE = _t(name=NODEF, parent=NODEF, length=0, x=0, y=0, rotation=0, scaleX=1, scaleY=1, shearX=0,
          shearY=0, transform="normal", color=NODEF)
SLOT = _t(name=NODEF, bone=NODEF, attachment=NODEF, color="ffffffff", dark=NODEF, blend="normal")
IK = _t(name=NODEF, order=0, bones=[], target=NODEF, mix=1, softness=0, bendPositive=True,
        compress=False, stretch=False, uniform=False)
TRANSFORM = _t(name=NODEF, order=0, bone=NODEF, bones=[], target=NODEF, rotation=0, x=0, y=0,
               scaleX=0, scaleY=0, shearX=0, shearY=0, rotateMix=1, translateMix=1, scaleMix=1,
               shearMix=1, local=False, relative=False)
PATH = _t(name=NODEF, order=0, skin=False, bones=[], target=NODEF, positionMode="percent",
          spacingMode="length", rotateMode="tangent", rotation=0, position=0, spacing=0,
          rotateMix=1, translateMix=1)
EVENT = _t(int=0, float=0, string="")
ATTACHMENT = {
    "region": _t(type="region", x=0, y=0, rotation=0, scaleX=1, scaleY=1, width=NODEF,
                 height=NODEF, name=NODEF, path=NODEF, color="ffffffff"),
    "mesh": _t(type=NODEF, hull=0, uvs=[], vertices=[], edges=[], triangles=[], width=0, height=0,
               name=NODEF, path=NODEF, color="ffffffff"),
    "linkedmesh": _t(type=NODEF, path=NODEF, name=NODEF, parent=NODEF, deform=True, skin="default",
                     width=0, height=0, color="ffffffff"),
    "path": _t(type=NODEF, name=NODEF, closed=False, constantSpeed=True, lengths=[],
               vertexCount=0, vertices=[], color=NODEF),
    "point": _t(type=NODEF, name=NODEF, x=0, y=0, rotation=0, color=NODEF),
    "clipping": _t(type=NODEF, name=NODEF, end=NODEF, vertexCount=0, vertices=[], color=NODEF),
    "boundingbox": _t(type=NODEF, name=NODEF, vertexCount=0, vertices=[], color=NODEF),
}
KEY = {
    "rotate": _t(time=0, angle=0, **CURVE),
    "translate": _t(time=0, x=0, y=0, **CURVE),
    "shear": _t(time=0, x=0, y=0, **CURVE),
    "scale": _t(time=0, x=1, y=1, **CURVE),
    "attachment": _t(time=0, name=NODEF),
    "color": _t(time=0, color=NODEF, **CURVE),
    "twoColor": _t(time=0, light=NODEF, dark=NODEF, **CURVE),
    "ik": _t(time=0, mix=1, bendPositive=True, compress=False, stretch=False, **CURVE),
    "transform": _t(time=0, rotateMix=1, translateMix=1, scaleMix=1, shearMix=1, **CURVE),
    "pathkey": _t(time=0, position=0, spacing=0, rotateMix=1, translateMix=1, **CURVE),
    "deform": _t(time=0, vertices=[], offset=0, **CURVE),
    "event": _t(time=0, name=NODEF, int=NODEF, float=NODEF, string=NODEF, volume=1, balance=0,
                audio=""),
    "drawOrder": _t(time=0),
    "offset": _t(slot=NODEF, offset=NODEF),
}


class Malformed(Exception):
    """The exported document does not have the shape of a Spine document."""


def tag(v):
    """Make Python's True == 1 and 0 == False visible; numbers compare by value."""
    if isinstance(v, bool):
        return "<%s>" % v
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, list):
        return [tag(x) for x in v]
    if isinstance(v, dict):
        return {k: tag(x) for k, x in v.items()}
    if isinstance(v, str) and v.startswith("<"):
        return "<str>" + v
    return v


def same(a, b):
    return tag(a) == tag(b)


def rec(record, table, where):
    """Canonical form of a flat record: absent, null and default-valued attributes left out."""
    if not isinstance(record, dict):
        raise Malformed("%s is %r, not an object" % (where, record))
    out = {}
    for k, v in record.items():
        if v is None:
            continue
        v = tag(v)
        if k == "curve" and v == []:
            continue
        d = table.get(k, NODEF)
        if d is not NODEF and v == tag(d):
            continue
        out[k] = v
    return out


def attachment_kind(att):
    return att.get("type") or "region"


def canon_attachment(att, where):
    kind = attachment_kind(att)
    if kind not in ATTACHMENT:
        raise Malformed("%s has attachment type %r" % (where, kind))
    return rec(att, ATTACHMENT[kind], where)


def keys(frames, kind, where):
    if not isinstance(frames, list):
        raise Malformed("%s is %r, not a list" % (where, frames))
    return [rec(f, KEY[kind], "%s[%d]" % (where, i)) for i, f in enumerate(frames)]


def drop_empty(d):
    return {k: v for k, v in d.items() if v not in ({}, [])}


def canon_animation(anim, where):
    out = {}
    for section in anim:
        if section not in ("bones", "slots", "ik", "transform", "path", "deform", "events",
                           "drawOrder"):
            out["?" + section] = tag(anim[section])
    out["bones"] = drop_empty({
        b: drop_empty({t: keys(f, t, "%s.bones.%s.%s" % (where, b, t)) if t in KEY else tag(f)
                       for t, f in tls.items()})
        for b, tls in (anim.get("bones") or {}).items()})
    out["slots"] = drop_empty({
        s: drop_empty({t: keys(f, t, "%s.slots.%s.%s" % (where, s, t)) if t in KEY else tag(f)
                       for t, f in tls.items()})
        for s, tls in (anim.get("slots") or {}).items()})
    for section in ("ik", "transform"):
        out[section] = drop_empty({
            c: keys(f, section, "%s.%s.%s" % (where, section, c))
            for c, f in (anim.get(section) or {}).items()})
    out["path"] = drop_empty({
        c: drop_empty({t: keys(f, "pathkey", "%s.path.%s.%s" % (where, c, t))
                       for t, f in tls.items()})
        for c, tls in (anim.get("path") or {}).items()})
    out["deform"] = drop_empty({
        sk: drop_empty({
            s: drop_empty({a: keys(f, "deform", "%s.deform.%s.%s.%s" % (where, sk, s, a))
                           for a, f in atts.items()})
            for s, atts in slots.items()})
        for sk, slots in (anim.get("deform") or {}).items()})
    out["events"] = keys(anim.get("events") or [], "event", where + ".events")
    order = []
    for i, frame in enumerate(anim.get("drawOrder") or []):
        w = "%s.drawOrder[%d]" % (where, i)
        f = rec({k: v for k, v in frame.items() if k != "offsets"}, KEY["drawOrder"], w)
        offs = keys(frame.get("offsets") or [], "offset", w + ".offsets")
        if offs:
            f["offsets"] = offs
        order.append(f)
    out["drawOrder"] = order
    return drop_empty(out)


SECTIONS = ("skeleton", "bones", "slots", "ik", "transform", "path", "skins", "events",
            "animations")


def canon(doc):
    """Canonical meaning of a document. Two documents with equal canon read identically."""
    out = {"?" + k: tag(v) for k, v in doc.items() if k not in SECTIONS}
    out["skeleton"] = tag(doc.get("skeleton"))
    for section, table in (("bones", BONE), ("slots", SLOT), ("ik", IK), ("transform", TRANSFORM),
                           ("path", PATH)):
        value = doc.get(section) or []
        if not isinstance(value, list):
            raise Malformed("%s is %r" % (section, value))
        out[section] = [rec(r, table, "%s[%d]" % (section, i)) for i, r in enumerate(value)]
    skins = []
    for i, skin in enumerate(doc.get("skins") or []):
        s = rec({k: v for k, v in skin.items() if k != "attachments"}, {}, "skins[%d]" % i)
        s["attachments"] = drop_empty({
            slot: {a: canon_attachment(att, "skins[%d].%s.%s" % (i, slot, a))
                   for a, att in atts.items()}
            for slot, atts in (skin.get("attachments") or {}).items()})
        skins.append(s)
    out["skins"] = skins
    events = doc.get("events") or {}
    out["events"] = [[k, rec(v, EVENT, "events." + k)] for k, v in events.items()]
    anims = doc.get("animations") or {}
    out["animations"] = [[k, canon_animation(v, "animations." + k)] for k, v in anims.items()]
    return out


def diff(a, b, path=""):
    """First difference of two canonical values, for messages."""
    if type(a) is not type(b):
        return "%s: %s != %s" % (path, short(a), short(b))
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return "%s.%s: absent != %s" % (path, k, short(b[k]))
            if k not in b:
                return "%s.%s: %s != absent" % (path, k, short(a[k]))
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %s != %s" % (path, short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %s != %s" % (path, short(a), short(b))


def short(v):
    s = json.dumps(v, default=str)
    return s if len(s) < 400 else s[:400] + "..."


# ---------------------------------------------------------------------------------------------
# Accessors
# ---------------------------------------------------------------------------------------------
def slot_names(doc):
    return [s["name"] for s in doc.get("slots") or []]


def skin_names(doc):
    return [s.get("name") for s in doc.get("skins") or []]


def anim_names(doc):
    return list(doc.get("animations") or {})


def attachments(doc):
    """All (skin, slot, key, record)."""
    for skin in doc.get("skins") or []:
        for slot, atts in (skin.get("attachments") or {}).items():
            for key, att in atts.items():
                yield skin.get("name"), slot, key, att


def skin_map(doc):
    return {s.get("name"): s.get("attachments") or {} for s in doc.get("skins") or []}


DRAWN = ("region", "mesh", "linkedmesh")


def image_name(key, att):
    return att.get("path") or att.get("name") or key


def source_of(skin, slot, key, att):
    """(skin, slot, key) of the mesh a linked mesh takes its geometry from."""
    return att.get("skin") or "default", slot, key if att.get("parent") is None else att["parent"]


# ---------------------------------------------------------------------------------------------
# Images (C09) and scales (C10)
# ---------------------------------------------------------------------------------------------
def used_images(doc, skins=None):
    """image name -> set of slots using it, over the given skins (all by default)."""
    out = {}
    for skin, slot, key, att in attachments(doc):
        if (skins is None or skin in skins) and attachment_kind(att) in DRAWN:
            out.setdefault(image_name(key, att), set()).add(slot)
    return out


def images_folder(doc):
    return doc["skeleton"].get("images", "./images/")


def image_path(doc, image):
    folder = images_folder(doc)
    if image.startswith("/") or not folder:
        return image
    return folder + image if folder.endswith("/") else folder + "/" + image


# ---------------------------------------------------------------------------------------------
# Draw order, as SkeletonJson.readAnimation + DrawOrderTimeline of the Spine runtimes read it
# ---------------------------------------------------------------------------------------------
class BadDrawOrder(Exception):
    pass


def runtime_order(names, offsets):
    """Slot names in drawing order for one draw-order keyframe."""
    n = len(names)
    if not offsets:
        return list(names)
    order = [None] * n
    unchanged = []
    original = 0
    index = {name: i for i, name in enumerate(names)}
    for off in offsets:
        slot = off.get("slot")
        if slot not in index:
            raise BadDrawOrder("unknown slot %r" % (slot,))
        i = index[slot]
        if i < original:
            raise BadDrawOrder("offsets are not in slot order: %s" % short(offsets))
        while original != i:
            unchanged.append(original)
            original += 1
        target = original + off["offset"]
        if not 0 <= target < n:
            raise BadDrawOrder("offset of %r leads out of the slot list: %s" % (slot, short(offsets)))
        if order[target] is not None:
            raise BadDrawOrder("two slots are put at the same place: %s" % short(offsets))
        order[target] = original
        original += 1
    while original < n:
        unchanged.append(original)
        original += 1
    free = [k for k in range(n) if order[k] is None]
    for k, i in zip(free, unchanged):
        order[k] = i
    return [names[i] for i in order]


# ---------------------------------------------------------------------------------------------
# Renderer (C05)
# ---------------------------------------------------------------------------------------------
def t_of(frame):
    return frame.get("time") or 0


def alpha_of(color):
    return int(color[6:8], 16) if color is not None and len(color) == 8 else 255


def sample_times(anim):
    times = {0}
    for tls in (anim.get("slots") or {}).values():
        for frames in tls.values():
            times.update(t_of(f) for f in frames)
    times.update(t_of(f) for f in anim.get("drawOrder") or [])
    times = sorted(times)
    out = []
    for a, b in zip(times, times[1:]):
        out += [a, (a + b) / 2]
    return out + [times[-1], times[-1] + 1]


def active(frames, t):
    """Last frame at or before t, or None."""
    found = None
    for f in frames:
        if t_of(f) <= t:
            found = f
        else:
            break
    return found


def alpha_at(slot, tls, t):
    setup = alpha_of(slot.get("color"))
    for kind, attr in (("twoColor", "light"), ("color", "color")):
        frames = tls.get(kind) or []
        if not frames:
            continue
        cur = active(frames, t)
        if cur is None:
            return setup
        a = alpha_of(cur.get(attr))
        nxt = frames[frames.index(cur) + 1:][:1]
        if nxt and t > t_of(cur) and cur.get("curve") != "stepped":
            b = alpha_of(nxt[0].get(attr))
            f = (t - t_of(cur)) / (t_of(nxt[0]) - t_of(cur))
            return a + (b - a) * f
        return a
    return setup


def geometry(att):
    return {k: v for k, v in canon_attachment(att, "mesh").items()
            if k in ("vertices", "uvs", "triangles", "hull", "edges")}


def resolve(skins, skin, slot, key, att, anim):
    """What an attachment shows: everything a runtime uses of it, links resolved."""
    kind = attachment_kind(att)
    deform = anim.get("deform") or {}

    def deform_of(sk, sl, k):
        frames = ((deform.get(sk) or {}).get(sl) or {}).get(k) or []
        return keys(frames, "deform", "deform")

    if kind == "region":
        c = canon_attachment(att, key)
        c.pop("name", None)
        c.pop("path", None)
        return ["region", image_name(key, att), c]
    if kind in ("mesh", "linkedmesh"):
        size = [tag(att.get("width") or 0), tag(att.get("height") or 0),
                att.get("color") or "ffffffff"]
        where = (skin, slot, key)
        if kind == "linkedmesh":
            src = source_of(skin, slot, key, att)
            base = ((skins.get(src[0]) or {}).get(src[1]) or {}).get(src[2])
            if base is None:
                return ["broken link", image_name(key, att)]
            if att.get("deform") is not False:
                where = src
        else:
            base = att
        return ["mesh", image_name(key, att), size, geometry(base), deform_of(*where)]
    c = canon_attachment(att, key)
    c.pop("color", None)
    return [kind, c, deform_of(skin, slot, key)]


def render(doc, anim_name, skin, t, skins_allowed=None, anim=None):
    """Items drawn at time t of an animation (None: setup pose) with a skin, in drawing order."""
    if anim is None:
        anim = (doc.get("animations") or {}).get(anim_name) or {} if anim_name is not None else {}
    skins = skin_map(doc)
    allowed = set(skins) if skins_allowed is None else skins_allowed
    slots = {s["name"]: s for s in doc.get("slots") or []}
    names = list(slots)
    frame = active(anim.get("drawOrder") or [], t)
    order = runtime_order(names, frame.get("offsets") or []) if frame else names
    out, ends = [], []
    for name in order:
        slot = slots[name]
        tls = (anim.get("slots") or {}).get(name) or {}
        key = slot.get("attachment")
        frame = active(tls.get("attachment") or [], t)
        if frame is not None:
            key = frame.get("name")
        found = None
        if key is not None:
            for sk in (skin, "default"):
                if sk in allowed and key in ((skins.get(sk) or {}).get(name) or {}):
                    found = sk
                    break
        if found is not None:
            att = skins[found][name][key]
            kind = attachment_kind(att)
            if kind not in DRAWN:
                out.append([name, key, resolve(skins, found, name, key, att, anim)])
                if kind == "clipping":
                    ends.append(att.get("end"))
            else:
                alpha = alpha_at(slot, tls, t)
                if alpha > 0:
                    out.append([name, key, resolve(skins, found, name, key, att, anim),
                                [alpha, slot.get("color"), slot.get("dark"), slot.get("blend")]])
        if name in ends:
            out.append(["clip end", name])
    return out


def compare_rendering(before, after, skins=None):
    """None, or a description of a moment at which remaining content is shown differently.

    Documents are compared for every animation and skin of `after` (which has to be a subset of
    those of `before`); returns (message or None, moments compared)."""
    remaining = skin_names(after)
    allowed = set(remaining)
    n = 0
    anims = anim_names(after) or [None]
    views = list(dict.fromkeys(remaining + ["default"]))
    for a in anims:
        anim_b = (before.get("animations") or {}).get(a) or {} if a is not None else {}
        for skin in views:
            for t in sample_times(anim_b):
                n += 1
                x = render(before, a, skin, t, allowed)
                try:
                    y = render(after, a, skin, t, allowed)
                except BadDrawOrder as e:
                    return "animation %r at %s: %s" % (a, t, e), n
                if x != y:
                    return ("animation %r with skin %r shows at time %s\n   before: %s\n   after:  %s"
                            % (a, skin, t, short(x), short(y))), n
    return None, n


# ---------------------------------------------------------------------------------------------
# Reference integrity (C07)
# ---------------------------------------------------------------------------------------------
def dangling(doc):
    """References of a document that do not resolve."""
    out = []
    bones = {b["name"] for b in doc.get("bones") or []}
    slots = {s["name"] for s in doc.get("slots") or []}
    iks = {c.get("name") for c in doc.get("ik") or []}
    transforms = {c.get("name") for c in doc.get("transform") or []}
    paths = {c.get("name") for c in doc.get("path") or []}
    events = set(doc.get("events") or {})
    skins = skin_map(doc)

    def ref(ok, what, *args):
        if not ok:
            out.append(what % args)

    for b in doc.get("bones") or []:
        ref(b.get("parent") is None or b["parent"] in bones, "bone %s: parent %s", b["name"],
            b.get("parent"))
    for s in doc.get("slots") or []:
        ref(s["bone"] in bones, "slot %s: bone %s", s["name"], s["bone"])
    for c in doc.get("ik") or []:
        for b in c.get("bones") or []:
            ref(b in bones, "ik %s: bone %s", c.get("name"), b)
        ref(c.get("target") in bones, "ik %s: target %s", c.get("name"), c.get("target"))
    for c in doc.get("transform") or []:
        for b in (c.get("bones") or []) + ([c["bone"]] if c.get("bone") else []):
            ref(b in bones, "transform %s: bone %s", c.get("name"), b)
        ref(c.get("target") in bones, "transform %s: target %s", c.get("name"), c.get("target"))
    for c in doc.get("path") or []:
        for b in c.get("bones") or []:
            ref(b in bones, "path %s: bone %s", c.get("name"), b)
        ref(c.get("target") in slots, "path %s: target slot %s", c.get("name"), c.get("target"))
    for skin, slot, key, att in attachments(doc):
        kind = attachment_kind(att)
        if kind == "linkedmesh":
            sk, sl, k = source_of(skin, slot, key, att)
            base = ((skins.get(sk) or {}).get(sl) or {}).get(k)
            ref(base is not None and attachment_kind(base) == "mesh",
                "linked mesh %s/%s/%s: source %s/%s", skin, slot, key, sk, k)
        if kind == "clipping" and att.get("end") is not None:
            ref(att["end"] in slots, "clipping %s/%s/%s: end %s", skin, slot, key, att.get("end"))
    for skin in skins:
        for slot in skins[skin]:
            ref(slot in slots, "skin %s: slot %s", skin, slot)
    for name, anim in (doc.get("animations") or {}).items():
        for b in anim.get("bones") or {}:
            ref(b in bones, "animation %s: bone timeline %s", name, b)
        for s in anim.get("slots") or {}:
            ref(s in slots, "animation %s: slot timeline %s", name, s)
        for c in anim.get("ik") or {}:
            ref(c in iks, "animation %s: ik timeline %s", name, c)
        for c in anim.get("transform") or {}:
            ref(c in transforms, "animation %s: transform timeline %s", name, c)
        for c in anim.get("path") or {}:
            ref(c in paths, "animation %s: path timeline %s", name, c)
        for f in anim.get("drawOrder") or []:
            for off in f.get("offsets") or []:
                ref(off.get("slot") in slots, "animation %s: draw order entry %s", name,
                    off.get("slot"))
        for f in anim.get("events") or []:
            ref(f.get("name") in events, "animation %s: event %s", name, f.get("name"))
        for sk, sls in (anim.get("deform") or {}).items():
            ref(sk in skins, "animation %s: deform of skin %s", name, sk)
            for sl, atts in sls.items():
                ref(sl in slots, "animation %s: deform of slot %s", name, sl)
                for k in atts:
                    ref(k in ((skins.get(sk) or {}).get(sl) or {}),
                        "animation %s: deform of attachment %s/%s/%s", name, sk, sl, k)
    return out


# ---------------------------------------------------------------------------------------------
# What cleaning must not leave behind (C08)
# ---------------------------------------------------------------------------------------------
def needed_slots(doc):
    need = {c.get("target") for c in doc.get("path") or []}
    need |= {att.get("end") for _, _, _, att in attachments(doc)
             if attachment_kind(att) == "clipping"}
    return need


def hidden_in(doc, slot, anim):
    """The slot cannot show anything in this animation, for a reason cleaning has to recognise."""
    tls = (anim.get("slots") or {}).get(slot["name"]) or {}
    att = tls.get("attachment") or []
    coloured = bool(tls.get("color") or tls.get("twoColor"))
    functional = any(attachment_kind(a) not in DRAWN
                     for _, s, _, a in attachments(doc) if s == slot["name"])
    given = [f for f in att if f.get("name") is not None]
    if alpha_of(slot.get("color")) == 0 and not coloured and not functional:
        return True
    plain = slot.get("color") is None and slot.get("dark") is None and slot.get("blend") is None
    if slot.get("attachment") is None and not given and plain:
        return True
    if len(att) == 1 and not given and t_of(att[0]) == 0 and not coloured:
        return True
    return False


def used_names(doc):
    """Attachment names set up or keyed in slots that may show something in some animation."""
    used = set()
    for slot in doc.get("slots") or []:
        for anim in list((doc.get("animations") or {}).values()) or [{}]:
            if not hidden_in(doc, slot, anim):
                tls = (anim.get("slots") or {}).get(slot["name"]) or {}
                used.add(slot.get("attachment"))
                used.update(f.get("name") for f in tls.get("attachment") or [])
    return used


def leftovers(before, after):
    """Slots and attachments cleaning should have removed: before is the document it had to clean,
    without the animations and skins erased in the same step."""
    out = []
    anims = list((before.get("animations") or {}).values()) or [{}]
    need = needed_slots(before)
    used = used_names(before)
    left = set(slot_names(after))
    for slot in before.get("slots") or []:
        name = slot["name"]
        hidden = [hidden_in(before, slot, a) for a in anims]
        if name in left and name not in need:
            if not any(s == name for _, s, _, _ in attachments(after)):
                out.append("slot %s has no attachment in any skin" % name)
            elif all(hidden):
                out.append("slot %s is hidden in every remaining animation" % name)
    meshes = {k for _, _, k, a in attachments(after) if attachment_kind(a) == "mesh"}
    for skin, slot, key, att in attachments(after):
        if attachment_kind(att) != "mesh" and key not in used and key not in meshes:
            out.append("attachment %s/%s/%s is used by no shown slot" % (skin, slot, key))
    return out


def without(doc, anims=(), skins=()):
    """The document without some animations and skins."""
    doc = dict(doc)
    doc["animations"] = {k: v for k, v in (doc.get("animations") or {}).items() if k not in anims}
    doc["skins"] = [s for s in doc.get("skins") or [] if s.get("name") not in skins]
    return doc
