from mc import gen, model, steps
from mc.lib import need

RULE = ("linked-mesh universe: source skin x linked skin x key x parent x skin attribute x deform flag x "
        "deform keys x own attributes x second linked mesh x erased skins (every ordered subset, in one call or one by one, "
        "safe or cleaning); plus the histories; non-trivial: a linked mesh loses its source skin")
ASSUMPTIONS = ["linked meshes point at meshes, not at other linked meshes (what Spine exports)"]


def cases(tier):
    return gen.cases(tier, "links", "hist", "kinds", "special", "near")


def check(case, cov):
    for s in steps.run(case, cov):
        if s.op[0] != "skin":
            continue
        erased = set(s.op[1])
        before, after = model.skin_map(s.before), model.skin_map(s.after)
        for sk, sl, k, att in model.attachments(s.before):
            if model.attachment_kind(att) != "linkedmesh" or sk in erased:
                continue
            now = after.get(sk, {}).get(sl, {}).get(k)
            src = model.source_of(sk, sl, k, att)
            if src[0] not in erased:
                if now is not None:
                    need(model.canon_attachment(now, k) == model.canon_attachment(att, k),
                         "%s changes linked mesh %s/%s/%s, whose source remains: %s -> %s", s.op,
                         sk, sl, k, att, now)
                else:
                    need(not s.op[2], "%s drops linked mesh %s/%s/%s", s.op, sk, sl, k)
                cov.outcome("source remains")
                continue
            if now is None:
                need(not s.op[2], "%s drops linked mesh %s/%s/%s", s.op, sk, sl, k)
                cov.outcome("cleaned away")
                continue
            base = before[src[0]][src[1]][src[2]]
            want = dict(base)
            for attr in ("name", "path", "width", "height", "color"):
                want.pop(attr, None)
                if att.get(attr) is not None:
                    want[attr] = att[attr]
            need(model.attachment_kind(now) == "mesh",
                 "%s: linked mesh %s/%s/%s is still a %s", s.op, sk, sl, k, model.attachment_kind(now))
            x, y = model.canon_attachment(want, k), model.canon_attachment(now, k)
            need(x == y, "%s: linked mesh %s/%s/%s became %s: %s", s.op, sk, sl, k,
                 model.short(now), model.diff(x, y))
            need(model.image_name(k, now) == model.image_name(k, att),
                 "%s: linked mesh %s/%s/%s changes its image", s.op, sk, sl, k)
            if att.get("deform") is not False:
                for name, anim in (s.after.get("animations") or {}).items():
                    old = s.before["animations"][name].get("deform") or {}
                    f = old.get(src[0], {}).get(src[1], {}).get(src[2])
                    if f:
                        g = (anim.get("deform") or {}).get(sk, {}).get(sl, {}).get(k)
                        need(g is not None and model.keys(f, "deform", "") ==
                             model.keys(g, "deform", ""),
                             "%s: linked mesh %s/%s/%s loses its deform in %s", s.op, sk, sl, k, name)
            cov.outcome("made self-contained")
