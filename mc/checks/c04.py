"""Frame conditions of every edit."""
from mc import gen, model, steps
from mc.lib import need

RULE = ("every document x edit sequence of the history, linked-mesh, attachment-kind, image, name, "
        "shared-name, visibility, draw-order, many-objects and missing-section universes; each step is compared record by record with the document "
        "before it; non-trivial: something was erased")
ASSUMPTIONS = ["linked meshes whose source skin is erased are judged by C12, draw-order values by C06"]


def cases(tier):
    return gen.cases(tier, "hist", "kinds", "links", "names", "images", "pair", "draw", "vis", "many", "special", "mixed", "bare", "deep", "frames", "near")


def masked_links(before, erased):
    """(skin, slot, key) of linked meshes that have to be made self-contained."""
    return {(sk, sl, k) for sk, sl, k, a in model.attachments(before)
            if model.attachment_kind(a) == "linkedmesh" and sk not in erased
            and model.source_of(sk, sl, k, a)[0] in erased}


def flat(doc):
    """Canonical parts of a document, by identity of their records."""
    c = steps.canon(doc)
    parts = {"skeleton": c["skeleton"], "unknown": {k: v for k, v in c.items() if k[0] == "?"}}
    for s in ("bones", "ik", "transform", "path", "events", "slots"):
        parts[s] = c[s]
    atts = {}
    for skin in c["skins"]:
        for sl, entries in skin["attachments"].items():
            for k, a in entries.items():
                atts[skin.get("name"), sl, k] = a
    anims, deforms, tls = {}, {}, {}
    for name, a in c["animations"]:
        a = dict(a)
        for sk, sls in a.pop("deform", {}).items():
            for sl, entries in sls.items():
                for k, frames in entries.items():
                    deforms[name, sk, sl, k] = frames
        for sl, tl in a.pop("slots", {}).items():
            tls[name, sl] = tl
        order = a.pop("drawOrder", [])
        a["drawOrder times"] = [f.get("time", 0) for f in order]
        anims[name] = (a, order)
    return parts, atts, anims, deforms, tls


def check(case, cov):
    for s in steps.run(case, cov):
        op = s.op
        if op[0] == "scale":
            continue
        gone_anims = set(op[1]) if op[0] == "anim" else set()
        gone_skins = set(op[1]) if op[0] == "skin" else set()
        cleans = op[0] == "clean" or not op[2]
        need(model.anim_names(s.after) == [a for a in model.anim_names(s.before)
                                           if a not in gone_anims],
             "%s: animations were %s, are %s", op, model.anim_names(s.before),
             model.anim_names(s.after))
        need(model.skin_names(s.after) == [k for k in model.skin_names(s.before)
                                           if k not in gone_skins],
             "%s: skins were %s, are %s", op, model.skin_names(s.before), model.skin_names(s.after))
        b, b_atts, b_anims, b_def, b_tls = flat(s.before)
        a, a_atts, a_anims, a_def, a_tls = flat(s.after)
        for part in ("skeleton", "unknown", "bones", "ik", "transform", "path", "events"):
            need(a[part] == b[part], "%s changes %s: %s", op, part, model.diff(b[part], a[part]))
        # slots: the same records in the same order, some may be dropped by cleaning
        left = {x["name"] for x in a["slots"]}
        kept = [x for x in b["slots"] if x["name"] in left]
        need([x["name"] for x in a["slots"]] == [x["name"] for x in kept],
             "%s reorders or invents slots: %s -> %s", op, model.short(b["slots"]),
             model.short(a["slots"]))
        if not cleans:
            need(len(kept) == len(b["slots"]), "%s removes slots in safe mode: %s", op,
                 set(x["name"] for x in b["slots"]) - left)
        for x, y in zip(kept, a["slots"]):
            if x != y and cleans and "attachment" in x and "attachment" not in y:
                still = [k for k in a_atts if k[2] == x["attachment"]]
                need(not still, "%s clears the setup attachment of slot %s though %s remains", op,
                     x["name"], still)
                x = {k: v for k, v in x.items() if k != "attachment"}
            need(x == y, "%s changes slot %s: %s", op, x["name"], model.diff(x, y))
        # skin attachments
        masked = masked_links(s.before, gone_skins)
        need(set(a_atts) <= set(b_atts), "%s invents attachments %s", op, set(a_atts) - set(b_atts))
        for k, att in b_atts.items():
            if k in a_atts:
                need(k in masked or a_atts[k] == att, "%s changes attachment %s: %s", op, k,
                     model.diff(att, a_atts[k]))
            else:
                need(cleans or k[0] in gone_skins, "%s removes attachment %s in safe mode", op, k)
        # animations
        for name, (x, order) in a_anims.items():
            y, border = b_anims[name]
            need(x == y, "%s changes animation %s: %s", op, name, model.diff(y, x))
            if len(kept) == len(b["slots"]):
                names = model.slot_names(s.before)
                for f, g in zip(order, border):
                    need(model.runtime_order(names, f.get("offsets") or []) ==
                         model.runtime_order(names, g.get("offsets") or []),
                         "%s changes draw order %s of %s: %s -> %s", op, g, name, g, f)
            # (with slots removed, draw orders are C06's)
        for k, tl in b_tls.items():
            if k[0] in a_anims and k[1] in left:
                need(a_tls.get(k) == tl, "%s changes slot timeline %s: %s", op, k,
                     model.diff(tl, a_tls.get(k)))
        need(set(a_tls) <= set(b_tls), "%s invents slot timelines", op)
        for k, frames in b_def.items():
            if k[0] in a_anims and k[1:] in a_atts and k[1:] not in masked:
                need(a_def.get(k) == frames, "%s changes deform %s: %s", op, k,
                     model.diff(frames, a_def.get(k)))
            if k[0] in a_anims and k[1:] not in a_atts and not cleans:
                need(k[1] in gone_skins or a_def.get(k) == frames, "%s drops deform %s", op, k)
        for k in set(a_def) - set(b_def):
            need(k[1:] in masked, "%s invents deform %s", op, k)
        cov.outcome("%s %s: %d attachments gone" % (op[0], "cleaning" if cleans else "safe",
                                                    len(b_atts) - len(a_atts)))
