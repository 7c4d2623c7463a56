from mc import gen, model, steps
from mc.lib import need

RULE = ("every document x edit sequence of the visibility, shared-name, attachment-kind, linked-mesh, "
        "name, image and history universes; after each cleaning edit the document is searched for "
        "content that can be removed, and the returned summary is compared with what disappeared; "
        "non-trivial: cleaning removed something")


def cases(tier):
    return gen.cases(tier, "vis", "pair", "kinds", "names", "hist", "images", "links", "draw", "colors", "many", "special", "mixed", "bare", "deep", "frames", "near")


def check(case, cov):
    for s in steps.run(case, cov):
        if s.removed is None:
            continue
        slots, atts = s.removed
        gone = set(model.slot_names(s.before)) - set(model.slot_names(s.after))
        need(sorted(slots) == sorted(gone), "%s reports removed slots %s but %s disappeared", s.op,
             sorted(slots), sorted(gone))
        left = {k for _, _, k, _ in model.attachments(s.after)}
        need(not left & set(atts), "%s reports attachments %s as removed but they remain", s.op,
             sorted(left & set(atts)))
        had = {k for _, _, k, _ in model.attachments(s.before)}
        need(set(atts) <= had, "%s reports attachments %s that were in no skin", s.op,
             sorted(set(atts) - had))
        if s.op[0] == "clean" or not s.op[2]:
            cleaned = model.without(s.before, s.op[1] if s.op[0] == "anim" else (),
                                    s.op[1] if s.op[0] == "skin" else ())
            rest = model.leftovers(cleaned, s.after)
            need(not rest, "after %s: %s", s.op, rest)
            # what it removed from slots that stay has to be reported
            keep = set(model.slot_names(s.after))
            now = {(sk, sl, k) for sk, sl, k, _ in model.attachments(s.after)}
            for sk, sl, k, _ in model.attachments(s.before):
                if sl in keep and sk in model.skin_names(s.after) and (sk, sl, k) not in now:
                    need(k in atts, "%s removes attachment %s/%s/%s without reporting it", s.op, sk,
                         sl, k)
            # a name no skin has any more was removed, unless a slot that is not hidden uses it
            lost = {k for _, _, k, _ in model.attachments(cleaned)} - left
            missing = lost - set(atts) - model.used_names(cleaned)
            need(not missing, "%s removes attachments %s from every skin without reporting them", s.op,
                 sorted(missing))
        cov.outcome("%s: %d slots, %d names" % (s.op[0], len(slots), len(atts)))
