from mc import gen, model, steps
from mc.lib import need

RULE = ("every document x edit sequence of the history, attachment-kind, linked-mesh, name, shared-name, visibility and "
        "draw-order universes; every reference of every reached document is resolved; non-trivial: "
        "the documents hold every kind of reference and something was erased")


def cases(tier):
    return gen.cases(tier, "hist", "kinds", "links", "names", "pair", "draw", "vis", "colors", "many", "special", "mixed", "bare", "deep", "frames", "near")


def check(case, cov):
    for s in steps.run(case, cov):
        old = model.dangling(s.before)
        new = model.dangling(s.after)
        if not old:
            need(not new, "%s leaves dangling references: %s", s.op, new)
        else:
            need(not s.first, "harness: the document itself dangles: %s %s", case, old)
        if s.removed:
            gone = set(s.removed[1])
            for sl in s.after.get("slots") or []:
                need(sl.get("attachment") not in gone,
                     "%s removed attachment %r but it is still the setup attachment of slot %s",
                     s.op, sl.get("attachment"), sl["name"])
            # ... whatever the summary says: attachments that were in a skin before this edit
            if s.op[0] != "skin":
                had = {(sl, k) for _, sl, k, _ in model.attachments(s.before)}
                has = {(sl, k) for _, sl, k, _ in model.attachments(s.after)}
                for sl in s.after.get("slots") or []:
                    need((sl["name"], sl.get("attachment")) not in had - has,
                         "%s removed attachment %r but it is still the setup attachment of slot %s",
                         s.op, sl.get("attachment"), sl["name"])
        cov.outcome("%s: %d slots removed" % (
            s.op[0], len(model.slot_names(s.before)) - len(model.slot_names(s.after))))
