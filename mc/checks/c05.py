from mc import gen, model, steps
from mc.lib import need, Violation

RULE = ("every document of the visibility, shared-name, attachment-kind, linked-mesh, image, name and "
        "history universes x its edit sequence; each reached document is rendered at every key time "
        "and midpoint with every remaining skin and compared with the document before the edit; "
        "non-trivial: the edit removed a slot, attachment, skin or animation")
ASSUMPTIONS = ["the reference renderer (mc/model.py) is the Spine 3.8 runtime's meaning of a document",
               "no attachment is literally named 'None'"]
UNIVERSES = ("vis", "pair", "kinds", "links", "names", "hist", "images", "colors", "many", "special", "mixed", "bare", "deep", "frames", "near")


def cases(tier):
    return gen.cases(tier, *UNIVERSES)


def check(case, cov):
    for s in steps.run(case, cov):
        if s.op[0] == "scale":
            continue
        try:
            msg, n = model.compare_rendering(s.before, s.after)
        except model.BadDrawOrder as e:
            raise Violation("after %s: %s" % (s.op, e))
        cov.count("moments compared", n)
        need(msg is None, "%s changes what is shown: %s", s.op, msg)
        cov.outcome("%s: %d slots, %d attachments removed" % (
            s.op[0], len(model.slot_names(s.before)) - len(model.slot_names(s.after)),
            sum(1 for _ in model.attachments(s.before)) - sum(1 for _ in model.attachments(s.after))))
