from mc import gen, model, steps
from mc.lib import need, Violation

RULE = ("for every n: all permutations of n slots x all offset lists a runtime reads as that permutation "
        "x all sets of removed slots (hidden by alpha, by a null key, left without attachment, by an "
        "erased skin, in one or two steps); plus the histories over rich documents; non-trivial: "
        "slots were removed and the animation has draw-order keyframes")
ASSUMPTIONS = ["oracle: the draw-order reading of the Spine runtimes (SkeletonJson)"]


def bounds(tier):
    return "n <= %d slots for the alpha universe, n <= 4 for the other removals" % (
        5 if tier == "quick" else 6)


def cases(tier):
    return gen.cases(tier, "draw", "hist", "kinds", "many", "special", "mixed", "near")


def check(case, cov):
    for s in steps.run(case, cov):
        names_b, names_a = model.slot_names(s.before), model.slot_names(s.after)
        for name, anim in (s.after.get("animations") or {}).items():
            fb = s.before["animations"][name].get("drawOrder") or []
            fa = anim.get("drawOrder") or []
            need([model.t_of(f) for f in fb] == [model.t_of(f) for f in fa],
                 "%s: draw-order keyframes of %s were at %s, are at %s", s.op, name,
                 model.short([model.t_of(f) for f in fb]), model.short([model.t_of(f) for f in fa]))
            for x, y in zip(fb, fa):
                want = [n for n in model.runtime_order(names_b, x.get("offsets") or [])
                        if n in names_a]
                try:
                    got = model.runtime_order(names_a, y.get("offsets") or [])
                except (model.BadDrawOrder, KeyError, TypeError) as e:
                    raise Violation("%s: keyframe %s of slots %s became unreadable: %s" % (
                        s.op, x, names_b, e))
                need(got == want, "%s: keyframe %s of slots %s became %s of slots %s: order %s "
                     "instead of %s", s.op, x, names_b, y, names_a, got, want)
                cov.count("keyframes compared")
        if case[0] == "draw":
            cov.outcome("%d of %d slots removed" % (len(names_b) - len(names_a), len(names_b)))
