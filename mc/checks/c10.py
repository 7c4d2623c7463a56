"""Scale tags: the parser against a hand-written scanner, and products along bone chains."""
import copy
import itertools

from mc import gen, model
from mc.lib import Editor, need, run_op

from spine_json_lib.utils import get_tags_from_name

RULE = ("names: every string up to the length bound over an alphabet of tag tokens, judged by a "
        "hand-written scanner; trees: every bone forest shape up to the bound x every assignment of "
        "tagged names to bones and slot x every slot bone, judged by the product of the tags; "
        "non-trivial: a name carries a tag or nearly one")
ASSUMPTIONS = ["tag values are dyadic, so products are exact", "a tag is [name:value] where name is made "
               "of letters, digits, _ and -, value of letters, digits, _, dots and blanks"]

TOKENS = ("[", "]", ":", "scale", "0.5", " ", "a", "foo", "-", "2", ".")
WORDS = ("[scale:0.5]", "[ scale : 2 ]", "[scale:2]", "[foo:1]", "[scale:x]", "[scale: ]", "scale:0.5",
         "[scale0.5]", "[scale:-1]", "[:1]", "[scale:]", "a", " ", "[", "]", "[scale:1.0]", "[scale:1_0]",
         "[Scale:2]", "[scale:2:3]", "[sc ale:2]", "[scale:2 3]", "[scale:2 x]", "[scale:1.5.2]", "\u00e9")


def bounds(tier):
    return "token strings <= %d, tag values and names <= %d, word strings <= 3, bones <= %d in every forest, chains up to 30" % ((5, 5, 3) if tier == "quick" else (6, 6, 4))


VALUE = ("0", "2", ".", " ", "\t", "x", "_", "-", "scale", "\u0663")


def scan(name):
    """Tags of a name: list of (tag, value text) of well-formed brackets, left to right."""
    out, i = [], 0
    word = lambda c: c.isalnum() or c == "_"
    while i < len(name):
        if name[i] != "[":
            i += 1
            continue
        j = i + 1
        while j < len(name) and name[j].isspace():
            j += 1
        a = j
        while j < len(name) and (word(name[j]) or name[j] == "-"):
            j += 1
        tag = name[a:j]
        while j < len(name) and name[j].isspace():
            j += 1
        if not tag or j >= len(name) or name[j] != ":":
            i += 1
            continue
        j += 1
        a = j
        while j < len(name) and (word(name[j]) or name[j] == "." or name[j].isspace()):
            j += 1
        # at least one character between the colon and the bracket
        if j < len(name) and name[j] == "]" and j > a:
            out.append((tag, name[a:j].strip()))
            i = j + 1
        else:
            i += 1
    return out


def number(text):
    """Decimal number with digits and at most one dot, else None (what float() accepts is wider)."""
    digits = text.replace(".", "", 1)
    return float(text) if digits.isdigit() and digits.isascii() else None


def expected(name):
    """dict of tags, or None when the name has to be rejected, or 'any' where unspecified."""
    tags = {}
    for t, v in scan(name):
        if t in tags or t != "scale":
            return None
        n = number(v)
        if n is None:
            # other spellings Python's float knows (1e5, 1_0, inf, nan) are left unspecified
            try:
                float(v)
                return "any"
            except ValueError:
                return None
        tags[t] = n
    return tags


NAMES = ("b", "b[scale:0.5]", "b [ scale: 2 ]", "[scale:4]b", "scale:8 b", "b[scale:1]", "b[scale]", "[scale:1.0009765625]b",
         "b[scale:.99609375]")
FACTORS = (1, 0.5, 2, 4, 1, 1, 1, 1.0009765625, 0.99609375)


def cases(tier):
    n = 5 if tier == "quick" else 6
    for size in range(0, n + 1):
        if size <= 2:
            for combo in itertools.product(range(len(TOKENS)), repeat=size):
                yield ["names", combo, 0]
        else:  # one case per prefix: its extensions are enumerated inside
            for combo in itertools.product(range(len(TOKENS)), repeat=3):
                yield ["names", combo, size - 3]
    for size in range(1, 6 if tier == "quick" else 7):  # every tag value, every tag name
        for first in range(len(VALUE)):
            yield ["value", first, size - 1]
    for size in (1, 2, 3):
        for combo in itertools.product(range(len(WORDS)), repeat=size):
            yield ["words", combo]
    most = 3 if tier == "quick" else 4
    for bones in range(1, most + 1):
        for parents in itertools.product(*[range(-1, i) for i in range(1, bones)]):
            for tags in itertools.product(range(len(NAMES)), repeat=bones):
                for own in (0, 1, 2, 3, 5, 7):
                    yield ["tree", [-1] + list(parents), tags, own]
                if bones > 1:  # slots named like bones: their own, their parent's, any other
                    for perm in itertools.permutations(range(bones)):
                        if bones < 4 or perm[0] > perm[-1]:
                            yield ["tree", [-1] + list(parents), tags, list(perm)]
    for bones in (5, 8, 13, 30):  # long chains, two tagged bones anywhere, also in the listing order of another branch
        for a, b in itertools.combinations_with_replacement(range(bones), 2):
            for t in (1, 2, 7):
                yield ["tree", [-1] + list(range(bones - 1)), [t if i in (a, b) else 0 for i in range(bones)], 0]
    for v in range(len(gen.NEAR)):
        for turned in (0, 1):
            for what in ("bone", "slot", "parent"):
                for order in (0, 1):
                    yield ["near", v, turned, what, order]
    for name in ("[scale:x]", "[foo:1]", "b[scale:2][scale:2]", "[scale: . ]", "[scale:2] [ scale:3]"):
        for where in ("slot", "bone", "ancestor"):
            yield ["bad", name, where]
    for v in ("0.5", "2", "0.25", "1", "0", "3.0", "10", "1.0009765625", "0.9999", "1000000", "0.000001"):
        for edit in (0, 1, 2, 3):
            yield ["edits", v, edit]


def check_name(name, cov):
    want = expected(name)
    try:
        got = get_tags_from_name(name)
    except Exception:
        got = None
    cov.step()
    if want == "any":
        return
    need(got == want, "tags of name %r are %r, expected %r", name, got, want)
    cov.outcome("rejected" if want is None else "%d tags" % len(want))


def check(case, cov):
    what = case[0]
    if what == "names":
        prefix = "".join(TOKENS[i] for i in case[1])
        for tail in itertools.product(TOKENS, repeat=case[2]):
            name = prefix + "".join(tail)
            check_name(name, cov)
            cov.state(name)
        cov.trace()
        return
    if what == "value":
        for tail in itertools.product(VALUE, repeat=case[2]):
            text = VALUE[case[1]] + "".join(tail)
            for name in ("[scale:%s]" % text, "b[ scale : %s ]" % text, "[%s:2]" % text, "[scale%s]" % text):
                check_name(name, cov)
                cov.state(name)
        cov.trace()
        return
    if what == "words":
        name = "".join(WORDS[i] for i in case[1])
        check_name(name, cov)
        cov.state(name)
        return
    if what == "bad":
        _, name, where = case
        bones = [{"name": "root" if where != "ancestor" else name},
                 {"name": name if where == "bone" else "b"}]
        bones[1]["parent"] = bones[0]["name"]
        s = name if where == "slot" else "s"
        doc = gen.document([gen.slot(s, "a", bone=bones[1]["name"])],
                           [{"name": "default", "attachments": {s: {"a": gen.region()}}}], {},
                           bones=bones)
        cov.state(doc)
        try:
            Editor(doc)
        except Exception:
            cov.outcome("document rejected")
            return
        need(False, "a document with the %s name %r loads", where, name)
    if what == "near":  # two bones or slots of nearly the same name, below bones of different scales
        _, v, turned, entity, order = case
        pair = ("n", gen.NEAR[v])[::-1 if turned else 1]
        bones = [{"name": "root"}, {"name": "p[scale:0.5]", "parent": "root"}, {"name": "q[scale:4]", "parent": "root"}]
        b = pair if entity != "slot" else ("b1", "b2")
        bones += [{"name": b[0], "parent": "p[scale:0.5]"}, {"name": b[1], "parent": "q[scale:4]"}][::-1 if order else 1]
        if entity == "parent":
            bones += [{"name": "c1", "parent": b[0]}, {"name": "c2", "parent": b[1]}]
            b = ("c1", "c2")
        s = pair if entity == "slot" else ("s1", "s2")
        doc = gen.document([gen.slot(s[k], "i%d" % k, bone=b[k]) for k in (0, 1)],
                           [{"name": "default", "attachments": {s[k]: {"i%d" % k: gen.region()} for k in (1, 0)}}], {}, bones=bones)
        refs = Editor(doc).images_references
        got = [refs["i%d" % k].get("scale", 1) for k in (0, 1)]
        need(got == [0.5, 4], "images of slots %r on bones %r have scales %s", s, b, got)
        cov.state(doc)
        cov.step()
        return
    if what == "edits":
        _, v, edit = case
        doc = gen.rich(0)
        text = __import__("json").dumps(doc).replace("[scale:0.5]", "[scale:%s]" % v)
        doc = __import__("json").loads(text)
        ed = Editor(doc)
        ops = [["clean"], ["anim", ["walk"], False, True], ["skin", ["red"], False], ["scale", 2, 2]]
        run_op(ed, ops[edit])
        scale = float(v)
        for k, ref in ed.images_references.items():
            arm = k in ("p/arm", "spare", "r/arm", "b/arm", "extraimg", "sword", "bow", "bow!",
                        "p/sword", "extra")
            want = scale if arm else 1
            need(ref.get("scale", 1) == want, "image %s has scale %s instead of %s after %s", k,
                 ref.get("scale"), want, ops[edit])
            cov.step()
        cov.state(doc)
        return
    _, parents, tags, own = case
    names, bones = [], []
    for i, (p, t) in enumerate(zip(parents, tags)):
        names.append(NAMES[t] + str(i))
        bones.append({"name": names[i]})
        if p >= 0:
            bones[i]["parent"] = names[p]
    values = FACTORS
    slots, atts = [], {}
    for i in range(len(names)):
        s = names[own[i]] if isinstance(own, (list, tuple)) else "%s slot%d" % (NAMES[own], i)
        slots.append(gen.slot(s, "a", bone=names[i]))
        atts[s] = {"img%d" % i: gen.region(), "m": gen.mesh(path="mesh%d" % i)}
    doc = gen.document(slots, [{"name": "default", "attachments": atts}], {}, bones=bones)
    refs = Editor(copy.deepcopy(doc)).images_references
    for i in range(len(names)):
        want, b = values[tags[own[i]]] if isinstance(own, (list, tuple)) else values[own], i
        while b >= 0:
            want *= values[tags[b]]
            b = parents[b]
        for image in ("img%d" % i, "mesh%d" % i):
            ref = refs[image]
            need(ref.get("scale", 1) == want, "image %s of slot %r on bone %r has scale %s instead "
                 "of %s", image, slots[i]["name"], names[i], ref.get("scale"), want)
            need(want != 1 or "scale" not in ref, "scale 1 is not omitted for image %s", image)
        cov.outcome("scale %s" % want)
    cov.step()
    cov.trace()
    cov.state(doc)
