"""Spine versions are ordered by their numbers."""
import copy
import itertools
import operator
import re

from mc import gen, model
from mc.lib import Editor, need
from spine_json_lib.data.spine_version_type import SpineVersion

RULE = ("every ordered pair of versions from a grid of numbers and spellings x six operators x {version, string} on "
        "either side; every string up to the length bound over an alphabet of digits, signs, spaces, newlines and non-ASCII "
        "digits x acceptance; documents of every version from 3.8 on against the same document in 3.8; "
        "non-trivial: the two versions differ")

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
       ">=": operator.ge}
ALPHABET = "038.-+ \nav_\u0663\u00b2"
VALID = re.compile(r"[0-9]+\.[0-9]+(?:\.[0-9]+)?")
LATER = ("3.8", "3.8.0", "3.8.1", "3.8.75", "3.8.99", "3.8.1000", "3.9", "3.9.1", "3.10", "3.10.7", "3.11",
         "3.100", "3.1000.1", "4.0", "4.0.64", "4.1.24", "4.2", "4.10.0", "5.0", "10.0", "30.1", "3.08",
         "03.8.2", "3.8.00", "3.8.12345", "3.12345.1", "12345.0", "3.8.100000000000000000000")


def bounds(tier):
    return "grid of %d spellings, strings of length <= %d" % (
        len(versions(tier)), 5 if tier == "quick" else 6)


def versions(tier):
    major = (0, 3, 4, 10) if tier == "quick" else (0, 1, 2, 3, 4, 9, 10, 11, 1000)
    minor = (0, 7, 8, 9, 10, 999, 1000, 1001) if tier == "quick" else (
        0, 1, 2, 7, 8, 9, 10, 11, 79, 80, 99, 100, 999, 1000, 1001, 10 ** 6)
    patch = (None, 0, 1, 9, 10, 999, 1000) if tier == "quick" else (
        None, 0, 1, 2, 9, 10, 11, 69, 99, 100, 999, 1000, 1001, 10 ** 6)
    out = []
    for a, b, c in itertools.product(major, minor, patch):
        out.append("%d.%d" % (a, b) if c is None else "%d.%d.%d" % (a, b, c))
    digits = ["%s.%s%s" % (a, b, c) for a, b, c in (
        (12345, 8, ""), (1235, 8, ""), (3, 12345, ""), (3, 1235, ""), (3, 1234, ".5"), (3, 8, ".12345"), (3, 8, ".1235"),
        (3, 8, ".1234"), (3, 8, ".2345"), (3, 8, ".99999"), (3, 8, ".100000"), (3, 8, ".4294967296"), (3, 8, ".0000000001"),
        (3, 65536, ""), (3, 8, ".256"), (3, 8, ".18446744073709551617"), (18446744073709551616, 0, ""),
        (3, 8, ".12345678901234567890123"))]
    return out + digits + ["03.8", "3.08", "3.8.01", "3.8.00", "003.010.0"]


def cases(tier):
    for v in versions(tier):
        yield ["order", v, tier]
    longest = 5 if tier == "quick" else 6
    for prefix in itertools.product(range(len(ALPHABET)), repeat=2):
        yield ["strings", prefix, longest]
    yield ["short"]
    for v in LATER:
        for name in gen.DOCS:
            yield ["treatment", v, name]


def number(v):
    n = [int(k) for k in v.split(".")]
    return tuple(n + [0] * (3 - len(n)))


def accepts(text, cov):
    want = VALID.fullmatch(text) is not None
    for build in (SpineVersion, lambda t: SpineVersion("3.8") < t):
        try:
            build(text)
            got = True
        except ValueError:
            got = False
        need(got == want, "the version string %r is %s", text, "accepted" if got else "rejected")
        cov.step()
    if want:
        v = SpineVersion(text)
        need((v.major, v.minor, v.patch) == number(text), "%r is read as %s", text,
             (v.major, v.minor, v.patch))
        need(str(v) == text, "%r is written as %r", text, str(v))
        cov.outcome("accepted")
    else:
        cov.outcome("rejected")


def check(case, cov):
    if case[0] == "order":
        a = SpineVersion(case[1])
        for w in versions(case[2]):
            b = SpineVersion(w)
            for name, op in OPS.items():
                want = op(number(case[1]), number(w))
                for x, y in ((a, b), (a, w), (case[1], b)):
                    got = op(x, y)
                    need(got is want, "%s %s %s gives %s", case[1], name, w, got)
                    cov.step()
                cov.outcome("%s %s" % (name, want))
            cov.state([case[1], w])
        cov.trace()
    elif case[0] == "strings":
        start = "".join(ALPHABET[i] for i in case[1])
        for n in range(0, case[2] - 1):
            for rest in itertools.product(ALPHABET, repeat=n):
                accepts(start + "".join(rest), cov)
        cov.state(start)
        cov.trace()
    elif case[0] == "short":
        for t in [""] + list(ALPHABET):
            accepts(t, cov)
        for t in ("3.8.75", "10.20.30", "3.8.75.1", "3.8.", ".3.8", "3..8", "3.8-beta", "v3.8.75", "3.8.75\n",
                  " 3.8.75", "3,8", "3.8.x", "3.8.-1", "3.8.1e2", "3.8_1.2", "0x3.8", "3.8.75 beta"):
            accepts(t, cov)
            doc = gen.tiny(0) if hasattr(gen, "tiny") else gen.DOCS["tiny0"]()
            doc["skeleton"]["spine"] = t
            if VALID.fullmatch(t) is None:
                try:
                    Editor(doc)
                    need(False, "a document of version %r is loaded", t)
                except ValueError:
                    cov.outcome("document rejected")
    else:
        _, version, name = case
        doc = gen.DOCS[name]()
        base = copy.deepcopy(doc)
        doc["skeleton"]["spine"] = version
        base["skeleton"]["spine"] = "3.8.99"
        x, y = Editor(doc), Editor(base)
        for op in (None, ["scale", 2, 2], ["clean"]):
            if op is not None:
                from mc.lib import run_op
                run_op(x, op)
                run_op(y, op)
            a, b = x.to_json_data(), y.to_json_data()
            need(a["skeleton"].pop("spine") == version, "the version of a %s document changes", version)
            b["skeleton"].pop("spine")
            need(model.same(a, b), "a %s document is not treated like a 3.8 one after %s: %s", version, op,
                 model.diff(model.tag(b), model.tag(a)))
            need(x.images_references == y.images_references, "image references of a %s document differ", version)
            cov.step()
        cov.state([version, name])
        cov.outcome("treated like 3.8")
        cov.trace()
