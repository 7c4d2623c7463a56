#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "bounded exhaustive exploration of documents and operation sequences on the real code, against a reference model"
NOTES = {
 "C01": "Every attribute-value combination within the bounds, judged by format tables written from the Spine 3.8 format; trusts those tables.",
 "C02": "Every object position of documents holding every kind of object x every foreign attribute, unsupported type and missing requirement.",
 "C03": "Every reached document is reloaded from memory and from disk, on every kind of path; crash atomicity is not claimed.",
 "C04": "Frame condition after every edit of every document and history within the bounds.",
 "C05": "Every reached document is rendered by a reference Spine 3.8 renderer at every key time and midpoint; trusts that renderer.",
 "C06": "Every permutation, every encoding of it and every removed set within the bounds; trusts the runtime's draw-order algorithm as modelled.",
 "C07": "Every reference of every reached document is resolved.",
 "C08": "Every reached document is searched for removable content; summaries compared with what disappeared.",
 "C09": "Image references compared with a reference computation after every operation.",
 "C10": "Every bone forest within the bound x tag placements, every tag string up to the bound.",
 "C11": "Every rejected call at every point of every history within the bounds, compared with an editor on which it was not made.",
 "C12": "Every linked-mesh layout of the universe x every set of erased skins; geometry and deforms compared with the source's.",
 "C13": "Every bone forest x transform modes x scale sequences; exact on attributes, 1e-9 on world transforms.",
 "C14": "Live editor against fresh editor on its export for every history and next operation within the bounds; several hash seeds.",
 "C15": "Given and obtained data scribbled over at the end of every history; two editors under every interleaving; cold process comparison.",
 "C16": "Every pair of a version grid x six operators; every short string over an adversarial alphabet.",
 "C17": "Breadth-first exploration of operation sequences on the real graph next to a reference graph.",
 "C18": "Every labelled acyclic graph within the bound, with edge insertion orders.",
 "C19": "Every labelled digraph within the bound x node types x pairs x limits against reference algorithms.",
 "C20": "Every document of the universe: nodes, edges, names and conversion back, before and after removals.",
 "C21": "Every keyframe kind x attribute combinations within the bounds x versions on both sides of 3.8, read by a reader without 3.8 defaults.",
 "C23": "Every job in every listed environment, each in a process of its own, against the plain environment.",
 "C24": "Every typed digraph within the bound x type x kept names against a fixpoint on the edge list; every kind of parser and factory argument.",
 "C25": "Every schedule within the preemption bound, on real threads under a controlled scheduler, against each program alone.",
 "C22": "Pairs of call sequences that have to agree, from every document of the universes and every history up to the bound.",
}
checks = []
for pid, note in NOTES.items():
    tech = SEQ
    if pid in ("C17",):
        tech = "explicit-state breadth-first exploration of the real graph, in step with a reference model"
    elif pid in ("C18", "C19"):
        tech = "exhaustive enumeration of all graphs up to a bound on the real code, against reference algorithms"
    elif pid == "C23":
        tech = "exhaustive exploration of environments x documents x call sequences on the real code, against the plain environment"
    elif pid == "C24":
        tech = "exhaustive enumeration of typed graphs x prunings on the real code, against a reference fixpoint"
    elif pid == "C25":
        tech = "stateless exploration of thread schedules of the real code under a controlled scheduler with a preemption bound"
    elif pid in ("C16",):
        tech = "exhaustive enumeration of version pairs and strings on the real code, against tuple order"
    checks.append({"property": pid, "quick_cmd": "python3 -B check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 -B check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "model checking: " + tech,
                   "level": "model_checking", "level_note": note + " Bounds are in the evidence; nothing is sampled."})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
           "notes": "Pure Python; checks import /repo's working tree. No hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
