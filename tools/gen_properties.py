#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, pathlib
ED="spine_json_lib/spine_animation_editor.py"; AD="spine_json_lib/data/spine_anim_data.py"
BT="spine_json_lib/data/data_types/base_type.py"; DT="spine_json_lib/data/data_types/"
GN="spine_json_lib/deserializer/spine_nodes.py"; GC="spine_json_lib/spine_graph_container.py"
DG="spine_json_lib/graph/dagraph.py"; SN="spine_json_lib/graph/spamnode.py"; GV="spine_json_lib/graph/graph_validator.py"
VT="spine_json_lib/data/spine_version_type.py"; UT="spine_json_lib/utils.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Loading and exporting a skeleton keeps its meaning",
 "For every supported Spine 3.8+ document, exporting right after loading gives a document that a Spine 3.8 loader reads identically: every object, keyframe, list order and attribute value of the input is present and unchanged, except that an attribute may be left out when its value is the Spine format's default for it (the value a Spine loader assumes when it is absent). Nothing is added other than attributes holding their default.",
 ["inputs"],"every object kind of the format, every combination of attributes (absent, default, non-default, falsy) on it, up to the stated bound",
 "One fixture document is compared with itself; it contains few object kinds and no attribute explicitly set to (or near) a default. The guarantee ranges over every attribute/value combination of every object kind.",
 [BT,AD,DT+"*.py"],[("default tables and default-dropping serialisation",BT+" set_default_values_from_version / to_spine_data_ignoring_default_values"),("per-type DEFAULT_VALUES tables",DT)],
 ["SpineAnimationEditor.to_json_data","SpineAnimationEditor.from_json_file"])
p("C02","Unknown or missing content is rejected at load, never dropped",
 "Loading a document in which any object, at any nesting level other than the free-form skeleton header, carries an attribute the library does not support, uses an unsupported attachment type, or lacks a required attribute or has it null (bone name; slot name or bone; draw-order offset) raises an error. It never returns an editor whose export silently lacks or invents that content.",
 ["inputs"],"every object position of a document containing every object kind x every single (and pair of) injected unknown attribute / removed required attribute",
 "Only one missing draw-order offset is tested; unknown attributes are not tested at all, and the guarantee is about every position.",
 [BT,DT+"*.py"],[("attribute check against initialised attributes and REQUIRED",BT+" SpineData.__init__"),("attachment type dispatch",DT+"skin.py parse_skin_attachment_data")],
 ["SpineAnimationEditor(json_data)"])
p("C03","Exports reload, on disk and in memory, to the same document",
 "Whatever sequence of edits produced it, an exported document can be loaded again and exporting it again gives an equal document. Saving to any path (in an existing folder, a folder that must be created, or a bare file name) writes exactly the exported document, and the images file exactly the current image references; saving over an existing file leaves nothing of its old content.",
 ["histories","inputs"],"every document of the bounded universe after every operation history up to the depth bound; every kind of output path",
 "Tests never save a file and never reload an export; after edits whole sections (slots, skins, animations) can become empty and be left out.",
 [ED,AD,BT],[("to_json / save_images_json / from_json_file",ED),("section parsing",AD+" SpineAnimationData.__init__")],
 ["SpineAnimationEditor.to_json","SpineAnimationEditor.save_images_json","SpineAnimationEditor.from_json_file"])
p("C04","Erasing removes what was asked for and leaves the rest alone",
 "After erasing a set of animations or skins, exactly those are gone from the export and all others remain, in their order. In safe mode nothing else in the document changes (apart from linked meshes being made self-contained and deform keys of erased skins); in normal mode the cleaning may additionally only drop slots and skin attachments together with the references to them, and never touches the skeleton header, bones, events, IK, transform or path constraints, bone/constraint/event timelines, nor the values of any kept slot, attachment or keyframe.",
 ["inputs","histories"],"every subset of animations/skins erased from every document of the bounded universe, in safe and normal mode",
 "Two fixtures with one erased set each; the frame condition ranges over every kept part and every erased subset, and safe mode is never tested.",
 [ED,AD,GN],[("erase_animations / erase_skins / clean_animation",ED),("remove_skin",AD)],
 ["SpineAnimationEditor.erase_animations","SpineAnimationEditor.erase_skins","SpineAnimationEditor.to_json_data"])
p("C05","Cleaning never changes what remaining animations and skins show",
 "For every remaining animation, every remaining skin and every moment, the sequence of drawn items (slot, attachment content, image, non-transparent colour state, deformation) and the active path, clipping and bounding-box attachments of non-transparent or functional slots are the same after erasing/cleaning as before. When no animation remains the setup pose plays that role.",
 ["inputs","histories"],"every combination of setup attachment, setup colour, slot timelines, skin layout and attachment kind up to the bound x every subset of animations/skins erased",
 "Visibility depends on the joint values of setup pose, slot timelines of every remaining animation and all skins; the two fixtures sample a handful of those combinations and compare with frozen output instead of with what is visible.",
 [AD,ED,DT+"slot.py",DT+"animation.py"],[("visibility rule",AD+" get_unused_slots_and_attachments / get_visible_slots_and_attachments"),("slot timeline emptiness",DT+"slot.py SlotTimeline"),("reference clean-up",ED+" remove_slots / remove_attachments")],
 ["SpineAnimationEditor.erase_animations","SpineAnimationEditor.erase_skins","SpineAnimationEditor.clean_animation"])
p("C06","Draw-order keyframes keep their meaning when slots are removed",
 "After any set of slots is removed by cleaning, every draw-order keyframe of every remaining animation, read the way a Spine runtime reads it, yields exactly the previous drawing order restricted to the remaining slots, with offsets that stay inside the slot list and are listed in slot order.",
 ["inputs"],"every permutation of n slots x every listing of offsets that expresses it (minimal or redundant) x every subset of slots removed, for n up to the bound",
 "A fixture has a few draw-order keys and one removed set; correctness is a statement about all permutations and all removed subsets.",
 [DT+"draworder.py",DT+"animation.py",ED],[("offset recomputation",DT+"draworder.py DrawOrderTimeline.remove_offsets_with_ids")],
 ["SpineAnimationEditor.to_json_data animations[*].drawOrder"])
p("C07","Edited documents have no dangling references",
 "If every reference in a document resolves before an edit, every reference resolves after it, for every edit sequence: slot bones, bone parents, slot/bone/constraint timelines, deform keys, draw-order entries, skin slots, linked-mesh parents and skins, IK bones and targets, transform targets, path-constraint target slots, clipping end slots, and the setup attachments of slots whose attachment the cleaning removed.",
 ["histories","inputs"],"every operation history up to the depth bound on every document of the bounded universe",
 "Tests compare two outputs with frozen files; dangling references appear only when a specific construct (path constraint, linked mesh, clipping, name clash) meets a specific removal.",
 [ED,AD,GC,GN,DT+"animation.py"],[("reference clean-up after removal",ED+" remove_slots / remove_attachments"),("slot/attachment selection",AD+" get_unused_slots_and_attachments"),("graph id <-> name mapping",GN+" _to_graph_id/_to_base_id")],
 ["SpineAnimationEditor.to_json_data"])
p("C08","Cleaning removes invisible content and reports it truthfully",
 "After a normal-mode erase or an explicit clean, no slot remains that has no attachment in any skin or that is hidden throughout every remaining animation (in each of them: transparent in the setup pose with no colour keys and only image attachments; or no setup attachment, colour, dark colour or blend mode and given no attachment; or switched off by a single attachment key at time 0 and no colour keys), unless a path constraint or clipping attachment needs it; and no non-mesh attachment remains whose name no slot that is not hidden uses in setup or in a key (a name shared with a mesh that is kept may be kept). The returned summary names exactly the slots that disappeared, every attachment name it reports is gone from every skin, and every attachment name that the cleaning made disappear from every skin is reported, unless a slot that is not hidden uses it.",
 ["inputs","histories"],"every combination of setup pose, timelines, skins and erased subsets up to the bound",
 "Two fixtures; the removed set is a function of all animations, skins and the setup pose together.",
 [AD,ED,GC],[("visibility rule",AD),("leaf removal",GC+" remove_leafs_of_type"),("clean_animation result",ED)],
 ["return values of erase_animations / erase_skins / clean_animation"])
p("C09","images_references always equals the images the document uses",
 "At every point of every edit history the image references hold exactly one entry per image used by a region, mesh or linked-mesh attachment present in some skin (named by its path, else its name, else its key), with the path formed from the skeleton's images folder. The image list returned by erasing skins is exactly the set of images the erased skins used that no remaining skin uses.",
 ["histories","inputs"],"every operation history up to the depth bound on every document of the image universe (key-, name- and path-named images shared across slots, skins and kinds)",
 "Fixtures only use skins whose images carry explicit names and check one edit each.",
 [ED,AD,GN,GC],[("get_images_references / _clean_images_references",ED),("remove_skin image collection",AD)],
 ["SpineAnimationEditor.images_references","return value of erase_skins"])
p("C10","Image scale is the product of the scale tags above the slot",
 "The scale recorded for an image is the product of the [scale:x] tags in the name of its slot, the slot's bone and all that bone's ancestors, and is omitted when that product is 1; other names carry no tag. A malformed tag value, an unknown tag or a repeated tag in one name is rejected with an error and text without a well-formed bracketed tag yields no tag.",
 ["inputs"],"every bone tree up to the bound x every placement of tags on slot and bone names, and every name over a small token alphabet up to a length bound",
 "Tests parse eight names and one bone chain; the product ranges over all trees and placements.",
 [AD,UT,DT+"bone.py",DT+"slot.py",ED],[("get_bone_custom_scale_recursive / get_slot_custom_scale",AD),("get_tags_from_name",UT)],
 ["SpineAnimationEditor.images_references[*].scale","get_tags_from_name"])
p("C11","A rejected edit leaves the editor exactly as it was",
 "When an edit raises (unknown animation name in strict mode, unknown skin name, argument of the wrong type, scale that is not a number), the document, the image references and the effect of every later operation are the same as if the call had not been made. In non-strict mode unknown animation names are ignored and the known ones erased.",
 ["histories","fault_sequences"],"every position of an invalid name in every argument list, at every point of every history up to the bound",
 "No test makes a call fail half-way, nor looks at the editor after an error.",
 [ED,AD],[("validation before mutation",ED+" _erase_raw_animations_data / erase_skins")],
 ["SpineAnimationEditor.to_json_data after an exception","SpineAnimationEditor.images_references"])
p("C12","Linked meshes survive the erasure of the skin they borrow from",
 "When a skin is erased, every linked mesh of a remaining skin that took its geometry from a mesh of that skin (explicitly, or implicitly from the default skin) becomes able to stand on its own: it keeps its key, its own image, size and colour, and has the geometry of the mesh it was linked to. Linked meshes whose source skin remains are untouched.",
 ["inputs","histories"],"every arrangement of meshes/linked meshes over three skins and two slots with equal or different keys, x every subset and order of skins erased",
 "No fixture contains a linked mesh into an erased skin.",
 [AD],[("remove_skin materialisation",AD+" remove_skin")],
 ["SpineAnimationEditor.erase_skins","SpineAnimationEditor.to_json_data skins"])
p("C13","Scaling multiplies the whole figure and nothing else",
 "Scaling by (sx, sy) multiplies scaleX/scaleY of the root bone and of each bone that does not inherit scale by sx/sy exactly once and changes nothing else in the document, so uniform scaling by s multiplies every bone's world transform relative to the root by s. Successive scalings compose multiplicatively and scaling by 1 changes nothing.",
 ["inputs","histories"],"every bone tree up to the bound x every assignment of transform modes and setup scales x every short sequence of scalings",
 "No test scales anything.",
 [ED,DT+"bone.py"],[("scale_animation",ED),("Bone.scale",DT+"bone.py")],
 ["SpineAnimationEditor.scale_animation","SpineAnimationEditor.to_json_data bones"])
p("C14","An edit's effect depends only on the document, not on its history",
 "After any history of operations, continuing with the live editor and continuing with a fresh editor loaded from its export give equal documents, equal image references and equal results for every next operation; in particular earlier edits (scaling, erasing, cleaning) are never undone by later ones, and scaling commutes with erasing. The result does not depend on hash ordering.",
 ["histories","schedules"],"every operation history up to the depth bound on every document of the universe; several hash orders",
 "Each test applies one operation to a fresh editor in one process.",
 [ED,GC,GN,AD],[("graph rebuilt from the document",ED+" clean_animation"),("graph to json",GN+" to_json_data")],
 ["SpineAnimationEditor.to_json_data","SpineAnimationEditor.images_references","return values"],
 [("spine_graph","second copy of bones/slots/ik kept beside the document",ED)])
p("C15","Editors never alias their input, output or each other",
 "Loading never modifies the given data; later edits of an editor never show up in data given to it or previously obtained from it (documents, image references, erase results), and modifying a given or exported document or an erase result never shows up in any editor. Independent editors loaded from the same data never influence each other.",
 ["histories","inputs"],"every operation history up to the bound interleaved over two editors sharing one input, with mutation of every obtained or given value at every step",
 "No test holds two editors or re-reads its input.",
 [ED,AD,BT],[("deep copies at the boundary",AD+" JsonSpineAnimationData / SpineAnimationData"),("copied default tables",BT+" default_values")],
 ["SpineAnimationEditor(json_data)","SpineAnimationEditor.to_json_data","ErasingResult.result_data_json"])
p("C16","Spine versions are totally ordered by their numbers",
 "Comparing versions (with a version or a version string, by any of the six operators) agrees with comparing their (major, minor, patch) numbers, a missing patch counting as 0; strings not of the form major.minor[.patch] with decimal numbers are rejected with ValueError. Documents of every version from 3.8 on, including 3.10 and 4.x, get 3.8 treatment.",
 ["inputs"],"every pair/triple of versions with components from a set containing 0, 1, boundaries, two- and four-digit numbers; every string over a small alphabet up to a length bound",
 "No test compares versions; order laws quantify over all pairs and triples.",
 [VT,BT],[("comparison operators, validate, split_version",VT),("default table choice",BT+" default_values")],
 ["SpineVersion operators","SpineAnimationEditor load of 3.8+/4.x"])
p("C17","Graph edits keep nodes and edges consistent",
 "After any sequence of adding/removing nodes and edges, children and parents mirror each other, contain only nodes of the graph and exactly the edges added and not removed, heads/tails are exactly the nodes without parents/children, ids stay unique and generated ids are fresh. A rejected call (duplicate or non-string id, self edge, forbidden child type, unknown node) raises and changes nothing; node handles are hashable consistently with equality.",
 ["histories"],"every operation sequence up to the depth bound over 3-4 node ids, with typed and untyped node factories",
 "Tests run a few fixed sequences; the invariant is about every reachable graph state.",
 [DG,SN,"spine_json_lib/graph/factories.py"],[("add_node/add_edge/remove_edge/remove_node_by_id",DG),("_add_child/_add_parent",SN)],
 ["DAGraph public API"],[("_nodes / children / parents","adjacency",DG)])
p("C18","Sequential order is a dependency order of all nodes",
 "For every acyclic graph the sequential execution order lists every node exactly once and every node after all of its parents.",
 ["inputs"],"every labelled acyclic graph with up to the bound nodes, in several insertion orders",
 "Two graphs are tested; the property is about all acyclic graphs.",
 [DG],[("sequential_order_of_execution",DG)],["DAGraph.sequential_order_of_execution"])
p("C19","Graph validation and path enumeration are exact",
 "Validation reports a circular reference iff the graph has a directed cycle (naming at least one node of a cycle and only existing nodes) and reports exactly the parentless nodes that are not of the input-root type as unconnected. On a valid graph path enumeration returns exactly the simple paths between two nodes with at most the given number of nodes, each once; on an invalid graph or unknown node it raises.",
 ["inputs"],"every directed graph up to the bound nodes, every assignment of root types, every pair of nodes and depth limit",
 "Five small graphs are tested; the guarantee is an equivalence over all graphs.",
 [DG,GV],[("get_all_paths",DG),("get_circular_dependencies / get_unconnected_nodes",GV)],["DAGraph.validate","DAGraph.get_all_paths"])
p("C20","The skeleton graph mirrors the document",
 "The graph built from a document has exactly one node per bone, slot, IK constraint, skin attachment name and image, with exactly the edges parent bone->bone, bone->slot, slot->attachment, attachment->image, target bone->IK and IK->bone; names are mapped to graph ids and back without loss. Converting it back gives the document's bones, slots and IK constraints, unchanged and in order, also after slots or attachments were removed from it.",
 ["inputs","histories"],"every document of the bounded structure universe incl. names that contain the type suffixes or coincide across kinds; every removal subset",
 "One fixture is converted back, sorted, and its edges are not looked at.",
 [GN,GC],[("SpineGraphParser",GN),("SpineGraphContainer removal helpers",GC)],["SpineGraphParser.create_from_json_data","SpineGraphParser.to_json_data","SpineGraphContainer.remove_*"])
p("C21","Exporting for an older version spells out what it cannot assume",
 "Exporting the data for a version below 3.8 keeps every value readable without 3.8's implicit defaults: an attribute is left out only if that older version has the same default for it, so every keyframe carries its time and values explicitly, while exporting for 3.8 or later may leave them out. Clearing unsupported attributes for a version removes exactly the curve parameters c2, c3 and c4, which old versions lack, from every keyframe when the version is below 3.8, and nothing otherwise.",
 ["inputs","configurations"],"every keyframe kind x attribute combination x target versions around 3.8",
 "Nothing about older targets is tested.",
 [BT,VT,DT+"*.py"],[("default_values(version)",BT),("remove_unsupported_attributes",BT)],["SpineAnimationData.to_json(version)","SpineAnimationData.clean_unsupported_attributes(version)"])
p("C22","Different ways to make the same edit agree",
 "The order in which names are given in one erase call, and repeating a name, make no difference to the resulting document, the image references or what is reported. Erasing in normal mode equals erasing in safe mode followed by clean_animation, in the result and in what the cleaning reports. In safe mode one call with several names equals one call per name in any order, and safe erasures and scaling give the same document in every order. While an animation remains, erasing two animations with a cleaning after each, and cleaning on until nothing more is removed, gives the document that erasing both at once and cleaning on gives (draw-order keys compared by the order they mean).",
 ["inputs","histories"],"every document of the bounded universes, also after histories of edits x every pair (triple) of animations and skins x every order of the calls",
 "Each test makes one call on one fixture and compares it with a stored file; the guarantee relates pairs of call sequences on every document.",
 [ED,AD],[("erase_animations / erase_skins / clean_animation",ED),("get_unused_slots_and_attachments / remove_skin",AD)],
 ["SpineAnimationEditor.erase_animations","SpineAnimationEditor.erase_skins","SpineAnimationEditor.clean_animation","SpineAnimationEditor.scale_animation"])
p("C23","The environment of the process makes no difference",
 "The same skeleton file or data and the same calls give the same document, image references, saved files, reports and rejections whatever environment the process runs in: encoding of the locale and of the standard output (names of any script), missing standard streams, hash seed, working directory (for absolute paths), optimised mode (-O, -OO) and the other interpreter options. Skeleton files are read as UTF-8, and loading a file gives the editor that loading its content gives.",
 ["inputs","histories","configurations"],"every environment of the list x every job: documents with names of many scripts, every history up to the bound, every kind of rejected document, version string, tag, edit and graph call",
 "Tests run in one environment, with ASCII names only.",
 [ED,GN,BT],[("from_json_file / to_json / save_images_json and what cleaning prints",ED),("create_from_json_file",GN),("rejections",BT+" SpineData.__init__")],
 ["SpineAnimationEditor.from_json_file","SpineAnimationEditor.to_json","SpineAnimationEditor.clean_animation"])
p("C24","Pruning a graph by node type is a least fixpoint; parsers are honoured",
 "On every graph, removing the leafs (heads) of a node type removes exactly the nodes of that type that have no children (parents), then those that have none left, and so on, except the names asked to be kept and whatever they hold; it returns each removed name once, as it was given, and leaves every other node and edge alone. Listing heads and leafs of a type is exact. Graphs are read and written by exactly the parser class given; what is not a parser or not a node factory is refused.",
 ["inputs","histories"],"every typed digraph up to the bound x every type x every set of kept names, also two prunings in a row; every kind of parser and factory argument",
 "Tests prune nothing themselves; one fixture is cleaned, where at most one round happens.",
 [GC,DG,"spine_json_lib/graph/factories.py"],[("remove_heads_of_type / remove_leafs_of_type",GC),("to_json / to_json_data / create_from_json_*",DG)],
 ["SpineGraphContainer.remove_leafs_of_type","SpineGraphContainer.remove_heads_of_type","SpineGraphContainer.get_heads_with_type","DAGraph.to_json_data"])
p("C25","Separate editors and graphs can be used from separate threads",
 "Programs that each load, edit and export an editor of their own (also from one shared given document), or build, check, order and prune a graph of their own, give in two threads, however these are interleaved, the results each gives alone: editors and graphs share no state that one call leaves for another.",
 ["schedules","inputs"],"every pair of programs x every schedule with one interruption before any executed line of the library (quick: in the generic base class before any call) and every schedule with one interruption of each at calls up to three deep",
 "Tests are single-threaded, and a state leak only shows when a call is interrupted at a particular point by another editor's call.",
 [ED,AD,BT,DG,GV,GN],[("class tables, parsers and validators hold no per-call state",BT+", "+GV)],
 ["SpineAnimationEditor","DAGraph","SpineGraphContainer"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
out.write_text("".join(json.dumps(x)+"\n" for x in P))
