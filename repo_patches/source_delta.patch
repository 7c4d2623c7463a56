From d560017a0a0e0b0b3d1fc6c53f5e18e4e6fc0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:23 +0000
Subject: [PATCH 01/37] fix: order Spine versions by (major, minor, patch)

The ordering operators required every component to compare the same way, so
3.7.93 < 3.8 and 4.0 >= 3.8 were both false.
---
 spine_json_lib/data/spine_version_type.py | 32 +++++++++++------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c84d8f6 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -48,40 +48,40 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
+        return (self.major, self.minor, self.patch) < (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
+        return (self.major, self.minor, self.patch) > (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
+        return (self.major, self.minor, self.patch) <= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
+        return (self.major, self.minor, self.patch) >= (
+            _other.major,
+            _other.minor,
+            _other.patch,
         )
 
     def __cmp__(self, other):
-- 
2.43.0


From 04f5038a7ba854740a6a6d2056cd497025e715f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:28 +0000
Subject: [PATCH 02/37] fix: reject version strings that are not
 major.minor[.patch]

The dot was unescaped and the end unanchored, so for instance '333. 8' and
'3_1.8' were accepted as versions.
---
 spine_json_lib/data/spine_version_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index c84d8f6..a1e7895 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -1,7 +1,7 @@
 import re
 from typing import Tuple
 
-REGEX_TO_MATCH = re.compile(r"^\d+.\d+")
+REGEX_TO_MATCH = re.compile(r"^[0-9]+\.[0-9]+(\.[0-9]+)?\Z")
 
 
 class SpineVersion(object):
-- 
2.43.0


From 084a2e5bb1f5832a1bbce809c10f976e47b009e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:32 +0000
Subject: [PATCH 03/37] fix: use the format's defaults for transform scale
 offset and path spacing

Both are offsets/distances that a Spine loader takes as 0 when absent; with 1 as
the default an explicit 1 was dropped on export and read back as 0.
---
 spine_json_lib/data/data_types/path.py      | 6 +++---
 spine_json_lib/data/data_types/transform.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From 96a369190982e111f8b4b5668d0b8e193065a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:36 +0000
Subject: [PATCH 04/37] fix: keep event keyframe values that override the
 event's setup values

An event key without int/float/string takes the setup value of its event, so
dropping an explicit 0 or '' on export changed the value of the key.
---
 spine_json_lib/data/data_types/events.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..f25de4c 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,13 +18,12 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
+    # "int", "float" and "string" have no fixed default: an absent one takes the value
+    # of the event's setup definition, so an explicit 0 or "" has to be kept
+    DEFAULT_VALUES = {"name": ""}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
-- 
2.43.0


From 45002bf9447f118569a4eacdaeeb60ffecc4d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:57 +0000
Subject: [PATCH 05/37] fix: load documents whose bones, slots or skins section
 is left out

Empty sections are omitted on export (and by Spine), so for instance the export
of a skeleton all of whose slots had been removed could not be loaded again.
---
 spine_json_lib/data/spine_anim_data.py     | 6 +++---
 spine_json_lib/deserializer/spine_nodes.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..d5dd99c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -61,10 +61,10 @@ class SpineAnimationData(SpineData):
         _data = copy.deepcopy(data)
         del _data["skeleton"]
 
-        self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.bones: List[Bone] = [Bone(value) for value in _data.get("bones", [])]
+        self.slots: List[Slot] = [Slot(value) for value in _data.get("slots", [])]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
-            Skin38(value) for value in _data["skins"]
+            Skin38(value) for value in _data.get("skins", [])
         ]
 
         self.events: Dict[str, Events] = {
diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..435da30 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -293,7 +293,7 @@ class SpineGraphParser(IGraphParser):
     ) -> DAGraph:
         graph = DAGraph(node_factory)
 
-        for idx, bone_data in enumerate(json_data["bones"]):
+        for idx, bone_data in enumerate(json_data.get("bones", [])):
             cls.add_bone_to_graph(
                 graph=graph, bone_data=bone_data, idx=idx
             )
@@ -302,7 +302,7 @@ class SpineGraphParser(IGraphParser):
             node_slot = cls.add_slot_to_graph(graph=graph, slot_data=_slot_data, idx=idx)
 
             # Adding attachments as child to slots differentiating between versions:
-            for data in json_data["skins"]:
+            for data in json_data.get("skins", []):
                 skin_data = data.get("attachments")
                 if skin_data:
                     slot_skinned = skin_data.get(_slot_data["name"], [])
-- 
2.43.0


From f5458027e42fcce74b5e71cac8304e9f3abf661f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 06/37] fix: save to a bare file name

The directory part of such a path is empty, and creating it failed.
---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..6b17604 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,7 +218,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -254,7 +254,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From 4c91ed7ea653518cb0312404e04dc8d1e335edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:07 +0000
Subject: [PATCH 07/37] fix: find the root bone by its missing parent, not by
 its name

Skeletons whose root bone is not called 'root' could not be loaded (image scale
lookup) nor scaled, and a root with a non-inheriting transform was scaled twice.
---
 spine_json_lib/data/spine_anim_data.py   | 4 ++--
 spine_json_lib/spine_animation_editor.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index d5dd99c..55eef0d 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -99,8 +99,8 @@ class SpineAnimationData(SpineData):
         result_scale = 1.0
         iter_bone = bone
 
-        # This will iterate every bone up in tree looking for 'scale' until we found the root
-        while iter_bone.name != "root":
+        # This will iterate every bone up in tree looking for 'scale' until we pass the root
+        while iter_bone is not None:
             b_scale = iter_bone.get_scale_in_name()
             result_scale *= b_scale
             iter_bone = self.get_bone(iter_bone.parent)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6b17604..4a277ce 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -205,9 +205,12 @@ class SpineAnimationEditor(object):
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
 
-            if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
+            if bone.parent is None or bone.transform in [
+                "noScale",
+                "noScaleOrReflection",
+                "onlyTranslation",
+            ]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-        spine_data.get_bone("root").scale(scaleX=scaleX, scaleY=scaleY)
 
     @property
     def spine_version(self):
-- 
2.43.0


From 4feb7ebcb2299686e502fdc86949903fd26e9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:28 +0000
Subject: [PATCH 08/37] fix: a rejected erase_animations/erase_skins call
 leaves the animation untouched

Both erased the names found before raising for a missing one, skipping the
cleaning and leaving graph and image references out of step with the data.
---
 spine_json_lib/spine_animation_editor.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 4a277ce..7f07c5e 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -66,6 +66,16 @@ class SpineAnimationEditor(object):
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
         images_skins_refs = []
         skin_attachments_removed = {}
+        # Checked before erasing anything: a rejected call must not leave a half edited animation
+        skins_to_erase = list(dict.fromkeys(skins_to_erase))
+        for skin_name in skins_to_erase:
+            if self.spine_anim_data.data.get_skin(skin_name) is None:
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+
         for skin_name in skins_to_erase:
             (
                 skin_removed_images,
@@ -269,11 +279,10 @@ class SpineAnimationEditor(object):
         # Erasing animation from the json
         not_found_animations = []
         for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
-            else:
+            if animation_name not in self.spine_anim_data.data.animations:
                 not_found_animations.append(animation_name)
 
+        # Checked before erasing anything: a rejected call must not leave a half edited animation
         if not_found_animations and strict_mode:
             raise ValueError(
                 "Animations with ids {} could not be found inside the spine file".format(
@@ -281,6 +290,9 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        for animation_name in animations_to_erase:
+            self.spine_anim_data.data.animations.pop(animation_name, None)
+
     def _clean_images_references(self, images_ids: List[str]) -> None:
         copy_json = copy.deepcopy(self.images_references)
         removed_images = []
-- 
2.43.0


From 99f41675c15836c4387b38630b35fffe14675ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 09/37] fix: cleaning no longer undoes earlier edits of bones
 and slots

clean_animation writes bones, slots and ik back from a graph built when the file
was loaded, so scale_animation followed by an erase lost the scaling.
---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 7f07c5e..6de87f2 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -151,6 +151,10 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # The graph has to describe the current data: bones, slots and ik are written back from
+        # it below, which would otherwise undo any edition made since it was created (i.e. scaling)
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From 77feeb74e63748e49da5daebc0b343fd29f1a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 10/37] fix: clean skeletons with an animation that shows no
 slot

Without any slot visible by default nor any slot timeline there is nothing to
reduce, and erase_animations, erase_skins and clean_animation raised TypeError.
---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 55eef0d..b2883f8 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -295,7 +295,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From 18f87cc5751c7e2a4506729c4663b129a0c56869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:55 +0000
Subject: [PATCH 11/37] fix: keep what the setup pose shows when no animation
 is left

With no animation every slot counted as invisible, so erasing the last animation,
or a skin of a skeleton without animations, emptied the skeleton.
---
 spine_json_lib/data/spine_anim_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index b2883f8..fa6f22c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -282,7 +282,8 @@ class SpineAnimationData(SpineData):
         visible_slots = frozenset([])
         l_attachments_used = frozenset([])
 
-        for anim_id, anim_data in self.animations.items():
+        # Without animations what is shown is the setup pose, like in an animation without timelines
+        for anim_data in self.animations.values() or [Animation()]:
             (
                 anim_visible_slots,
                 anim_used_attachments,
-- 
2.43.0


From 411ec3f2ba459d10fc2f54c894899c6303e56b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 12/37] fix: a slot timeline without keys does not hide the
 slot

It leaves the slot in its setup pose, but visible slots with such a timeline in
every animation were erased.
---
 spine_json_lib/data/spine_anim_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index fa6f22c..3997a9c 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -234,6 +234,10 @@ class SpineAnimationData(SpineData):
         slots_dict = {slot.name: slot for slot in self.slots if slot.name}
 
         for slot_id, slot_data in anim_slots.items():
+            # A timeline without any key leaves the slot as it is in the setup pose
+            if not slot_data.attachment and not slot_data.has_color():
+                continue
+
             # By default we have to add the slot attachment base data as they are normally missing
             # in the json info for optimization
             slot_used_attachments = slot_data.get_used_attachments()
-- 
2.43.0


From 5d83c98ecd2989a94b442499015ae6a13875a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:17 +0000
Subject: [PATCH 13/37] fix: map graph ids of names containing a type suffix
 back to the right name

Every occurrence of the suffix was removed, so a slot named 'a_SLOT_b' was
reported as 'a_b' when cleaned and the references to it stayed behind.
---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index 435da30..e0f2e7c 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,4 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        return graph_id[: -len(_suffix)] if graph_id.endswith(_suffix) else graph_id
-- 
2.43.0


From c374f84981270985fe2cff918780c2b921d7d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:21 +0000
Subject: [PATCH 14/37] fix: clear the default attachment of slots when it is
 removed

Graph ids were looked up among attachment names, so removed attachments stayed
referenced, while removing 'a_ATTACHMENT' cleared the default attachment 'a'.
---
 spine_json_lib/spine_animation_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 6de87f2..b9d6ad6 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -346,10 +346,7 @@ class SpineAnimationEditor(object):
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
             if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
+                if default_attachment_id in attachments_ids:
                     copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
-- 
2.43.0


From 4b71e7ae931f0ca187676f1bd9b6776afbeeefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:39 +0000
Subject: [PATCH 15/37] fix: report and forget images named by their attachment
 key when erasing a skin

Region attachments without name and path were skipped, so their images stayed in
images_references, and such meshes were reported as an image called None.
---
 spine_json_lib/data/spine_anim_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 3997a9c..3441288 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -169,12 +169,12 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
+                    image_path = slot_data.path or slot_data.name or slot_id
                     if image_path is not None:
                         removed_attachments.setdefault(attachment_id, {})
                         removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
-- 
2.43.0


From 087c2b2092293201095605c4d3a596d3bee1fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:57 +0000
Subject: [PATCH 16/37] fix: decide which images are in use from the
 attachments left in the skins

Attachments with equal ids in different slots or skins share a graph node, and
path attachments have image nodes, so images nobody uses stayed referenced.
---
 spine_json_lib/spine_animation_editor.py | 28 +++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index b9d6ad6..d915119 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -95,19 +95,17 @@ class SpineAnimationEditor(object):
 
         # Check which attachments are not being used in the remaining skins
         images_to_remove = []
+        remaining_images = self.get_images_references()
 
         for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
+            if img not in remaining_images:
                 images_to_remove.append(img)
 
         if is_safe_mode:
             removed_data = [], []
         else:
             removed_data = self.clean_animation()
-        self._clean_images_references(images_ids=images_to_remove)
+        self._clean_images_references()
 
         return removed_data, images_to_remove
 
@@ -197,10 +195,10 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        self._clean_images_references()
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
@@ -297,18 +295,18 @@ class SpineAnimationEditor(object):
         for animation_name in animations_to_erase:
             self.spine_anim_data.data.animations.pop(animation_name, None)
 
-    def _clean_images_references(self, images_ids: List[str]) -> None:
-        copy_json = copy.deepcopy(self.images_references)
-        removed_images = []
-        for img_id, img_abs_path in self.images_references.items():
-            if img_id in images_ids:
-                removed_images.append(img_id)
-                del copy_json[img_id]
+    def _clean_images_references(self) -> None:
+        # What is used is decided by the attachments left in the skins: in the graph every attachment
+        # with the same id shares a node, which keeps the images of all of them
+        images_references = self.get_images_references()
+        removed_images = [
+            img_id for img_id in self.images_references if img_id not in images_references
+        ]
 
         if removed_images:
             print("Removed images: {}".format(removed_images))
 
-        self.images_references = copy_json
+        self.images_references = images_references
 
     def _clean_slots_in_skins(self, slots_ids: List[str]) -> None:
         skins_data = copy.deepcopy(self.spine_anim_data.data.skins)
-- 
2.43.0


From 6e340677cd5ba93996b1b9ceba8ac0b0e8378dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:16 +0000
Subject: [PATCH 17/37] fix: copy the right mesh into linked meshes when their
 skin is erased

The mesh was looked up under the linked mesh's own id instead of its 'parent'
(KeyError or the wrong mesh), links to the default skin by omission were left
dangling, and the linked mesh took the colour of the mesh copied.
---
 spine_json_lib/data/spine_anim_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 3441288..4240e87 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -144,22 +144,24 @@ class SpineAnimationData(SpineData):
             for attachment_id, attachment in skin.attachments.items():
                 attachment_data = copy.deepcopy(attachment)
                 for slot_id, slot_data in attachment_data.items():
+                    # Without skin attribute the mesh linked is the one in the default skin
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or "default") == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent or slot_id]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From 9cc5663ee18e912c325d9dbb41df36140641371b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:21 +0000
Subject: [PATCH 18/37] fix: keep the deforms a linked mesh inherits when its
 skin is erased

The mesh was copied into the linked mesh, but its deform timelines were erased
with the skin, which left the linked mesh without animation.
---
 spine_json_lib/data/spine_anim_data.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 4240e87..b457c9d 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -165,6 +165,21 @@ class SpineAnimationData(SpineData):
 
                         attachment[slot_id] = copied_mesh
 
+                        # Deforms inherited from the mesh have to be copied with it
+                        if slot_data.deform is not False:
+                            for anim_data in self.animations.values():
+                                mesh_deform = (
+                                    anim_data.deform.get(skin_name, {})
+                                    .get(attachment_id, {})
+                                    .get(slot_data.parent or slot_id)
+                                )
+                                if mesh_deform is not None:
+                                    anim_data.deform.setdefault(
+                                        skin.name, {}
+                                    ).setdefault(attachment_id, {})[
+                                        slot_id
+                                    ] = copy.deepcopy(mesh_deform)
+
         # Get images removed from spine
         removed_images = []
         removed_attachments = {}
-- 
2.43.0


From 752f75e1e67954dba2b2e70ff1db54d05ae17853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:44 +0000
Subject: [PATCH 19/37] fix: load region, point, clipping and bounding box
 attachments

They are listed as supported, but an explicit 'region' type was refused and the
other classes refused the 'type' attribute every such attachment carries; they
have no image and so no entry in images_references.
---
 spine_json_lib/data/data_types/skin.py   |  9 ++++++++-
 spine_json_lib/spine_animation_editor.py | 11 +++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 0b91870..d7a473d 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -44,7 +44,7 @@ def parse_skin_attachment_data(attachments):
                 result[attach_id][slot_id] = SkinClipping(values=skin_data)
             elif skin_data_type == BOUNDING_BOX_TYPE:
                 result[attach_id][slot_id] = SkinBoundingBox(values=skin_data)
-            elif skin_data_type is None:
+            elif skin_data_type is None or skin_data_type == REGION_TYPE:
                 result[attach_id][slot_id] = SkinAttachment(values=skin_data)
             else:
                 raise ValueError(
@@ -98,6 +98,7 @@ class SkinAttachment(SpineData):
         self.name = values.get("name")
         self.path = values.get("path")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinAttachment, self).__init__(values)
 
@@ -184,6 +185,8 @@ class SkinBoundingBox(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.name: str = values.get("name")
+        self.type: str = values.get("type")
 
         super(SkinBoundingBox, self).__init__(values)
 
@@ -199,6 +202,8 @@ class SkinPoint(SpineData):
         self.y = values.get("y")
         self.rotation = values.get("rotation")
         self.color = values.get("color")
+        self.name: str = values.get("name")
+        self.type: str = values.get("type")
 
         super(SkinPoint, self).__init__(values)
 
@@ -214,5 +219,7 @@ class SkinClipping(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.name: str = values.get("name")
+        self.type: str = values.get("type")
 
         super(SkinClipping, self).__init__(values)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index d915119..3c589e9 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -8,7 +8,11 @@ from typing import List, TypeVar
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.data_types.bone import Bone
 from spine_json_lib.data.data_types.ik import Ik
-from spine_json_lib.data.data_types.skin import SkinPath
+from spine_json_lib.data.data_types.skin import (
+    SkinAttachment,
+    SkinLinkedMesh,
+    SkinMesh,
+)
 from spine_json_lib.data.data_types.slot import Slot
 from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
@@ -254,7 +258,10 @@ class SpineAnimationEditor(object):
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
                     skin_sub_part_instance = skin_data[part_name][sub_part_key]
-                    if not isinstance(skin_sub_part_instance, SkinPath):
+                    if isinstance(
+                        skin_sub_part_instance,
+                        (SkinAttachment, SkinMesh, SkinLinkedMesh),
+                    ):
                         relative_path = (
                             skin_sub_part_instance.path
                             or skin_sub_part_instance.name
-- 
2.43.0


From a541cf8475a294c8406ac45f2d4d5d5efb056581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:35 +0000
Subject: [PATCH 20/37] fix: never clean slots that path constraints or
 clipping attachments refer to

A hidden or empty slot was removed even if it is the target of a path constraint
or the end of a clipping attachment; such a file cannot be loaded by Spine.
---
 spine_json_lib/data/spine_anim_data.py   | 18 +++++++++++++++++-
 spine_json_lib/spine_animation_editor.py |  5 ++++-
 spine_json_lib/spine_graph_container.py  | 18 +++++++++++++-----
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index b457c9d..6fe1c63 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -13,6 +13,7 @@ from spine_json_lib.data.data_types.skin import (
     SkinLinkedMesh,
     SkinAttachment,
     SkinMesh,
+    SkinClipping,
 )
 from spine_json_lib.data.data_types.slot import Slot, SlotTimeline
 from spine_json_lib.data.data_types.transform import Transform
@@ -219,6 +220,21 @@ class SpineAnimationData(SpineData):
                     not_visible_slots.append(slot.name)
         return not_visible_slots
 
+    def get_slots_referenced(self) -> FrozenSet[str]:
+        """
+        Return the ids of slots needed by other elements of the animation no matter if they are
+        visible: a path constraint or a clipping attachment cannot be loaded without them
+        """
+        path_targets = [path.target for path in self.path]
+        clipping_ends = [
+            attachment.end
+            for skin in self.skins
+            for slot_attachments in skin.attachments.values()
+            for attachment in slot_attachments.values()
+            if isinstance(attachment, SkinClipping)
+        ]
+        return frozenset(path_targets + clipping_ends)
+
     def get_slots_not_visible_in_setup_pose(self) -> List[str]:
         """
         Return a list of not visible slots in setup mode
@@ -320,7 +336,7 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
-        invisible_slots = slots_set - visible_slots
+        invisible_slots = slots_set - visible_slots - self.get_slots_referenced()
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
 
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 3c589e9..57d97f4 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -170,7 +170,10 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_slots_referenced(),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..50fa1be 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,21 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=()) -> List[str]:
         """
-        Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        Removing from graph every node leaves of type @type_name recursively, except the ones
+        in @ids_to_keep, and return the list of ids
         """
+        nodes_to_keep = [
+            SpineGraphParser._to_graph_id(type_name, base_id) for base_id in ids_to_keep
+        ]
+
+        def get_leafs_to_remove():
+            leafs = self.get_leafs_of_type(node_type=type_name)
+            return [s_id for s_id in leafs if s_id not in nodes_to_keep]
+
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = get_leafs_to_remove()
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +80,7 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = get_leafs_to_remove()
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From 7d75fddf76012c0af3284d4274f04f36f564f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:39 +0000
Subject: [PATCH 21/37] fix: do not clean transparent slots with path,
 clipping, point or bounding box attachments

These attachments work whatever the colour of their slot: removing them changed
bones under path constraints, what is clipped and what can be hit.
---
 spine_json_lib/data/spine_anim_data.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 6fe1c63..987d38f 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -210,11 +210,21 @@ class SpineAnimationData(SpineData):
 
     def get_slots_with_alpha_zero(self) -> List[str]:
         """
-        Return a list of id of slots with alpha set as 0 on color info attrib
+        Return a list of id of slots with alpha set as 0 on color info attrib.
+        Slots with attachments that work no matter their color (paths, clippings...) are left out
         """
+        colorless_slots = [
+            slot_id
+            for skin in self.skins
+            for slot_id, attachments in skin.attachments.items()
+            if not all(
+                isinstance(attachment, (SkinAttachment, SkinMesh, SkinLinkedMesh))
+                for attachment in attachments.values()
+            )
+        ]
         not_visible_slots = []
         for slot in self.slots:
-            if slot.color is not None:
+            if slot.color is not None and slot.name not in colorless_slots:
                 alpha_value = int("0x{}".format(slot.color), 16) & 0xFF
                 if alpha_value == 0:
                     not_visible_slots.append(slot.name)
-- 
2.43.0


From 2dca8649b66cf9f87f2f02cafe4d312f3768a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:45 +0000
Subject: [PATCH 22/37] fix: do not remove a kept mesh because another slot has
 an unused attachment of its id

Attachments are removed by id from all slots, so the mesh that linked meshes of a
visible slot borrow from could be removed, leaving a file Spine cannot load.
---
 spine_json_lib/data/spine_anim_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 987d38f..c624b26 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -349,6 +349,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots - self.get_slots_referenced()
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        attachments_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -362,7 +363,10 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            attachments_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        # Attachments are removed by id from every slot, so also the skinmeshes to be kept would go
+        # when another slot has an unused attachment with the same id
+        return invisible_slots, attachments_to_remove - attachments_to_keep
-- 
2.43.0


From 281e5b8a65bf96d856f781a98c89a16a4f95c49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:52 +0000
Subject: [PATCH 23/37] fix: keep unmoved slots in the draw order offsets when
 their place depends on it

After removing slots every offset of 0 was dropped, but an unlisted slot takes
the next free position, which can be another one: the draw order changed.
---
 spine_json_lib/data/data_types/draworder.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..9697129 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -79,11 +79,24 @@ class DrawOrderTimeline(SpineData):
             index_final = clean_reordered_slots.index(name)
             slot_offset.offset = index_final - index_original
 
-        return [
+        offsets = [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
+        moved_offsets = [offset for offset in offsets if offset.offset != 0]
+
+        # Slots not listed take the positions left in their original order, so a slot that is not
+        # moved can only be left out of the list if that order puts it in its place
+        remaining_slots = [
+            slot for slot in original_slots if slot.name not in slots_to_be_removed
+        ]
+        order_of_moved = DrawOrderTimeline._reorder_slots_with_offset(
+            {offset.slot: offset for offset in moved_offsets}, remaining_slots
+        )
+        if [slot.name for slot in order_of_moved] == clean_reordered_slots:
+            return moved_offsets
+        return offsets
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
         """
-- 
2.43.0


From b6438c256fc2f9fc9e9a4dde04ef24df042e3d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:14 +0000
Subject: [PATCH 24/37] fix: sequential order lists every node once and after
 all its parents

While a node waited for a parent, that parent's other children were already
visited, which could put a child before its parent; heads reached from another
head were listed twice.
---
 spine_json_lib/graph/dagraph.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..44f7d60 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -210,17 +210,27 @@ class DAGraph(object):
                 dependency between nodes to be able to execute them in this order
         """
         visited = set()
+        ordered = set()
 
         result_nodes = []
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
+        def add_to_order(node: SpamNode) -> None:
+            # Adds a node after all its parents. Children are not followed here: they could depend
+            # on a node that is still waiting for another of its parents
+            ordered.add(node.id)
 
             for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
+                if parent not in ordered:
+                    add_to_order(self.get_node(parent))
 
             result_nodes.append(node.id)
+
+        def visit(node: SpamNode) -> None:
+            visited.add(node.id)
+
+            if node.id not in ordered:
+                add_to_order(node)
+
             for child in node.children:
                 if child not in visited:
                     visit(self.get_node(child))
-- 
2.43.0


From c46573af8cb6d226f2c6baf5461c46a11aa1e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:19 +0000
Subject: [PATCH 25/37] fix: hash graph nodes, and compare root node types by
 value

hash(node) raised TypeError as __hash__ returned the id string, and a root type
string that is equal but not the same object counted as unconnected.
---
 spine_json_lib/graph/graph_validator.py | 2 +-
 spine_json_lib/graph/spamnode.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From 66fcc8f2b06c416c3a8e9d6161525dc1fdff6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 26/37] fix: reject required attributes that are null

---
 spine_json_lib/data/data_types/base_type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/base_type.py b/spine_json_lib/data/data_types/base_type.py
index 1820067..250131c 100644
--- a/spine_json_lib/data/data_types/base_type.py
+++ b/spine_json_lib/data/data_types/base_type.py
@@ -53,7 +53,9 @@ class SpineData(object):
                 )
             )
 
-        missing_required_attrs = set(self.REQUIRED).difference(set(values.keys()))
+        missing_required_attrs = {
+            attr for attr in self.REQUIRED if values.get(attr) is None
+        }
         if missing_required_attrs:
             raise SpineParsingException(
                 message=f"Internal Error: missing required attributes {missing_required_attrs} "
-- 
2.43.0


From e21fafe80c8251953d9baa02240a0578cc4c52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 27/37] fix: a rejected scale_animation call leaves the
 animation untouched

---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 57d97f4..e317e22 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -218,6 +218,10 @@ class SpineAnimationEditor(object):
         self._clean_attachments_in_slots(attachments_ids=attachments_ids)
 
     def scale_animation(self, scaleX, scaleY):
+        # Checked before scaling anything: a rejected call must not leave a half edited animation
+        if not isinstance(scaleX, (int, float)) or not isinstance(scaleY, (int, float)):
+            raise TypeError("scaleX and scaleY need to be numbers")
+
         # To scale the animation we have to scale the root bone,
         # but also all the bones with 'noScale', 'onlyTranslation' and 'noScaleOrReflection'
         # attributes as these don't inherit scale from parent roots
-- 
2.43.0


From cdeb8ae3b952b42abd1a77ac08f414a46a09a72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:39 +0000
Subject: [PATCH 28/37] fix: save to a path with .. through a folder that has
 to be created

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index e317e22..d9051ea 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -245,7 +245,7 @@ class SpineAnimationEditor(object):
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
         if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(output_json, "w") as outfile:
             json.dump(self.to_json_data(), outfile, indent=4)
@@ -284,7 +284,7 @@ class SpineAnimationEditor(object):
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
         if base_dir and not os.path.isdir(base_dir):
-            os.makedirs(base_dir)
+            os.makedirs(base_dir, exist_ok=True)
 
         with open(images_json, "w") as outfile:
             json.dump(self.images_references, outfile)
-- 
2.43.0


From 2e2593626436aee307eb5ae9cf026b1e3ae3c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:16 +0000
Subject: [PATCH 29/37] fix: spell out path keyframe times and deform offsets
 for older versions

---
 spine_json_lib/data/data_types/deform.py | 2 +-
 spine_json_lib/data/data_types/path.py   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/deform.py b/spine_json_lib/data/data_types/deform.py
index 85c34aa..8635f9f 100644
--- a/spine_json_lib/data/data_types/deform.py
+++ b/spine_json_lib/data/data_types/deform.py
@@ -9,7 +9,7 @@ class Deform(SpineData):
         "time": 0,
         "vertices": [],
         "curve": [],
-        "offset": [],
+        "offset": 0,
         "c2": 0,
         "c3": 1,
         "c4": 1,
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index e6afc19..fbf26b0 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -41,6 +41,7 @@ class Path(SpineData):
 class PathTimeline(SpineData):
     DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
+        "time": 0,
         "position": 0,
         "spacing": 0,
         "rotateMix": 1,
-- 
2.43.0


From db8f1143399b02d76b8fb405fe22379837bad554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:16 +0000
Subject: [PATCH 30/37] fix: clear the unsupported curve parameters of every
 kind of keyframe

---
 spine_json_lib/data/data_types/deform.py    | 1 +
 spine_json_lib/data/data_types/path.py      | 1 +
 spine_json_lib/data/data_types/transform.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/spine_json_lib/data/data_types/deform.py b/spine_json_lib/data/data_types/deform.py
index 8635f9f..7b29b26 100644
--- a/spine_json_lib/data/data_types/deform.py
+++ b/spine_json_lib/data/data_types/deform.py
@@ -5,6 +5,7 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 class Deform(SpineData):
     DEFAULT_VALUES: Dict[str, Any] = {"vertices": [], "curve": []}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = {
         "time": 0,
         "vertices": [],
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index fbf26b0..cfba2e5 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -40,6 +40,7 @@ class Path(SpineData):
 
 class PathTimeline(SpineData):
     DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
         "position": 0,
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index a6b4017..27f1e94 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -46,6 +46,7 @@ class Transform(SpineData):
 
 class TransformTimeline(SpineData):
     DEFAULT_VALUES: Dict[str, Any] = {"curve": []}
+    UNSUPPORTED_VALUES_OLD_VERSION = ["c2", "c3", "c4"]
 
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = {
         "curve": [],
-- 
2.43.0


From 2a5506f563953c28cdddf04465116fd29768b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 31/37] fix: export names and references that are the empty
 string

---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 spine_json_lib/data/data_types/events.py    | 3 +--
 spine_json_lib/data/data_types/ik.py        | 2 --
 spine_json_lib/data/data_types/path.py      | 2 --
 spine_json_lib/data/data_types/skin.py      | 2 +-
 spine_json_lib/data/data_types/transform.py | 3 ---
 6 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index 9697129..c1cf331 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -6,7 +6,7 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 
 class DrawOrderTimelineOffset(SpineData):
-    DEFAULT_VALUES: Dict[str, Any] = {"slot": ""}
+    DEFAULT_VALUES: Dict[str, Any] = {}
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = DEFAULT_VALUES
 
     REQUIRED: List[str] = ["offset"]
diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index f25de4c..c88a247 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -20,10 +20,9 @@ class Events(SpineData):
 class EventTimeline(SpineData):
     # "int", "float" and "string" have no fixed default: an absent one takes the value
     # of the event's setup definition, so an explicit 0 or "" has to be kept
-    DEFAULT_VALUES = {"name": ""}
+    DEFAULT_VALUES = {}
     SPINE_3_8_DEFAULT_VALUES = {
         "time": 0,
-        "name": "",
         "audio": "",
         "volume": 1,
         "balance": 0,
diff --git a/spine_json_lib/data/data_types/ik.py b/spine_json_lib/data/data_types/ik.py
index aaf8371..d311382 100644
--- a/spine_json_lib/data/data_types/ik.py
+++ b/spine_json_lib/data/data_types/ik.py
@@ -5,10 +5,8 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 class Ik(SpineData):
     DEFAULT_VALUES = {
-        "name": "",
         "order": 0,
         "bones": [],
-        "target": "",
         "bendPositive": True,
         "softness": 0,
         "compress": False,
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index cfba2e5..25d1aac 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -3,9 +3,7 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 class Path(SpineData):
     DEFAULT_VALUES = {
-        "name": "",
         "bones": [],
-        "target": "",
         "positionMode": "",
         "spacingMode": "",
         "rotateMode": "",
diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index d7a473d..4f5bab3 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -56,7 +56,7 @@ def parse_skin_attachment_data(attachments):
 
 
 class Skin38(SpineData):
-    DEFAULT_VALUES: Dict[str, Any] = {"name": "", "attachments": {}}
+    DEFAULT_VALUES: Dict[str, Any] = {"attachments": {}}
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = DEFAULT_VALUES
 
     def __init__(self, values: Dict[str, Any] = None) -> None:
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index 27f1e94..5f5d3c3 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -5,10 +5,7 @@ from spine_json_lib.data.data_types.base_type import SpineData
 
 class Transform(SpineData):
     DEFAULT_VALUES: Dict[str, Any] = {
-        "name": "",
         "order": 0,
-        "bone": "",
-        "target": "",
         "rotation": 0,
         "x": 0,
         "y": 0,
-- 
2.43.0


From 52239c8e6fb510eb849fe5ac8b2d778b0886ca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 32/37] fix: accept timelines of a slot whose name is the empty
 string

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c624b26..efdf0af 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -274,7 +274,7 @@ class SpineAnimationData(SpineData):
             slot.name: frozenset([slot.attachment]) for slot in anim_list_visible_slots
         }
 
-        slots_dict = {slot.name: slot for slot in self.slots if slot.name}
+        slots_dict = {slot.name: slot for slot in self.slots}
 
         for slot_id, slot_data in anim_slots.items():
             # A timeline without any key leaves the slot as it is in the setup pose
-- 
2.43.0


From 7645f0a777f4a4c2bafae729577de4a8ed726f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:36 +0000
Subject: [PATCH 33/37] fix: copy the mesh a linked mesh of the empty name's
 mesh is linked to

---
 spine_json_lib/data/spine_anim_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index efdf0af..0498b17 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -153,9 +153,12 @@ class SpineAnimationData(SpineData):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
+                        parent_id = (
+                            slot_id if slot_data.parent is None else slot_data.parent
+                        )
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_data.parent or slot_id]
+                        ][parent_id]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
@@ -172,7 +175,7 @@ class SpineAnimationData(SpineData):
                                 mesh_deform = (
                                     anim_data.deform.get(skin_name, {})
                                     .get(attachment_id, {})
-                                    .get(slot_data.parent or slot_id)
+                                    .get(parent_id)
                                 )
                                 if mesh_deform is not None:
                                     anim_data.deform.setdefault(
-- 
2.43.0


From 65ce41fb9669e3f85ee985a4e1d575bf2850b611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 34/37] fix: graphs with more nodes in a row than nested calls
 allowed cannot be edited

---
 spine_json_lib/graph/dagraph.py         | 101 +++++++++++++-----------
 spine_json_lib/graph/graph_validator.py |  33 +++++---
 2 files changed, 77 insertions(+), 57 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 44f7d60..cf2c0e8 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -175,33 +175,28 @@ class DAGraph(object):
             )
 
         paths = list()
+        path = list()
         visited = set()
+        pending = [iter([node_start])]
+
+        # Not recursive: there could be more nodes in a row than python allows nested calls
+        while pending:
+            for node_id in pending[-1]:
+                if node_id in visited or len(path) >= maximum_depth:
+                    continue
+                if node_id == node_end:
+                    paths.append(path + [node_id])
+                    continue
+
+                visited.add(node_id)
+                path.append(node_id)
+                pending.append(iter(self._nodes[node_id].children))
+                break
+            else:
+                pending.pop()
+                if path:
+                    visited.remove(path.pop())
 
-        def _look_for_paths(
-            start: str, end: str, path: List[str], depth: int, graph: DAGraphType
-        ) -> None:
-            if depth > maximum_depth:
-                return
-
-            if start == end:
-                paths.append(path + [start])
-                return
-
-            visited.add(start)
-            path.append(start)
-
-            for child_id in graph._nodes[start].children:
-                if child_id not in visited:
-                    _look_for_paths(
-                        start=child_id, end=end, path=path, depth=depth + 1, graph=graph
-                    )
-
-            visited.remove(start)
-            path.remove(start)
-
-        _look_for_paths(
-            start=node_start, end=node_end, path=list(), depth=1, graph=self
-        )
         return paths
 
     def sequential_order_of_execution(self) -> List[str]:
@@ -218,22 +213,33 @@ class DAGraph(object):
             # Adds a node after all its parents. Children are not followed here: they could depend
             # on a node that is still waiting for another of its parents
             ordered.add(node.id)
+            pending = [(node.id, iter(node.parents))]
 
-            for parent in node.parents:
-                if parent not in ordered:
-                    add_to_order(self.get_node(parent))
+            while pending:
+                node_id, parents = pending[-1]
+                for parent in parents:
+                    if parent not in ordered:
+                        ordered.add(parent)
+                        pending.append((parent, iter(self.get_node(parent).parents)))
+                        break
+                else:
+                    pending.pop()
+                    result_nodes.append(node_id)
 
-            result_nodes.append(node.id)
+        def visit(head: SpamNode) -> None:
+            pending = [head]
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
+            while pending:
+                node = pending.pop()
+                if node.id in visited:
+                    continue
 
-            if node.id not in ordered:
-                add_to_order(node)
+                visited.add(node.id)
 
-            for child in node.children:
-                if child not in visited:
-                    visit(self.get_node(child))
+                if node.id not in ordered:
+                    add_to_order(node)
+
+                pending.extend(reversed(list(node.children.values())))
 
         for head_id in self.get_heads_id():
             visit(self.get_node(head_id))
@@ -252,19 +258,22 @@ class DAGraph(object):
         result_nodes = []
         visited = set()
 
-        def visit(node: SpamNode) -> None:
-            if node.id in visited:
-                return
+        def visit(start: SpamNode) -> None:
+            # Not recursive: there could be more nodes in a row than python allows nested calls
+            pending = [start]
+
+            while pending:
+                node = pending.pop()
+                if node.id in visited:
+                    continue
 
-            visited.add(node.id)
-            related_nodes = getattr(node, look_for)
+                visited.add(node.id)
+                related_nodes = getattr(node, look_for)
 
-            if not related_nodes:
-                result_nodes.append(node.id)
-                return
+                if not related_nodes:
+                    result_nodes.append(node.id)
 
-            for n_id, n in related_nodes.items():
-                visit(n)
+                pending.extend(reversed(list(related_nodes.values())))
 
         for node_id, node_data in self._nodes.items():
             visit(node_data)
diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index 6fd8a5c..5215fda 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -88,19 +88,30 @@ class GraphValidator(object):
         path = list()
         visited_nodes: Set = set()
 
-        def visit(node: SpamNode) -> List:
-            if node.id in visited_nodes:
+        def visit(start: SpamNode) -> List:
+            if start.id in visited_nodes:
                 return []
 
-            visited_nodes.add(node.id)
-            path.append(node.id)
-
-            for children_id, children in node.children.items():
-                path_to_visit = visit(children)
-                if children_id in path or path_to_visit:
-                    path_to_visit += [children_id]
-                    return path_to_visit
-            path.pop()
+            # Not recursive: there could be more nodes in a row than python allows nested calls
+            pending = []
+
+            def enter(node: SpamNode) -> None:
+                visited_nodes.add(node.id)
+                path.append(node.id)
+                pending.append(iter(node.children.items()))
+
+            enter(start)
+            while pending:
+                for children_id, children in pending[-1]:
+                    if children.id not in visited_nodes:
+                        enter(children)
+                        break
+                    if children_id in path:
+                        nodes_entered = path[-len(pending) :]
+                        return [children_id] + nodes_entered[:0:-1]
+                else:
+                    pending.pop()
+                    path.pop()
             return []
 
         circle_references: List[Any] = []
-- 
2.43.0


From d7fda1a4138da9d55c4c122799987ef4e8d8e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 35/37] fix: read skeleton files as UTF-8 whatever the encoding
 of the locale

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/spine_animation_editor.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index e0f2e7c..b1f5b4e 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -125,7 +125,7 @@ class SpineGraphParser(IGraphParser):
         cls, json_file: str, node_factory: SpineNodeFactory
     ) -> DAGraph:
         # Parse json
-        with open(json_file) as f:
+        with open(json_file, encoding="utf-8") as f:
             json_data = json.load(f)
 
         return SpineGraphParser.create_from_json_data(
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index d9051ea..b4d1302 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -62,7 +62,7 @@ class SpineAnimationEditor(object):
 
     @staticmethod
     def from_json_file(json_path: str) -> SpineAnimationEditorType:
-        with open(json_path) as f:
+        with open(json_path, encoding="utf-8") as f:
             spine_json_data = json.load(f)
 
         return SpineAnimationEditor(json_data=spine_json_data)
-- 
2.43.0


From 121ae3e27bc697335841c32b6e8ac15373c9aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:13 +0000
Subject: [PATCH 36/37] fix: edits of names the standard output cannot encode
 stop half way

---
 spine_json_lib/spine_animation_editor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index b4d1302..28d2b7e 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -187,7 +187,7 @@ class SpineAnimationEditor(object):
         self.remove_slots(
             slots_ids=slots_to_remove, original_slots=slots_before_removing
         )
-        print("Removed slots {}".format(slots_to_remove))
+        print("Removed slots {!a}".format(slots_to_remove))
 
         self.remove_attachments(attachments_ids=attachments_to_remove)
         detached_attachments = self.spine_graph.remove_heads_of_type(
@@ -197,7 +197,7 @@ class SpineAnimationEditor(object):
             NodeType.ATTACHMENT.name
         )
         print(
-            "Removed attachments {}".format(
+            "Removed attachments {!a}".format(
                 list(attachments_to_remove) + detached_attachments
             )
         )
@@ -318,7 +318,7 @@ class SpineAnimationEditor(object):
         ]
 
         if removed_images:
-            print("Removed images: {}".format(removed_images))
+            print("Removed images: {!a}".format(removed_images))
 
         self.images_references = images_references
 
-- 
2.43.0


From 6973e3cfb249f6385c8a2e291da60512308ba10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:44 +0000
Subject: [PATCH 37/37] fix: load IK constraints without bones

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index b1f5b4e..bf1e96c 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -268,7 +268,7 @@ class SpineGraphParser(IGraphParser):
         )
 
         # Getting optional parents for ik
-        for child_bone_id in ik_data["bones"]:
+        for child_bone_id in ik_data.get("bones", []):
             child_id = SpineGraphParser._to_graph_id(
                 node_type_name=NodeType.BONE.name, node_base_id=child_bone_id
             )
-- 
2.43.0

