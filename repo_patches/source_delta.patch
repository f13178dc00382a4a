From bde020e6113836e68be47010b51e4087fb7fb8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:18 +0000
Subject: [PATCH 01/52] fix: custom_classes returns classes in the requested
 order of names

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From a8e6cd09417c3df4eb680cb559cd5af9fb1bf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:22 +0000
Subject: [PATCH 02/52] fix: PointsGroup.xmax is the latest time, not the
 latest first point

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..adefbd7 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -318,7 +318,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From c03d99316207a0910738a84d753f045f57ca7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:27 +0000
Subject: [PATCH 03/52] fix: a SequencePointTier made from another keeps its
 current points

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index adefbd7..3e49f7f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From bf3b7990baffba97c96dd7bb2c476721923296b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:32 +0000
Subject: [PATCH 04/52] fix: point distances are defined when the neighbour is
 at time 0

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From b5b152ae22645db351e76d41abb1e609fd016020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 05/52] fix: popping from a top tier resets precedence for
 every hierarchy

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..ca6c8a9 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -171,7 +171,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
+            if issubclass(self.superset_class, Top):
                 self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 137fa6b5558844326c777ab77c3dda65bee61b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:00 +0000
Subject: [PATCH 06/52] fix: SequenceList.append keeps the list sorted when an
 entry starts at 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..93af963 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if len(self.starts) > 0 and all([s is not None for s in self.starts]):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From fbf7f64a10f0a3e573ca7c9c720ac0038c6328b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:04 +0000
Subject: [PATCH 07/52] fix: SequenceList.concat keeps its values in a plain
 list

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 93af963..81e8e09 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 23d401dd43945f27cc235c9b4fd480b59c7e1d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 08/52] fix: entry classes may have Top or Bottom in their
 names

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..ef3b8c8 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -50,7 +50,7 @@ class HierarchyMixins:
         """
         if superset_class is None:
             cls.superset_class = None
-        elif "Top" in cls.__name__ :
+        elif issubclass(cls, Top):
             cls.superset_class = None
         elif issubclass(superset_class, HierarchyPart) and not superset_class is cls:
             cls.superset_class = superset_class
@@ -76,7 +76,7 @@ class HierarchyMixins:
 
         if subset_class is None:
             cls.subset_class = None
-        elif "Bottom" in cls.__name__:
+        elif issubclass(cls, Bottom):
             cls.subset_class = None
         elif issubclass(subset_class, HierarchyPart) and not subset_class is cls:
             cls.subset_class = subset_class
-- 
2.43.0


From 71d02d99f6842222615a0e105346067b693f2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:11 +0000
Subject: [PATCH 09/52] fix: concat works for PointsGroups and keeps entries
 equal to existing ones

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..17e06fe 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,9 +297,7 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
-                    continue
-                if interval in t1:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
                 interval._shift(increment)
                 t1.append(interval)
-- 
2.43.0


From c74f8fd8ef7933937bed753a5a6c8f42aa8ee34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 10/52] fix: points appended or concatenated to a
 SequencePointTier join its precedence

---
 src/aligned_textgrid/points/tiers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 3e49f7f..006efd9 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -100,11 +100,11 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         self.name = name
         entry_order = np.argsort([x.time for x in self.entry_list])
         self.entry_list = [self.entry_list[idx] for idx in entry_order]
-        self.sequence_list = SequenceList()
+        self._sequence_list = SequenceList()
        
         for entry in self.entry_list:
             this_point = self.entry_class._cast(entry)
-            self.sequence_list.append(this_point)
+            self._sequence_list.append(this_point)
         self.__set_precedence()
     
     def __getitem__(self, idx):
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+    
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From 727cbf8cc40666dc6399db468f14317090a22f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 11/52] fix: adding to a related tier keeps precedence within
 superset intervals

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ca6c8a9..97df079 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -136,13 +136,15 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
 
     def __set_precedence(self)->None:
+        supers = [seq.super_instance for seq in self._sequence_list]
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            # precedence does not cross the edges of superset intervals
+            if idx == 0 or supers[idx-1] is not supers[idx]:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == len(self._sequence_list)-1 or supers[idx+1] is not supers[idx]:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From eaed8fe6580c5c9854d67324145dfc61884e6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:01 +0000
Subject: [PATCH 12/52] fix: tiers of a TierGroup with a partial hierarchy are
 within the group

---
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 97df079..419618f 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -570,7 +570,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From 53234194a4bd557f8f6fe8f747d818306c437a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:06 +0000
Subject: [PATCH 13/52] fix: named group accessors follow interleave_class and
 pop_class

---
 src/aligned_textgrid/aligned_textgrid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..5b3b67f 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -648,6 +648,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -731,6 +732,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups            
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From a725069bb68dfd8558180277a313b904a3e9267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:31 +0000
Subject: [PATCH 14/52] fix: popping the only class of a textgrid removes its
 tier groups

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 5b3b67f..17188a3 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -375,9 +375,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        if len(new) < 1:
-            return
-        
         self._tier_groups = new
         self.contains = self.tier_groups
 
-- 
2.43.0


From e082dcba640a003cc0c8d08504cca779f3dd3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:28 +0000
Subject: [PATCH 15/52] fix: intervals added by SequenceTier.cleanup belong to
 the tier

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 419618f..91f0f6e 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -247,8 +247,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], self.starts)]
         new_ends = boundaries[1:][~np.isin(boundaries[1:], self.ends)]
         for s,e in zip(new_starts, new_ends):
-            new = self.entry_class((s, e, ""))
-            self.sequence_list.append(new)
+            ## triggers precedence resetting
+            self.sequence_list += [self.entry_class((s, e, ""))]
 
         if issubclass(self.subset_class, Bottom):
             if self.within:
-- 
2.43.0


From a2beedcaf0dfd7d27af206020baca5865533afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:35 +0000
Subject: [PATCH 16/52] fix: AlignedTextGrid.cleanup pads interval tier groups
 to equal extents

---
 src/aligned_textgrid/aligned_textgrid.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 17188a3..a31a392 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -470,6 +470,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tg.cleanup()
             
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            if len(interval_tgs) < 1:
+                return
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
@@ -477,7 +479,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -491,8 +493,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
@@ -504,8 +506,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From adc56a2c51ecb05a77ceb1b78c17d7297f430b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:31 +0000
Subject: [PATCH 17/52] fix: relating tiers keeps filler intervals in their
 tier and leaves no inverted intervals

---
 src/aligned_textgrid/sequences/tiers.py | 45 +++++++++++++------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 91f0f6e..03965ed 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -392,6 +392,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     entry.remove_superset()
         #self.entry_classes = [x.__class__ for x in self.tier_list]
+        trimmed = False
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
                 break
@@ -419,7 +420,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # For each lower interval
                 # get the index of the upper interval
                 # it has the most overlap with.
+                # Those that overlap with none are left unrelated.
                 upper_container = overlaps.argmax(axis = 1)
+                upper_container[max_overlaps <= 0] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
@@ -439,7 +442,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 starts = np.ma.masked_array(_starts, _starts < 0)
                 ends = np.ma.masked_array(_ends, _ends < 0)
                 
-                mismatches = lower_durations - max_overlaps
+                mismatches = (lower_durations - max_overlaps)[upper_container >= 0]
                 any_mismatch = bool(np.any(mismatches > 0))
 
                 # any_mismatch = bool(np.any(start_match > 0))
@@ -463,17 +466,6 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                             SequenceList(*lower_tier[starts[idx]:ends[idx]])
                         )
 
-                # Close internal gaps
-                for lowers in lower_sequences:
-                    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
-                        boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
-                        new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
-                        new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
-                        for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
-
                 u_durs = np.array([
                     u.end - u.start
                     for u in upper_tier
@@ -484,27 +476,36 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     for l in lower_sequences
                 ])
 
-                squish = not np.allclose(u_durs, l_durs)
+                squish = any_mismatch or not np.allclose(u_durs, l_durs)
 
                 for u,l in zip(upper_tier, lower_sequences):
                     u.set_subset_list(l)
-                    if len(u) == 0:
-                        new =  u.subset_class((u.start, u.end, ""))
-                        u.append(
-                           new
-                        )
-                        lower_tier.append(new, re_relate = False)
-                        
-                    if any_mismatch and not delay_cleanup:
+                    if any_mismatch and not delay_cleanup and len(u) > 0:
+                        trimmed = True
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
                         u.start = s_start
                         u.first.start = s_start
                         u.end = s_end
                         u.last.end = s_end
-                    
+
+                # once all boundaries are settled, fill the gaps
+                for u in upper_tier:
+                    if len(u) == 0:
+                        new =  u.subset_class((u.start, u.end, ""))
+                        u.append(
+                           new
+                        )
+                        lower_tier.append(new, re_relate = False)
+
                     if squish and not delay_cleanup:
                         u.cleanup()
+
+        # trimming can open gaps within the tiers above
+        if trimmed:
+            for tier in self.tier_list[:-1]:
+                for u in list(tier):
+                    u.cleanup()
     
     def __getitem__(
             self,
-- 
2.43.0


From 233492db5dd7071689fdf3a7a6e5948888e32bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:22 +0000
Subject: [PATCH 18/52] fix: cleanup projects orphan intervals up through every
 tier above

---
 src/aligned_textgrid/sequences/tiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 03965ed..0fdef2c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -619,7 +619,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         """
         not_tight = False
         
-        for tier in self:
+        # from the bottom up, since orphans are projected upwards
+        for tier in reversed(self):
             starts = tier.starts
             ends = tier.ends
 
-- 
2.43.0


From 872faa0649f884e74b08a596e4207ae0dd1aba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:12 +0000
Subject: [PATCH 19/52] fix: set_super_instance leaves the previous superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index ef3b8c8..6b14fca 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From b09457d79b2bda7cef60d010da6029dc29c520f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:18 +0000
Subject: [PATCH 20/52] fix: set_subset_list moves every given interval and
 releases the previous ones

---
 src/aligned_textgrid/sequences/sequences.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 6b14fca..fb61102 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,8 +150,12 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_values = self._subset_list
             self._subset_list = SequenceList(*subset_list)
-            for element in subset_list:
+            for orig in orig_values:
+                if not orig in self._subset_list:
+                    orig.remove_superset()
+            for element in list(self._subset_list):
                 if not self is element.super_instance:
                     element.remove_superset()
                     element.super_instance = self
@@ -484,13 +488,8 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
     
     @subset_list.setter
     def subset_list(self, intervals: list[Self]|SequenceList[Self])->None:
-        orig_values = self.subset_list
         intervals = SequenceList(*intervals)
         self.set_subset_list(intervals)
-        for orig in orig_values:
-
-            if not orig in self.subset_list:
-                orig.remove_superset()
 
     @property
     def start(self)->float:
-- 
2.43.0


From 4a336758d318e4af9e676752884c990f8db64ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 21/52] fix: the top tier of a TierGroup has tier-wide
 precedence

---
 src/aligned_textgrid/sequences/tiers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 0fdef2c..e51b171 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -391,6 +391,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 if hasattr(entry, "super_instance"):
                     
                     entry.remove_superset()
+        ## triggers precedence resetting
+        self.tier_list[0].sequence_list = self.tier_list[0].sequence_list
         #self.entry_classes = [x.__class__ for x in self.tier_list]
         trimmed = False
         for tidx, tier in enumerate(self.tier_list):
-- 
2.43.0


From 6608ee5effb4bbb817d83ed7da4762b6606c05c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:34 +0000
Subject: [PATCH 22/52] fix: cleanup of tier groups with a partial hierarchy

---
 src/aligned_textgrid/sequences/sequences.py | 6 +++++-
 src/aligned_textgrid/sequences/tiers.py     | 7 +++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index fb61102..43ea7d4 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -109,7 +109,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
     def append(self, other:'SequenceInterval')->None:
         if issubclass(self.subset_class, other.entry_class):
             self.subset_list += [other]
-            if self.intier and self.intier.within:
+            if self.intier and self.intier.within and not self.intier is self.intier.within[-1]:
                 self_tier_idx = self.intier.within_index
                 self.intier.within[self_tier_idx+1].append(other, re_relate = False)
             return
@@ -538,6 +538,10 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         # If at Bottom, don't build down
         if issubclass(self.subset_class, Bottom):
             return
+
+        # If at the bottom of a partial hierarchy, neither
+        if self.intier and self.intier.within and self.intier is self.intier.within[-1]:
+            return
         
         # If empty subset list,
         # create co-terminous interval and append.
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index e51b171..aa5fc95 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -250,10 +250,9 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             ## triggers precedence resetting
             self.sequence_list += [self.entry_class((s, e, ""))]
 
-        if issubclass(self.subset_class, Bottom):
-            if self.within:
-                self.within.re_relate()
-                return
+        if self.within and self is self.within[-1]:
+            self.within.re_relate()
+            return
         
         if self.within:
             next_tier = self.within[self.within_index+1]
-- 
2.43.0


From efc329dea184f10015f5ab871b610e58667c119a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:14 +0000
Subject: [PATCH 23/52] fix: interleave_class rejects missing timing tiers
 before changing anything

---
 src/aligned_textgrid/aligned_textgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index a31a392..c134279 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -610,6 +610,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        for tg in self.tier_groups:
+            if specified_class in tg.entry_classes and not copy_class in tg.entry_classes:
+                raise ValueError(
+                    f"TierGroup {tg.name} has no tier {timing_from} to draw timing from."
+                )
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From ca9f1358012bc5f5b39ebfb75047e12a11e0d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 24/52] fix: tiers keep their names when their group is
 appended to a textgrid

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index c134279..9a48340 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -444,8 +444,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From 113d7b2bdbdd2dd040e9b2de4145e92a714cb139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 25/52] fix: a PointsGroup keeps its name when appended to a
 textgrid

---
 src/aligned_textgrid/points/tiers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 006efd9..ceca3bd 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -253,12 +253,19 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
             self,
             tiers: list[SequencePointTier]|Self = [SequencePointTier()]
     ):
+        name = None
+        if hasattr(tiers, "name"):
+            name = tiers.name
+
         if isinstance(tiers, PointsGroup):
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From e05630956abb9a52560a763f3196c35fdbb54569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:11 +0000
Subject: [PATCH 26/52] fix: entry classes may be given as tuples

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 9a48340..81e0c1e 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -187,7 +187,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -324,7 +324,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From aa615680e31802a713fc71c214aa71224f19b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:17 +0000
Subject: [PATCH 27/52] fix: renamed duplicate tiers never clash with another
 tier name

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 81e0c1e..14a1af3 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -805,8 +805,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From 0414c2a680b81604179f5db021eba8813fa03e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:49 +0000
Subject: [PATCH 28/52] fix: gaps opened by trimming are filled before lower
 tiers are related

---
 src/aligned_textgrid/sequences/tiers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index aa5fc95..2d1da9a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -393,7 +393,6 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         ## triggers precedence resetting
         self.tier_list[0].sequence_list = self.tier_list[0].sequence_list
         #self.entry_classes = [x.__class__ for x in self.tier_list]
-        trimmed = False
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
                 break
@@ -482,7 +481,6 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 for u,l in zip(upper_tier, lower_sequences):
                     u.set_subset_list(l)
                     if any_mismatch and not delay_cleanup and len(u) > 0:
-                        trimmed = True
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
                         u.start = s_start
@@ -490,6 +488,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         u.end = s_end
                         u.last.end = s_end
 
+                # trimming can open gaps within the tier above
+                if any_mismatch and not delay_cleanup and tidx > 0:
+                    for up in self.tier_list[tidx-1]:
+                        up.cleanup()
+
                 # once all boundaries are settled, fill the gaps
                 for u in upper_tier:
                     if len(u) == 0:
@@ -502,11 +505,6 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     if squish and not delay_cleanup:
                         u.cleanup()
 
-        # trimming can open gaps within the tiers above
-        if trimmed:
-            for tier in self.tier_list[:-1]:
-                for u in list(tier):
-                    u.cleanup()
     
     def __getitem__(
             self,
-- 
2.43.0


From b0116a28dac87d3b6d6dfca452a00e324f6bf6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:41 +0000
Subject: [PATCH 29/52] fix: single tiers can be saved as a textgrid

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index ceca3bd..cfc102c 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -234,7 +234,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 2d1da9a..0a49f8c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -338,7 +338,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From 02b0c475353da4b589301f096f14c128b76515a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:14 +0000
Subject: [PATCH 30/52] fix: a point outside every interval of a tier has no
 interval at point

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From 78b19a14cc55dc9e6b9e1baa91065a44ea534004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:50 +0000
Subject: [PATCH 31/52] fix: fusing free-standing intervals keeps precedence up
 to date

---
 src/aligned_textgrid/sequences/sequences.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 43ea7d4..47f8d55 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -599,7 +599,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.end = fusee.end
-            fuser.fol = fusee.fol
+            fuser.set_fol(fusee.fol)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -611,7 +611,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 if fuser.intier:
                     fuser.intier.pop(fusee)
                 if fuser.super_instance and fusee in fuser.super_instance:
-                    fuser.super_instance.subset_list.remove(fusee)                    
+                    fuser.super_instance.remove_from_subset_list(fusee)
         else:
             raise Exception("Cannot fuse rightwards at right edge")
         
@@ -630,7 +630,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.start = fusee.start
-            fuser.prev = fusee.prev
+            fuser.set_prev(fusee.prev)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
@@ -642,7 +642,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
                 if fuser.intier:
                     fuser.intier.pop(fusee)
                 if fuser.super_instance and fusee in fuser.super_instance:
-                    fuser.super_instance.subset_list.remove(fusee)                    
+                    fuser.super_instance.remove_from_subset_list(fusee)
         else:
             raise Exception("Cannot fuse leftwards at right edge")
         
-- 
2.43.0


From cbb6f2969690b8c38f63a3d55597d93386c4d59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:05 +0000
Subject: [PATCH 32/52] fix: get_class_hierarchy starts from an empty list on
 every call

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 7a54ded92bd6eb6d26766f581264221d99941019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:32 +0000
Subject: [PATCH 33/52] fix: groups share neither a default tier nor the
 caller's list of tiers

---
 src/aligned_textgrid/points/tiers.py    | 9 +++++----
 src/aligned_textgrid/sequences/tiers.py | 5 ++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cfc102c..2634dff 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -251,15 +251,16 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
+        if tiers is None:
+            tiers = [SequencePointTier()]
+
         name = None
         if hasattr(tiers, "name"):
             name = tiers.name
 
-        if isinstance(tiers, PointsGroup):
-            tiers = [tier for tier in tiers]
-        self.tier_list = tiers
+        self.tier_list = [tier for tier in tiers]
         self.contains = self.tier_list
         self._set_tier_names()
         if name:
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 0a49f8c..d7d9bb7 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -367,9 +367,12 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        if tiers is None:
+            tiers = [SequenceTier()]
+
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From ec58b6ad5b257c62a2578ced26361a0eb60f6c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:43 +0000
Subject: [PATCH 34/52] fix: a group keeps its name and accessor when a tier is
 appended

---
 src/aligned_textgrid/mixins/tiermixins.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 17e06fe..ca1ca2b 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -273,13 +273,20 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        # a name that was set, rather than derived from the tiers, is kept
+        set_name = None
+        if self.name != self.make_name():
+            set_name = self.name
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
         self.__init__(orig_tiers)
-        
 
-        pass
+        if set_name:
+            self.name = set_name
+        if self.within:
+            self.within._set_group_names()
 
     def concat(self:TierGroupType, new:TierType):
         """Horizontally concatenate a tier group.
-- 
2.43.0


From ec033882960f1595d878b6bab30ca9cdf5c9b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:29 +0000
Subject: [PATCH 35/52] fix: to_df of objects whose times mix integers and
 floats raised SchemaError

---
 src/aligned_textgrid/outputs/to_dataframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..bb294dd 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -39,7 +39,7 @@ def sequence_to_df(
     sub_df_rows = None
     if len(obj.contains) > 0 and with_subset:
         sub_df_list = [sequence_to_df(x) for x in obj.contains]
-        sub_df = pl.concat(sub_df_list, how="diagonal")
+        sub_df = pl.concat(sub_df_list, how="diagonal_relaxed")
         sub_df_rows = sub_df.shape[0]
 
     out_dict = {
@@ -73,7 +73,7 @@ def tier_to_df(
         sequence_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_interval_dfs, how="diagonal")
+    out_df = pl.concat(all_interval_dfs, how="diagonal_relaxed")
     return out_df
 
 
@@ -88,7 +88,7 @@ def tiergroup_to_df(
         all_df = [
             tier_to_df(x, with_subset) for x in obj
         ]
-        out_df = pl.concat(all_df, how = "diagonal")
+        out_df = pl.concat(all_df, how = "diagonal_relaxed")
 
     if hasattr(obj, "name"):
        out_df = out_df.with_columns(
@@ -107,7 +107,7 @@ def textgrid_to_df(
         tiergroup_to_df(x, with_subset) for x in obj
     ]
 
-    out_df = pl.concat(all_df, how="diagonal")
+    out_df = pl.concat(all_df, how="diagonal_relaxed")
 
     return out_df
 
-- 
2.43.0


From 780735a6b7ae7146e2d0fed37581a5e471e1a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:50 +0000
Subject: [PATCH 36/52] fix: to_df of an interval with a subset list but no
 tier raised InvalidOperationError

---
 src/aligned_textgrid/outputs/to_dataframe.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index bb294dd..4f99312 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -49,11 +49,7 @@ def sequence_to_df(
 
     df = pl.DataFrame(out_dict, schema=col_names)
     if sub_df_rows:
-        df = df.with_columns(
-            n=pl.lit(sub_df_rows)
-        ).select(
-            pl.exclude("n").repeat_by("n").explode()
-        )
+        df = pl.concat([df] * sub_df_rows)
         df = pl.concat([df, sub_df], how="horizontal")
 
     if isinstance(obj, SequencePoint) or not with_subset:
-- 
2.43.0


From 52628227e97f02f1629f32dd0da29c5c7a830b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:45 +0000
Subject: [PATCH 37/52] fix: tier names of a textgrid with a points group
 raised AttributeError

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 2634dff..7a9209f 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -325,6 +325,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
     
+    @property
+    def tier_names(self):
+        return [x.name for x in self.tier_list]
+    
     @property
     def xmin(self):
         times = np.array(
-- 
2.43.0


From 779d26124c7c89dc97fb3a398615fb65a8a7a799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:45 +0000
Subject: [PATCH 38/52] fix: nested iteration over one interval shared a single
 position and stopped early

---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 47f8d55..43c76bb 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -423,7 +423,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
     def __iter__(self):
         self.current = 0
-        return self
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
-- 
2.43.0


From 1b6c829ec71bc277d729e29264d1b4000ecbddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:37 +0000
Subject: [PATCH 39/52] fix: get_tierwise before the start of the tier wrapped
 round to its end

---
 src/aligned_textgrid/mixins/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..727a845 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,7 +178,10 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
-            return self.intier[self.tier_index + idx]
+            tier_idx = self.tier_index + idx
+            if tier_idx < 0:
+                raise IndexError("relative tier index out of range")
+            return self.intier[tier_idx]
         else:
             return None
         
-- 
2.43.0


From 26a059cfdabdea5b51299af254c3b6d3200f51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:42 +0000
Subject: [PATCH 40/52] fix: a label function that raises left the intervals
 half fused

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 43c76bb..6433170 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -598,9 +598,9 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            fuser.label = label_fun(fuser.label, fusee.label)
             fuser.end = fusee.end
             fuser.set_fol(fusee.fol)
-            fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
             fuser.subset_list = new_list
@@ -629,9 +629,9 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
         if not fusee.label == "#":
 
+            fuser.label = label_fun(fusee.label, fuser.label)
             fuser.start = fusee.start
             fuser.set_prev(fusee.prev)
-            fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
 
-- 
2.43.0


From 26122e0b870995a49bbcc06b1a69ff2b3bfc05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:28 +0000
Subject: [PATCH 41/52] fix: shifting integer times by a fraction raised a
 casting error

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 7a9209f..b9cb104 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -176,7 +176,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         
     def _shift(self, increment):
-        self.times += increment
+        self.times = self.times + increment
     
     def cleanup(self):
         pass
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index d7d9bb7..7ecb32d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -215,8 +215,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             i.end = t
 
     def _shift(self, increment:float) -> None:
-        self.starts += increment
-        self.ends   += increment
+        self.starts = self.starts + increment
+        self.ends   = self.ends + increment
 
     @property
     def labels(self)->list[str]:
-- 
2.43.0


From d4fb12fe1e60be1d64f42002720d6f50bc6da58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:40 +0000
Subject: [PATCH 42/52] fix: tiers of classes that share a name, or an
 interleaved class, were lost from their group

---
 src/aligned_textgrid/aligned_textgrid.py | 79 +++++++++++++-----------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 14a1af3..b0e4a58 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -190,41 +190,40 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
-        unique_classes = list(set(flat_classes))
+        unique_classes = list(dict.fromkeys(flat_classes))
 
-        cloned_class_names = [cl.__name__ for cl in self._cloned_classes]
-    
-        points = [c for c in unique_classes if issubclass(c, SequencePoint)]
-        tops = [
-            c 
-            for c in unique_classes 
-            if issubclass(c, SequenceInterval)
-            if issubclass(c.superset_class, Top)
-        ]
-
-        points_clone = []
-        for p in points:
-            if p.__name__ in cloned_class_names:
-                points_clone.append(
-                    self._cloned_classes[cloned_class_names.index(p.__name__)]
-                )
-            else:
-                points_clone.append(clone_class(p))
-        tops_clone = []
-        for t in tops:
-            if t.__name__ in cloned_class_names:
-                tops_clone.append(
-                    self._cloned_classes[cloned_class_names.index(t.__name__)]
-                )
-            else:
-                tops_clone.append(clone_class(t))
-
-        full_seq_clone = []
-        for tclone in tops_clone:
-            full_seq_clone += get_class_hierarchy(tclone, [])
+        for c in unique_classes:
+            if self._get_clone(c) is not None:
+                continue
+            if issubclass(c, SequencePoint):
+                self._cloned_classes.append(clone_class(c))
+            elif issubclass(c.superset_class, Top):
+                self._cloned_classes += get_class_hierarchy(clone_class(c), [])
 
-        full_clone = points_clone + full_seq_clone
-        self._cloned_classes += full_clone
+    def _get_clone(
+            self,
+            orig_class: Type[SequenceInterval]|Type[SequencePoint]
+        ) -> Type[SequenceInterval]|Type[SequencePoint]|None:
+        """The class of this textgrid that stands for the original class: of the
+        same name, and for intervals, at the same place in a hierarchy of the same names.
+        """
+        if issubclass(orig_class, SequencePoint):
+            clones = [
+                c for c in self._cloned_classes
+                if issubclass(c, SequencePoint) and c.__name__ == orig_class.__name__
+            ]
+        else:
+            orig_names = [c.__name__ for c in get_class_hierarchy(orig_class)]
+            clones = [
+                c for c in self._cloned_classes
+                if issubclass(c, SequenceInterval)
+                if c.__name__ == orig_class.__name__
+                if [h.__name__ for h in get_class_hierarchy(c)] == orig_names
+            ]
+
+        if orig_class in clones:
+            return orig_class
+        return clones[0] if clones else None
 
     def _swap_classes(
             self, 
@@ -232,11 +231,13 @@ class AlignedTextGrid(Sequence, WithinMixins):
             new_classes: list[SequenceInterval,SequencePoint]
         )->list[SequenceInterval]|list[SequencePoint]:
         new_classes_names = [c.__name__ for c in new_classes]
-        orig_classes_names = [c.__name__ for c in orig_classes]
-
-        new_idx = [new_classes_names.index(on) for on in orig_classes_names]
 
-        out_classes = [new_classes[i] for i in new_idx]
+        out_classes = []
+        for orig in orig_classes:
+            clone = self._get_clone(orig)
+            if clone is None:
+                clone = new_classes[new_classes_names.index(orig.__name__)]
+            out_classes.append(clone)
         return out_classes
     
     def _nestify_tiers(
@@ -648,6 +649,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 new_tg.name = tg.name
                 new_tiergoups.append(new_tg)
 
+        self._cloned_classes.append(new_class)
         self.tier_groups = new_tiergoups
         for tgr in self.tier_groups:
             tgr.within = self
@@ -713,6 +715,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
             pop_tier, = [t for t in tg if t.entry_class.__name__ == name]
             keep_tiers = [t for t in tg if t.entry_class.__name__ != name]
 
+            if pop_tier.entry_class in self._cloned_classes:
+                self._cloned_classes.remove(pop_tier.entry_class)
+
             pop_tier_super = pop_tier.entry_class.superset_class
             pop_tier_sub = pop_tier.entry_class.subset_class
             
-- 
2.43.0


From e6791830f588624c3cf4e8d8e74b2e608f08d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:39 +0000
Subject: [PATCH 43/52] fix: tiers of groups without the class kept the old
 hierarchy after interleaving or popping it

---
 src/aligned_textgrid/aligned_textgrid.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index b0e4a58..12bf505 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -653,6 +653,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tiergoups
         for tgr in self.tier_groups:
             tgr.within = self
+            for tier in tgr:
+                if isinstance(tier, SequenceTier):
+                    tier.superset_class = tier.entry_class.superset_class
+                    tier.subset_class = tier.entry_class.subset_class
         self.contains = self.tier_groups
         self._set_group_names()
 
@@ -740,6 +744,10 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
+            for tier in tgr:
+                if isinstance(tier, SequenceTier):
+                    tier.superset_class = tier.entry_class.superset_class
+                    tier.subset_class = tier.entry_class.subset_class
         self.contains = self.tier_groups            
         self._set_group_names()
             
-- 
2.43.0


From ca0f6031616cf6b15f759ccb388817fedfcae6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:22 +0000
Subject: [PATCH 44/52] fix: adding a second subset interval with + lost the
 first

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 6433170..b42e504 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -98,6 +98,10 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self_copy.__dict__ = self.__dict__
 
         if issubclass(self.entry_class, other.superset_class):
+            # the copy takes over the present subset intervals
+            for subset_instance in self.subset_list:
+                subset_instance.super_instance = self_copy
+                subset_instance.within = self_copy
             self_copy.subset_list += [other]
             return self_copy
         if issubclass(self.entry_class, other.subset_class):
-- 
2.43.0


From 56d8d68d339a46ece390b300ddf44a05b6b20035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 45/52] fix: setting tier_groups left the group accessors
 leading to the groups before

---
 src/aligned_textgrid/aligned_textgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 12bf505..8372fdf 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -378,6 +378,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         self._tier_groups = new
         self.contains = self.tier_groups
+        self._set_group_names()
 
     @property
     def entry_classes(self):
-- 
2.43.0


From 6bed1280cfb71dae5a9e766bc9d15d8c6c6b845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 46/52] fix: cleanup left an interval unfilled when only the
 first or last of its subset was missing

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 7ecb32d..d769724 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -645,6 +645,10 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                         self._project_up(i)
                 self.re_relate()        
 
+        extents = [(tier.xmin, tier.xmax) for tier in self if len(tier) > 0]
+        if len(extents) > 0 and not np.allclose(extents, extents[0]):
+            not_tight = True
+
         if not not_tight:
             return
         
-- 
2.43.0


From 0bc5896a166eac12d21594ddbff86748f3601b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:43 +0000
Subject: [PATCH 47/52] fix: popping from a tier resets neighbours in tiers of
 lower classes too

---
 src/aligned_textgrid/sequences/tiers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index d769724..b07c40d 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -173,8 +173,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if issubclass(self.superset_class, Top):
-                self.__set_precedence()
+            self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
 
-- 
2.43.0


From 82e24e626d0422af24ac8bc8756ba5a13a975568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:03 +0000
Subject: [PATCH 48/52] fix: each time a hierarchy is listed in a flat list of
 entry classes gets its own tiers

---
 src/aligned_textgrid/aligned_textgrid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 8372fdf..0ba9963 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -279,6 +279,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         ## Nestifying hierarchywise
         entry_list = []
+        used_idxes = set(top_idxes)
         for top_idx in top_idxes:
             this_tierlist = []
             this_entrylist = []
@@ -293,12 +294,17 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     done = True
                     break
 
-                try:
-                    next_idx = entry_classes.index(curr.subset_class)
-                except ValueError:
+                next_idxes = [
+                    i for i, c in enumerate(entry_classes)
+                    if c is curr.subset_class and i not in used_idxes
+                ]
+                if len(next_idxes) < 1:
                     done = True
                     break
 
+                # a hierarchy given more than once has a tier for each time
+                next_idx = next_idxes[0]
+                used_idxes.add(next_idx)
                 this_tierlist.append(textgrid.tiers[next_idx])
                 this_entrylist.append(entry_classes[next_idx])
 
-- 
2.43.0


From af4f6cc73f7a666da0ba0dc6dbc53aedbefbe4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:52 +0000
Subject: [PATCH 49/52] fix: an interval with subsets can be appended to a tier
 group that has no tier for them

---
 src/aligned_textgrid/mixins/tiermixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index ca1ca2b..3d233ad 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -110,7 +110,8 @@ class TierMixins:
         self.sequence_list += [new]
         if hasattr(new, "subset_list") \
            and len(new) > 0 \
-           and self.within:
+           and self.within \
+           and not self is self.within[-1]:
             down_tier = self.within_index+1
             for interval in new.subset_list:
                 self.within[down_tier].append(interval, re_relate = False)
-- 
2.43.0


From 65a5b9b78f6a47ddd8e2fa08a7b7e6d410f38ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 50/52] fix: fill gaps within superset intervals before those
 between them

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index b07c40d..53cf508 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -241,6 +241,10 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """            
         if np.allclose(self.starts[1:], self.ends[:-1]):
             return
+
+        if self.within:
+            # fill gaps within superset intervals before those between them
+            self.within.re_relate()
         
         boundaries = np.unique(np.concatenate([self.starts, self.ends]))
         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], self.starts)]
-- 
2.43.0


From 56d2de038f7b1081aa3f652281495d2fba424736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 51/52] fix: append an interval to the top tier of a group
 though its superset has no tier there

---
 src/aligned_textgrid/mixins/tiermixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 3d233ad..ad756af 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -118,7 +118,8 @@ class TierMixins:
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
-           and self.within:
+           and self.within \
+           and not self is self.within[0]:
             uptier  = self.within_index-1
             self.within[uptier].append(new.super_instance, re_relate = False)
             
-- 
2.43.0


From 6ea224b4cfb7cd66f7ccafe07ccda48f18f73b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 52/52] fix: adding to a sequence list leaves it as it was and
 gives a new one

---
 src/aligned_textgrid/sequence_list.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 81e8e09..3f13e77 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -74,7 +74,7 @@ class SequenceList(Sequence):
         other = [x for x in other if x not in self]
 
         if len(other) < 1:
-            return self
+            return self._copy()
 
         unique_other_classes = set([x.__class__ for x in other])
 
@@ -82,22 +82,26 @@ class SequenceList(Sequence):
             raise ValueError("All values in added list must have the same class.")
     
         if len(unique_other_classes) < 1:
-            return self
+            return self._copy()
         
         incoming_class = next(iter(unique_other_classes))
         if self.entry_class and not (issubclass(incoming_class, self.entry_class) or (issubclass(self.entry_class, incoming_class))):
             raise ValueError("All values in added list must have the same class as original list.")
         
-        if not self.entry_class:
-            self.entry_class = next(iter(unique_other_classes))
+        entry_class = self.entry_class or incoming_class
 
         new_list = self._values + [x for x in other]
-        new_intervals = [self.entry_class._cast(x) if not x.entry_class is self.entry_class else x for x in new_list]
+        new_intervals = [entry_class._cast(x) if not x.entry_class is entry_class else x for x in new_list]
         output =  SequenceList(*new_intervals)
         output._sort()
         output._check_no_overlaps()
         return output
 
+    def _copy(self) -> Self:
+        output = SequenceList(*self._values)
+        output.entry_class = self.entry_class
+        return output
+
     def __repr__(self):
         return self._values.__repr__()
             
@@ -230,6 +234,7 @@ class SequenceList(Sequence):
         
         new_values = self + intervals
         self._values = list(new_values)
+        self.entry_class = new_values.entry_class
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0

