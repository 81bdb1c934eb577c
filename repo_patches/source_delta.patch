From 58bc4fb60c3d6a51ad1750d21da750e20218691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 01/18] fix: OkapiIndex.clear() resets the total document
 length

Scores after clear() were computed with the lengths of the cleared documents.
---
 src/zope/index/text/okapiindex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index a243398..ac1739e 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -232,6 +232,9 @@ class OkapiIndex(BaseIndex):
         # in compressed form, so uncompressing it just to count the list
         # length would be ridiculously expensive.
 
+    def clear(self):
+        BaseIndex.clear(self)
+
         # sum(self._docweight.values()), the total # of words in all docs
         # This is a long for "better safe than sorry" reasons.  It isn't
         # used often enough that speed should matter.
-- 
2.43.0


From 8f501a7ab143b6edc9534f9fdfab3e6aca6a6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:53 +0000
Subject: [PATCH 02/18] fix: phrase search no longer matches a prefix of an
 encoded word id

The code of a small wid is a prefix of the codes of larger ones, so the
last word of a phrase could match in the middle of another word.
---
 src/zope/index/text/baseindex.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index 3076b89..d788f52 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -14,6 +14,7 @@
 """Abstract base class for full text index with relevance ranking.
 """
 import math
+import re
 
 import BTrees
 from BTrees import Length
@@ -204,11 +205,13 @@ class BaseIndex(Persistent):
         hits = mass_weightedIntersection(scores, self.family)
         if not hits:
             return hits
-        code = widcode.encode(wids)
+        # The match must not end in the middle of an encoded wid, so it must
+        # not be followed by a continuation byte.
+        find = re.compile(
+            re.escape(widcode.encode(wids)) + r"(?![\x00-\x7F])").search
         result = self.family.IF.BTree()
         for docid, weight in hits.items():
-            docwords = self._docwords[docid]
-            if docwords.find(code) >= 0:
+            if find(self._docwords[docid]):
                 result[docid] = weight
         return result
 
-- 
2.43.0


From 07d0d49b67aff98bd5c3c847232d22a767cfaae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:31 +0000
Subject: [PATCH 03/18] fix: FieldIndex.sort copes with None values and with
 unindexed docids

---
 src/zope/index/field/sorting.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/zope/index/field/sorting.py b/src/zope/index/field/sorting.py
index 0c44012..236db3d 100644
--- a/src/zope/index/field/sorting.py
+++ b/src/zope/index/field/sorting.py
@@ -50,8 +50,12 @@ class SortingIndexMixin:
 
         fwd_index = getattr(self, self._sorting_fwd_index_attr)
         rev_index = getattr(self, self._sorting_rev_index_attr)
-        getValue = lambda x, d=-1: rev_index.get(x, d)  # noqa: E731 use def
-        marker = object()
+
+        def getKey(docid):
+            # Sort key of an indexed document: None sorts first, as in the
+            # forward BTree, since it can't be compared with other values.
+            value = rev_index[docid]
+            return (value is not None, value)
 
         # use_lazy and use_nbest computations lifted wholesale from
         # Zope2 catalog without questioning reasoning
@@ -72,9 +76,8 @@ class SortingIndexMixin:
 
             def nsort():
                 for docid in docids:
-                    val = getValue(docid, marker)
-                    if val is not marker:
-                        yield (val, docid)
+                    if docid in rev_index:
+                        yield (getKey(docid), docid)
 
             iterable = nsort()
 
@@ -126,9 +129,9 @@ class SortingIndexMixin:
                 # of documents in this index, or if we need to sort in
                 # reverse order, use a non-lazy sort.
                 n = 0
-                for docid in sorted(docids, key=getValue, reverse=reverse):
-                    if getValue(docid, marker) is not marker:
-                        n += 1
-                        yield docid
-                        if limit and n >= limit:
-                            return
+                docids = [docid for docid in docids if docid in rev_index]
+                for docid in sorted(docids, key=getKey, reverse=reverse):
+                    n += 1
+                    yield docid
+                    if limit and n >= limit:
+                        return
-- 
2.43.0


From d6281022eadf3134624309abb33c9f8472ac7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 04/18] fix: PythonFilteredSet forgets reindexed documents
 which no longer match

---
 src/zope/index/topic/filter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/filter.py b/src/zope/index/topic/filter.py
index dbaa98d..e5fcfe9 100644
--- a/src/zope/index/topic/filter.py
+++ b/src/zope/index/topic/filter.py
@@ -73,7 +73,13 @@ class PythonFilteredSet(FilteredSetBase):
 
     def index_doc(self, docid, context):
         try:
-            if eval(self.expr):
+            try:
+                matches = bool(eval(self.expr))
+            except BaseException:
+                matches = False  # ignore errors
+            if matches:
                 self._ids.insert(docid)
+            else:
+                self.unindex_doc(docid)
         except BaseException:
             pass  # ignore errors
-- 
2.43.0


From 2382b95414172b8a180e0cc4c7b2fd38ca1a98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 05/18] fix: TopicIndex.apply no longer removes the operator
 from the query

---
 src/zope/index/topic/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index 673f660..cdfc6fc 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -107,6 +107,6 @@ class TopicIndex(Persistent):
         operator = 'and'
         if isinstance(query, dict):
             if 'operator' in query:
-                operator = query.pop('operator')
+                operator = query['operator']
             query = query['query']
         return self.search(query, operator=operator)
-- 
2.43.0


From 3f9b2c88199fe0bec98122ca2293e8a1b0afdec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 06/18] fix: KeywordIndex copes with keywords which turn out to
 be empty

---
 src/zope/index/keyword/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 96bb9ab..987c618 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -91,6 +91,11 @@ class KeywordIndex(Persistent):
         seq = self.normalize(seq)
 
         new_kw = self.family.OO.Set(seq)
+        if not new_kw:
+            # An empty iterator, or nothing left after normalization.
+            if old_kw:
+                self.unindex_doc(docid)
+            return
 
         if old_kw is None:
             self._insert_forward(docid, new_kw)
-- 
2.43.0


From d58379ede729d8f733180ad712d18302fda230fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:54 +0000
Subject: [PATCH 07/18] fix: TopicIndex.clearFilters is persisted

---
 src/zope/index/topic/index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index cdfc6fc..eb05aae 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -54,8 +54,9 @@ class TopicIndex(Persistent):
     def clearFilters(self):
         """ Clear existing filters of their docids, but leave them in place.
         """
-        for filter in self._filters.values():
+        for id, filter in list(self._filters.items()):
             filter.clear()
+            self._filters[id] = filter  # not redundant:  Persistency!
 
     def index_doc(self, docid, obj):
         """index an object"""
-- 
2.43.0


From cd6e4bf745d39928ebeb040f67b17ea96b967b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 08/18] fix: KeywordIndex set conversions conflict with
 concurrent changes

---
 src/zope/index/keyword/index.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 987c618..509b8ff 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -154,7 +154,16 @@ class KeywordIndex(Persistent):
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-                idx[word] = TreeSet(word_idx)
+                idx[word] = self._convert(word_idx, TreeSet)
+
+    def _convert(self, word_idx, factory):
+        """return a set made by factory which replaces word_idx"""
+        result = factory(word_idx)
+        # Empty the replaced set: a concurrent change of it must conflict
+        # with the replacement, it would be lost otherwise.
+        for docid in result:
+            word_idx.remove(docid)
+        return result
 
     def _insert_reverse(self, docid, words):
         """ add words to forward index """
@@ -216,11 +225,11 @@ class KeywordIndex(Persistent):
             if len(word_idx) >= self.tree_threshold:
                 if not isinstance(word_idx, TreeSet):
                     # Convert to a TreeSet.
-                    idx[word] = TreeSet(word_idx)
+                    idx[word] = self._convert(word_idx, TreeSet)
             else:
                 if isinstance(word_idx, TreeSet):
                     # Convert to a Set.
-                    idx[word] = Set(word_idx)
+                    idx[word] = self._convert(word_idx, Set)
 
 
 class CaseInsensitiveKeywordIndex(KeywordIndex):
-- 
2.43.0


From 8d279c5cc99f7da9b3530ff7e8c25facc84322e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 09/18] fix: Lexicon.globToWordIds takes special characters
 literally

---
 src/zope/index/text/lexicon.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 2ed331a..3278707 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -119,7 +119,7 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = prefix
+        pat = re.escape(prefix)
         for c in pattern:
             if c == "*":
                 pat += ".*"
@@ -127,14 +127,13 @@ class Lexicon(Persistent):
                 pat += "."
             else:
                 pat += re.escape(c)
-        pat += "$"
-        prog = re.compile(pat)
+        prog = re.compile(pat, re.DOTALL)
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
             if not key.startswith(prefix):
                 break
-            if prog.match(key):
+            if prog.fullmatch(key):
                 wids.append(self._wids[key])
         return wids
 
-- 
2.43.0


From 8e3b882212ec8bf2237d3c5e766a21d3b7700d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 10/18] fix: CosineIndex.query_weight bounds the scores of
 repeated terms

---
 src/zope/index/text/cosineindex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zope/index/text/cosineindex.py b/src/zope/index/text/cosineindex.py
index 8c64e27..4b8e3e0 100644
--- a/src/zope/index/text/cosineindex.py
+++ b/src/zope/index/text/cosineindex.py
@@ -84,9 +84,13 @@ class CosineIndex(BaseIndex):
         for term in terms:
             wids += self._lexicon.termToWordIds(term)
         N = float(len(self._docweight))
-        sum = 0.0
+        # A repeated term adds its weight to w(q, t) each time.
+        wid2weight = {}
         for wid in self._remove_oov_wids(wids):
             wt = inverse_doc_frequency(len(self._wordinfo[wid]), N)
+            wid2weight[wid] = wid2weight.get(wid, 0.0) + wt
+        sum = 0.0
+        for wt in wid2weight.values():
             sum += wt ** 2.0
         return math.sqrt(sum)
 
-- 
2.43.0


From 3706c9b6b0e8bfdf362c19869e24d4086f077023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 11/18] fix: ricecode decodes any deltas and supports m = 0

---
 src/zope/index/text/ricecode.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/zope/index/text/ricecode.py b/src/zope/index/text/ricecode.py
index 555ffcc..9601fe1 100644
--- a/src/zope/index/text/ricecode.py
+++ b/src/zope/index/text/ricecode.py
@@ -102,7 +102,7 @@ class RiceCode:
     def init(self, m):
         self.m = m
         self.lower = (1 << m) - 1
-        self.mask = 1 << (m - 1)
+        self.mask = (1 << m) >> 1
 
     def append(self, val):
         """Append an item to the list."""
@@ -186,10 +186,8 @@ def decode_deltas(start, enc_deltas):
     l_ = [start]
     if not enc_deltas:
         return l_
-    deltas = enc_deltas.tolist()
-    for i in range(1, len(deltas)):
-        l_.append(l_[i - 1] + deltas[i])
-    l_.append(l_[-1] + deltas[-1])
+    for delta in enc_deltas.tolist():
+        l_.append(l_[-1] + delta)
     return l_
 
 
-- 
2.43.0


From 2ee7506ee1f8cf789acbd71072fd4e159a8b6469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:37 +0000
Subject: [PATCH 12/18] fix: keyword and topic search results are independent
 of the index

---
 src/zope/index/keyword/index.py | 3 +++
 src/zope/index/topic/index.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 509b8ff..ae09be2 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -190,6 +190,9 @@ class KeywordIndex(Persistent):
             # number of document identifiers possible
             sets.sort(key=len)
             rs = None
+            if len(sets) == 1:
+                # return a copy, not the set of the index itself
+                sets *= 2
             for set in sets:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
diff --git a/src/zope/index/topic/index.py b/src/zope/index/topic/index.py
index eb05aae..271df2b 100644
--- a/src/zope/index/topic/index.py
+++ b/src/zope/index/topic/index.py
@@ -91,6 +91,9 @@ class TopicIndex(Persistent):
             # number of document identifiers possible
             sets.sort(key=len)
             rs = None
+            if len(sets) == 1:
+                # return a copy, not the set of the filter itself
+                sets *= 2
             for set in sets:
                 rs = self.family.IF.intersection(rs, set)
                 if not rs:
-- 
2.43.0


From 3de5d99f59901c9a9cbd7fb5e8a8d63e76ee1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 13/18] fix: a rejected FieldIndex.index_doc changes nothing

---
 src/zope/index/field/index.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index b273023..baf1ea1 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -69,13 +69,18 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
             if docid in self._fwd_index.get(value, ()):
                 # no need to index the doc, its already up to date
                 return
-            self.unindex_doc(docid)
-        # Insert into forward index.
+        # Insert into forward index.  This is refused if the docid or the
+        # value is not acceptable, so nothing else may change before.
         set = self._fwd_index.get(value)
         if set is None:
             set = self.family.IF.TreeSet()
+            set.insert(docid)
             self._fwd_index[value] = set
-        set.insert(docid)
+        else:
+            set.insert(docid)
+
+        # forget the previous value
+        self.unindex_doc(docid)
 
         # increment doc count
         self._num_docs.change(1)
-- 
2.43.0


From 303d48b6375121f2e6736841d713493080dbb11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 14/18] fix: a rejected KeywordIndex.index_doc changes nothing

---
 src/zope/index/keyword/index.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index ae09be2..9364dfd 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -97,6 +97,11 @@ class KeywordIndex(Persistent):
                 self.unindex_doc(docid)
             return
 
+        # Nothing may change if a word can't be compared with those in the
+        # forward index.
+        for word in new_kw:
+            self._fwd_index.get(word)
+
         if old_kw is None:
             self._insert_forward(docid, new_kw)
             self._insert_reverse(docid, new_kw)
@@ -149,8 +154,12 @@ class KeywordIndex(Persistent):
         for word in words:
             word_idx = get_word_idx(word)
             if word_idx is None:
-                idx[word] = word_idx = Set()
-            word_idx.insert(docid)
+                # insert the docid first, it may be refused
+                word_idx = Set()
+                word_idx.insert(docid)
+                idx[word] = word_idx
+            else:
+                word_idx.insert(docid)
             if (not isinstance(word_idx, TreeSet) and
                     len(word_idx) >= self.tree_threshold):
                 # Convert to a TreeSet.
-- 
2.43.0


From 12aab36b9e52253d3fb8f1d5ea696f0c52a0ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:55 +0000
Subject: [PATCH 15/18] fix: a rejected text index_doc changes nothing

---
 src/zope/index/text/baseindex.py  | 6 ++++--
 src/zope/index/text/okapiindex.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zope/index/text/baseindex.py b/src/zope/index/text/baseindex.py
index d788f52..bbf25c5 100644
--- a/src/zope/index/text/baseindex.py
+++ b/src/zope/index/text/baseindex.py
@@ -105,9 +105,11 @@ class BaseIndex(Persistent):
             return self._reindex_doc(docid, text)
         wids = self._lexicon.sourceToWordIds(text)
         wid2weight, docweight = self._get_frequencies(wids)
-        self._mass_add_wordinfo(wid2weight, docid)
+        docwords = widcode.encode(wids)
+        # An unacceptable docid is refused here, before anything is changed.
         self._docweight[docid] = docweight
-        self._docwords[docid] = widcode.encode(wids)
+        self._docwords[docid] = docwords
+        self._mass_add_wordinfo(wid2weight, docid)
         try:
             self.documentCount.change(1)
         except AttributeError:
diff --git a/src/zope/index/text/okapiindex.py b/src/zope/index/text/okapiindex.py
index ac1739e..25ba80e 100644
--- a/src/zope/index/text/okapiindex.py
+++ b/src/zope/index/text/okapiindex.py
@@ -246,8 +246,10 @@ class OkapiIndex(BaseIndex):
         return count
 
     def _reindex_doc(self, docid, text):
-        self._change_doc_len(-self._docweight[docid])
-        return BaseIndex._reindex_doc(self, docid, text)
+        old_doclen = self._docweight[docid]
+        count = BaseIndex._reindex_doc(self, docid, text)
+        self._change_doc_len(-old_doclen)
+        return count
 
     def unindex_doc(self, docid):
         if docid not in self._docwords:
-- 
2.43.0


From a34f50b895ffbf943c36e9aa69a7e5273f4231f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:18 +0000
Subject: [PATCH 16/18] fix: a keyword which can't be compared with itself is
 refused

---
 src/zope/index/keyword/index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zope/index/keyword/index.py b/src/zope/index/keyword/index.py
index 9364dfd..9040545 100644
--- a/src/zope/index/keyword/index.py
+++ b/src/zope/index/keyword/index.py
@@ -97,9 +97,10 @@ class KeywordIndex(Persistent):
                 self.unindex_doc(docid)
             return
 
-        # Nothing may change if a word can't be compared with those in the
-        # forward index.
+        # Nothing may change if a word can't be compared with itself or with
+        # those in the forward index.
         for word in new_kw:
+            new_kw.has_key(word)
             self._fwd_index.get(word)
 
         if old_kw is None:
-- 
2.43.0


From 928872554ff5b666dfe7d484b9ab10e896de7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:29 +0000
Subject: [PATCH 17/18] fix: a field value which can't be compared with itself
 is refused

---
 src/zope/index/field/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zope/index/field/index.py b/src/zope/index/field/index.py
index baf1ea1..6a89944 100644
--- a/src/zope/index/field/index.py
+++ b/src/zope/index/field/index.py
@@ -73,6 +73,9 @@ class FieldIndex(SortingIndexMixin, persistent.Persistent):
         # value is not acceptable, so nothing else may change before.
         set = self._fwd_index.get(value)
         if set is None:
+            # A value which can't be compared with itself would be refused
+            # when it is looked up.
+            self.family.OO.Set((value,)).has_key(value)
             set = self.family.IF.TreeSet()
             set.insert(docid)
             self._fwd_index[value] = set
-- 
2.43.0


From 3ec9c8589aad0888fe242c8457a8d18c36d59e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 18/18] fix: globs with many stars no longer take exponential
 time

---
 src/zope/index/text/lexicon.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/zope/index/text/lexicon.py b/src/zope/index/text/lexicon.py
index 3278707..d5c1b73 100644
--- a/src/zope/index/text/lexicon.py
+++ b/src/zope/index/text/lexicon.py
@@ -13,6 +13,7 @@
 ##############################################################################
 """Lexicon
 """
+import fnmatch
 import re
 
 from BTrees.IOBTree import IOBTree
@@ -119,15 +120,10 @@ class Lexicon(Persistent):
             # This is too efficient, so we raise an exception.
             raise QueryError(
                 "pattern %r shouldn't start with glob character" % pattern)
-        pat = re.escape(prefix)
-        for c in pattern:
-            if c == "*":
-                pat += ".*"
-            elif c == "?":
-                pat += "."
-            else:
-                pat += re.escape(c)
-        prog = re.compile(pat, re.DOTALL)
+        # The translation of a pattern with many "*" does not take forever to
+        # find that a word does not match.  A "[" is not special here.
+        pat = (prefix + pattern).replace("[", "[[]")
+        prog = re.compile(fnmatch.translate(pat))
         keys = self._wids.keys(prefix)  # Keys starting at prefix
         wids = []
         for key in keys:
-- 
2.43.0

