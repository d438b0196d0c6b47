From 520ada657cd85781cf4899214d08c848371838ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 01/42] fix: keep the failure of an earlier field when loading
 serialized objects

---
 src/util/serialization.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..e5e1012 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,7 +72,10 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    // a failure must not be forgotten when the next field can be read
+    if (!SerializeImpl<T>::DoSerializeLoad(o, this, parser_)) {
+      status_ = false;
+    }
   }
 
   void reset(StringPiece data) { parser_.reset(data); }
-- 
2.43.0


From d7ca22d9a75b2c8f864595e91a2a6ba412fa3aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 02/42] fix: reject serialized lists which are longer than the
 remaining data

---
 src/util/serialization.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index e5e1012..99fac2f 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -254,6 +254,8 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // every element takes at least one byte, do not trust corrupt sizes
+    JPP_RET_CHECK(sz <= p.remaining());
     o.reserve(sz);
     for (int i = 0; i < sz; ++i) {
       o.emplace_back();
-- 
2.43.0


From 1beb3103d8fed23368617ed964e1bd15d04d4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:09 +0000
Subject: [PATCH 03/42] fix: csv reader loses a trailing empty field at the end
 of file and never ends

---
 src/util/csv_reader.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..1b1fd83 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,11 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      // the last field can be empty: the text ends with a separator then
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From a8ebbdcf704cf23c9b670b76e328e4e60668505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:28 +0000
Subject: [PATCH 04/42] fix: compare all bytes of string pieces, including ones
 after a zero byte

---
 src/util/string_piece.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util/string_piece.cc b/src/util/string_piece.cc
index b96425b..979d3dc 100644
--- a/src/util/string_piece.cc
+++ b/src/util/string_piece.cc
@@ -15,12 +15,16 @@ std::ostream &operator<<(std::ostream &str, StringPiece sp) {
 
 bool operator==(StringPiece l, StringPiece r) {
   if (l.size() != r.size()) return false;
-  return std::strncmp(l.char_begin(), r.char_begin(), l.size()) == 0;
+  // strings can contain zero bytes, so str* functions are not usable here
+  if (l.empty()) return true;
+  return std::memcmp(l.char_begin(), r.char_begin(), l.size()) == 0;
 }
 
 bool operator<(StringPiece l, StringPiece r) {
   auto min_size = std::min(l.size(), r.size());
-  int res = std::strncmp(l.char_begin(), r.char_begin(), min_size);
+  int res = min_size == 0
+                ? 0
+                : std::memcmp(l.char_begin(), r.char_begin(), min_size);
   if (res == 0) {
     return l.size() < r.size();
   }
-- 
2.43.0


From cfa2ad56822257d8ea9e70e34e96c1141add139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 05/42] fix: find the surface column by its csv position, not
 by field order

---
 src/core/dic/dic_build_detail.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..080f267 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -171,8 +171,9 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  // position is 1-based
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From 5b00a8e5e2d26a94c5ab9b416b36165b9bd8d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 06/42] fix: list match features read the csv column of their
 field

---
 src/core/dic/dic_feature_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..3690964 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -91,7 +91,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From 50d9004b7022aeacedc7bb6a5b0d978066b0d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 07/42] fix: string list columns are split by their declared
 separator

---
 src/core/dic/dic_feature_impl.cc |  9 ++++++++-
 src/core/dic/field_import.cc     | 10 ++++++----
 src/core/dic/field_import.h      |  7 +++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 3690964..2748b5f 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -29,6 +29,12 @@ Status ColumnImportContext::initialize(
   // we want to have original content here
   StringPiece emptyStr = descr->emptyString;
 
+  if ((tp == FieldType::StringList || tp == FieldType::StringKVList) &&
+      descr->listSeparator.empty()) {
+    return JPPS_INVALID_PARAMETER << "the list separator of the field "
+                                  << descr->name << " is empty";
+  }
+
   switch (tp) {
     case FieldType::Int:
       try {
@@ -47,7 +53,8 @@ Status ColumnImportContext::initialize(
     case FieldType::StringList: {
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
-      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr});
+      importer.reset(new impl::StringListFieldImporter{
+          stor, colpos, emptyStr, descr->listSeparator});
       break;
     }
     case FieldType::StringKVList: {
diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..a172ba3 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -27,7 +27,8 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   values_.clear();
 
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     auto v = storage_->valueOf(key);
     JPP_DCHECK_NE(v, -1);
@@ -35,7 +36,7 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
     if (space == sp.end()) {
       break;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   i32 result = static_cast<i32>(buffer_->position());
@@ -49,13 +50,14 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     return true;
   }
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     storage_->increaseFieldValueCount(key);
     if (space == sp.end()) {
       return true;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   return true;
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..834b25f 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -152,10 +152,13 @@ class StringListFieldImporter : public StringFieldImporter {
    */
   util::CodedBuffer* buffer_;
   std::vector<i32> values_;
+  std::string separator_;
 
  public:
-  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore)
-      : StringFieldImporter::StringFieldImporter(storage, field, ignore) {}
+  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore,
+                          StringPiece separator = StringPiece{" "})
+      : StringFieldImporter::StringFieldImporter(storage, field, ignore),
+        separator_{separator.str()} {}
 
   bool importFieldValue(const util::CsvReader& csv) override;
 
-- 
2.43.0


From d7bdae21607eb99ddef3dba965c0296159cf78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 08/42] fix: rows of merged dictionary entries without data
 fields can be read

---
 src/core/dic/dic_entries.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..f2aea88 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -113,6 +113,8 @@ class DicEntryBuffer {
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
       remainingData_ = entryData.rawWithLimit(dataPtr, dataCnt);
+      // entries without data fields have only the number of rows
+      dataBuffer_[0] = numAlias;
     } else {
       auto totalCnt = numFeatures_ + numData_;
       auto actualData = entryData.rawWithLimit(dicPtr, totalCnt);
-- 
2.43.0


From 7c3ed5c4695e185fac4a3f755b8d86eb027cee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 09/42] fix: a period at the end of the text made the number
 maker read past the characters

---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 0ce935821887ad0a31266f5e7b9c07ddf11b9ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 10/42] fix: find a four character onomatopoeia at the end of
 the text

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..e45d1ef 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -58,7 +58,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From 0d4c3cc96d10e704998107738d43b5b1d27368bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:57 +0000
Subject: [PATCH 11/42] fix: an onomatopoeia is unknown when a part of it is
 not in the dictionary index

---
 src/core/analysis/onomatopoeia_creator.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index e45d1ef..0924d6a 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -21,7 +21,8 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
   for (LatticePosition i = 0; i < codepoints.size(); ++i) {
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
-    TraverseStatus status;
+    TraverseStatus status = TraverseStatus::NoNode;
+    bool nonode = false;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -31,7 +32,13 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
         for (; nextstep < i + halfLen * 2; ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
+          if (status == TraverseStatus::NoNode) {
+            nonode = true;
+          }
         }
+
+        if (nonode) status = TraverseStatus::NoNode;
+
         switch (status) {
           case TraverseStatus::NoNode: {
             LatticePosition start = i;
-- 
2.43.0


From 25d00fd51fcb3450a4a7b3b32d2b652e33136893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:49 +0000
Subject: [PATCH 12/42] fix: apply the score plugin before scores are stored
 when the global beam is off

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..896e1a7 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -235,8 +235,8 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From d1322d36656b1b58a07fe058b0619ba591823e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:17 +0000
Subject: [PATCH 13/42] fix: clearing a hash table forgets the markers of
 erased entries as well

---
 src/util/flatrep.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..b08285d 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -84,8 +84,9 @@ class FlatRep {
         for (uint32 i = 0; i < kWidth; i++) {
           if (b->marker[i] >= 2) {
             b->Destroy(i);
-            b->marker[i] = kEmpty;
           }
+          // markers of deleted entries must go as well
+          b->marker[i] = kEmpty;
         }
       }
     }
-- 
2.43.0


From 11ade3c35a83e841723a5fcbad8f3f45b992d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:35 +0000
Subject: [PATCH 14/42] fix: integer dictionary fields accept numbers

---
 src/core/dic/field_import.cc | 36 +++++++++++++++++++++++++-----------
 src/core/dic/field_import.h  |  3 ---
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index a172ba3..63020b9 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -4,6 +4,7 @@
 
 #include "field_import.h"
 #include <algorithm>
+#include <limits>
 #include "util/memory.hpp"
 
 namespace jumanpp {
@@ -69,22 +70,35 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
   buffer->writeVarint(0);
 }
 
-IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+IntFieldImporter::IntFieldImporter(i32 field) : fld_{field} {}
 
-i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
-  StringPiece sp = csv.field(fld_);
-  if (sp.size() == 0) {
-    return 0;
+namespace {
+// only non-negative decimal numbers which fit i32 are allowed
+bool parseIntField(StringPiece sp, i32* result) {
+  i64 value = 0;
+  for (char c : sp) {
+    if (c < '0' || c > '9') {
+      return false;
+    }
+    value = value * 10 + (c - '0');
+    if (value > std::numeric_limits<i32>::max()) {
+      return false;
+    }
   }
-  auto end = sp.char_end();
-  long res = std::strtol(sp.char_begin(), const_cast<char**>(&end), 10);
-  return static_cast<i32>(res);
+  *result = static_cast<i32>(value);
+  return true;
+}
+}  // namespace
+
+i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
+  i32 value = 0;
+  parseIntField(csv.field(fld_), &value);
+  return value;
 }
 
 bool IntFieldImporter::importString(StringPiece sp) {
-  if (sp.size() == 0) return true;
-  return std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_);
+  i32 value = 0;
+  return parseIntField(sp, &value);
 }
 
 Status StringStorage::makeStorage(util::CodedBuffer* result) {
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 834b25f..b3628b1 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -6,7 +6,6 @@
 #define JUMANPP_DIC_IMPORT_H
 
 #include <algorithm>
-#include <regex>
 #include "util/char_buffer.h"
 #include "util/coded_io.h"
 #include "util/csv_reader.h"
@@ -212,8 +211,6 @@ void writePtrsAsDeltas(C& values, util::CodedBuffer& buffer) {
 
 class IntFieldImporter : public FieldImporter {
   i32 fld_;
-  std::regex re_;
-  std::match_results<const char*> mr_;
 
  public:
   IntFieldImporter(i32 field);
-- 
2.43.0


From 94010eceb346276235012019e5d0e19f3ae68e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:35 +0000
Subject: [PATCH 15/42] fix: length features of unknown words, sentence ends
 and reordered fields

---
 src/core/analysis/extra_nodes.h       |  9 +++++++--
 src/core/dic/dictionary.h             | 13 +++++++++++++
 src/core/dic/field_reader.h           |  4 ++--
 src/core/impl/feature_impl_pattern.cc |  2 +-
 src/core/impl/feature_impl_prim.cc    |  7 ++++++-
 src/core/impl/feature_impl_types.h    | 15 ++++++++++++---
 6 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/core/analysis/extra_nodes.h b/src/core/analysis/extra_nodes.h
index a32a7af..3a39634 100644
--- a/src/core/analysis/extra_nodes.h
+++ b/src/core/analysis/extra_nodes.h
@@ -9,6 +9,7 @@
 #include "core/analysis/dic_reader.h"
 #include "core/core_types.h"
 #include "util/array_slice.h"
+#include "util/characters.h"
 #include "util/memory.hpp"
 #include "util/types.hpp"
 
@@ -86,10 +87,14 @@ class ExtraNodesContext {
     return extraNodes_[idx];
   }
 
-  i32 lengthOf(EntryPtr eptr) const {
+  i32 lengthOf(EntryPtr eptr, bool useBytes) const {
     JPP_DCHECK(eptr.isSpecial());
     auto n = node(eptr);
-    return static_cast<i32>(n->header.unk.surface.size());
+    auto& surface = n->header.unk.surface;
+    if (useBytes) {
+      return static_cast<i32>(surface.size());
+    }
+    return chars::numCodepoints(surface);
   }
 
   void putPlaceholderData(EntryPtr ptr, i32 idx, i32 value) {
diff --git a/src/core/dic/dictionary.h b/src/core/dic/dictionary.h
index e36ef03..b820b62 100644
--- a/src/core/dic/dictionary.h
+++ b/src/core/dic/dictionary.h
@@ -48,6 +48,19 @@ class FieldsHolder {
     return nullptr;
   }
 
+  /**
+   * Find a field by the position of its value in dictionary entries.
+   * Values in entries have their own order: features go before data.
+   */
+  const DictionaryField* byEntryIndex(i32 idxInEntry) const {
+    for (auto& f : fields_) {
+      if (f.idxInEntry == idxInEntry) {
+        return &f;
+      }
+    }
+    return nullptr;
+  }
+
   Status load(const BuiltDictionary& dic);
 
   size_t totalFields() const { return fields_.size(); }
diff --git a/src/core/dic/field_reader.h b/src/core/dic/field_reader.h
index 5ee7c08..5aefd34 100644
--- a/src/core/dic/field_reader.h
+++ b/src/core/dic/field_reader.h
@@ -30,7 +30,7 @@ class StringStorageReader {
     return parser.readStringPiece(ret);
   }
 
-  i32 lengthOf(i32 ptr) {
+  i32 lengthOf(i32 ptr) const {
     ptrdiff_t realPtr = static_cast<ptrdiff_t>(ptr) << alignPower_;
     JPP_DCHECK_IN(realPtr, 0, data_.size());
     util::CodedBufferParser parser{data_.from(realPtr)};
@@ -39,7 +39,7 @@ class StringStorageReader {
     return value;
   }
 
-  i32 numCodepoints(i32 ptr) {
+  i32 numCodepoints(i32 ptr) const {
     ptrdiff_t realPtr = static_cast<ptrdiff_t>(ptr) << alignPower_;
     JPP_DCHECK_IN(realPtr, 0, data_.size());
     auto start = data_.from(realPtr);
diff --git a/src/core/impl/feature_impl_pattern.cc b/src/core/impl/feature_impl_pattern.cc
index 684f478..0449ee6 100644
--- a/src/core/impl/feature_impl_pattern.cc
+++ b/src/core/impl/feature_impl_pattern.cc
@@ -15,7 +15,7 @@ Status DynamicPatternFeatureImpl::initialize(
   index_ = pfd.index;
   auto &computeFeatures = parent->compute_;
   for (auto ref : pfd.references) {
-    if (ref < 0 || ref > computeFeatures.size()) {
+    if (ref < 0 || ref >= computeFeatures.size()) {
       return JPPS_INVALID_PARAMETER
              << "compute feature is out of bound: " << ref << " for pattern "
              << index_;
diff --git a/src/core/impl/feature_impl_prim.cc b/src/core/impl/feature_impl_prim.cc
index fbc78ce..11922c7 100644
--- a/src/core/impl/feature_impl_prim.cc
+++ b/src/core/impl/feature_impl_prim.cc
@@ -89,7 +89,12 @@ Status CodepointLengthPrimFeatureImpl::initialize(
 
 Status FeatureConstructionContext::checkFieldType(
     i32 field, std::initializer_list<spec::FieldType> columnTypes) const {
-  auto &fld = fields->at(field);
+  auto fldPtr = fields->byEntryIndex(field);
+  if (field < 0 || fldPtr == nullptr) {
+    return JPPS_INVALID_PARAMETER << "dic field with index " << field
+                                  << " is not usable in features";
+  }
+  auto &fld = *fldPtr;
 
   for (auto tp : columnTypes) {
     if (tp == fld.columnType) {
diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index b332d6d..93e9d93 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -61,7 +61,12 @@ class FeatureConstructionContext {
   Status checkProvidedFeature(u32 index) const { return Status::Ok(); }
 
   Status setLengthField(i32 fieldNum, LengthFieldSource* field) {
-    auto fld = fields->at(fieldNum);
+    auto fldPtr = fields->byEntryIndex(fieldNum);
+    if (fieldNum < 0 || fldPtr == nullptr) {
+      return Status::InvalidState()
+             << "field with index " << fieldNum << " is not usable in features";
+    }
+    auto& fld = *fldPtr;
     auto type = fld.columnType;
     if (type == spec::FieldType::StringList) {
       *field = LengthFieldSource::Positions;
@@ -156,9 +161,13 @@ class PrimitiveFeatureContext {
   i32 lengthOf(NodeInfo nodeInfo, i32 fieldNum, i32 fieldPtr,
                LengthFieldSource field, bool useBytes) {
     if (fieldPtr < 0) {
-      return extraCtx_->lengthOf(nodeInfo.entryPtr());
+      auto eptr = nodeInfo.entryPtr();
+      if (eptr == EntryPtr::BOS() || eptr == EntryPtr::EOS()) {
+        return 0;
+      }
+      return extraCtx_->lengthOf(eptr, useBytes);
     }
-    auto fld = fields_.at(fieldNum);
+    auto& fld = *fields_.byEntryIndex(fieldNum);
     switch (field) {
       case LengthFieldSource::Positions:
         return fld.postions.lengthOf(fieldPtr);
-- 
2.43.0


From 68c4792dbb105de21ac2a1f7282cdcdb0d0865a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 16/42] fix: generated static feature code compiles for models
 without some ngram orders and with repeated unigrams

---
 .../codegen/partial_ngram_feature_codegen.cc  | 36 +++++++++----------
 src/core/codegen/pattern_feature_codegen.cc   | 12 ++++++-
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/core/codegen/partial_ngram_feature_codegen.cc b/src/core/codegen/partial_ngram_feature_codegen.cc
index eee36c4..402057f 100644
--- a/src/core/codegen/partial_ngram_feature_codegen.cc
+++ b/src/core/codegen/partial_ngram_feature_codegen.cc
@@ -181,6 +181,20 @@ class VarNamer {
   }
 };
 
+// C++ does not have empty arrays, so a zero which is not a part of the table is
+// always present at the end
+static void printIndexTable(util::io::Printer& p, StringPiece name,
+                            util::ArraySlice<NgramFeatureCodegen> ngrams,
+                            int reference) {
+  p << "\nstatic constexpr jumanpp::u32 " << name << "Data[] = {\n  ";
+  for (auto& ng : ngrams) {
+    p << ng.spec().references[reference] << ", ";
+  }
+  p << "0\n};";
+  p << "\nconst ::jumanpp::util::ArraySlice<jumanpp::u32> " << name << "{"
+    << name << "Data, " << ngrams.size() << "};";
+}
+
 void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
   p << "\n\nvoid applyBiTri("  // args
     << JPP_TEXT(::jumanpp::core::features::FeatureBuffer*) << " buffers, \n"
@@ -206,25 +220,9 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
 
     p << "\nauto buf1 = buffers->valBuf1(numBigrams);";
     p << "\nauto buf2 = buffers->valBuf2(numBigrams);";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1BiFeatureIdxes[numBigrams] = {\n  ";
-    for (auto& bi : bigrams_) {
-      p << bi.spec().references[1] << ", ";
-    }
-    p << "\n};";
-
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[1] << ", ";
-    }
-    p << "\n};";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t2TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[2] << ", ";
-    }
-    p << "\n};";
+    printIndexTable(p, "t1BiFeatureIdxes", bigrams_, 1);
+    printIndexTable(p, "t1TriFeatureIdxes", trigrams_, 1);
+    printIndexTable(p, "t2TriFeatureIdxes", trigrams_, 2);
 
     p << "\n::jumanpp::core::features::impl::applyBiTriFullKernel(";
     {
diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 2728c58..f5d1ead 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -3,6 +3,7 @@
 //
 
 #include "core/codegen/pattern_feature_codegen.h"
+#include <map>
 #include "core/codegen/ngram_feature_codegen.h"
 #include "core/features_api.h"
 #include "core/impl/feature_impl_types.h"
@@ -208,8 +209,13 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
     numVars = 2;
   }
 
+  if (numUniPats == 0) {
+    p << "\nfloat score_part_0 = 0;";
+  }
+
   // first compute unigram scores + output features used by non-unigrams
   int varUsage = 0;
+  std::map<i32, std::string> patternNames;
   for (auto &uni : spec_.features.ngram) {
     if (uni.references.size() != 1) {
       continue;
@@ -220,7 +226,11 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
     p << "\n// pattern feature #" << pat.index
       << " (with unigram), usage=" << pat.usage;
 
-    auto name = patternValue(p, pat);
+    // several unigrams can use the same pattern
+    auto &name = patternNames[pat.index];
+    if (name.empty()) {
+      name = patternValue(p, pat);
+    }
     NgramFeatureCodegen ngramCodegen{uni, spec_};
     ngramCodegen.makePartialObject(p);
     auto uniVal = ngramCodegen.rawUniStep0(p, name, "mask");
-- 
2.43.0


From 917ca5aac768e5cf7c90cecec2eba5d003ce686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 17/42] fix: scoring with the global beam read weights by
 uninitialised indices

---
 src/core/analysis/score_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..2a096e9 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -46,6 +46,7 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
   analyzer->core().features().ngramPartial->allocateBuffers(&featureBuffer_,
                                                             runStats_, alloc);
   util::fill(featureBuffer_.valueBuffer1, 0);
+  util::fill(featureBuffer_.valueBuffer2, 0);
 
   globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
-- 
2.43.0


From c5d5f4eee7664d43ab066394c0c7c362b3d01f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:53 +0000
Subject: [PATCH 18/42] fix: walking over the best path of an empty text reads
 uninitialised counters

---
 src/core/analysis/analysis_result.cc | 3 +--
 src/core/analysis/analysis_result.h  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..d8e7d94 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,7 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  reset();
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +71,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
diff --git a/src/core/analysis/analysis_result.h b/src/core/analysis/analysis_result.h
index 1731711..9dac3b5 100644
--- a/src/core/analysis/analysis_result.h
+++ b/src/core/analysis/analysis_result.h
@@ -27,8 +27,8 @@ class AnalysisPath {
   // begin[first] == end[first+1] == offsets[offsets.size - 2]
   // end[first] == offsets[offsets.size - 1]
   std::vector<u32> offsets_;
-  i32 currentChunk_;
-  i32 currentNode_;
+  i32 currentChunk_ = -1;
+  i32 currentNode_ = -1;
 
  public:
   bool nextBoundary() {
-- 
2.43.0


From da74b566406b194792975b1f0f33e02f91fefdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 19/42] fix: part of speech ids of a dictionary which lacks
 some sub-parts of speech

---
 src/jumandic/shared/jumandic_id_resolver.cc | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..a9aa672 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -19,6 +19,16 @@ util::FlatMap<StringPiece, i32> readFieldToMap(
   return result;
 }
 
+// parts which are not applicable ("*") are empty in the dictionary and
+// have zero pointers
+i32 pointerOf(const util::FlatMap<StringPiece, i32>& map, StringPiece part) {
+  if (part == StringPiece{"*"}) {
+    return 0;
+  }
+  auto it = map.find(part);
+  return it == map.end() ? -1 : it->second;
+}
+
 template <typename K, typename V, typename H, typename E>
 V findOr(const util::FlatMap<K, V, H, E>& map, const K& key, V defVal) {
   auto it = map.find(key);
@@ -59,9 +69,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int i = 0; i < posInfoCount; ++i) {
     auto& pos = posInfo[i];
-    auto posId = findOr(pos2id, pos.part1, 0);
-    auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (posId != 0 || subposId != 0) {
+    auto posId = pointerOf(pos2id, pos.part1);
+    auto subposId = pointerOf(subPos2id, pos.part2);
+    if (posId >= 0 && subposId >= 0) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
     }
@@ -69,10 +79,12 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
 
   for (int j = 0; j < conjInfoCount; ++j) {
     auto& conj = conjInfo[j];
-    auto ctId = findOr(conjType2id, conj.part1, 0);
-    auto cfId = findOr(conjForm2id, conj.part2, 0);
-    if (ctId != 0) {
-      conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+    auto ctId = pointerOf(conjType2id, conj.part1);
+    auto cfId = pointerOf(conjForm2id, conj.part2);
+    if (ctId > 0) {
+      if (cfId >= 0) {
+        conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+      }
       conjMap[CompositeId{ctId, 0}] = CompositeId{conj.id1, 0};
     }
   }
-- 
2.43.0


From 8f76c0e644d926fd801fa3e634df67116fb0bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 20/42] fix: lattice output loses the comment of an empty text

---
 src/jumandic/shared/lattice_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..f263249 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -85,7 +85,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   printer.reset();
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
-    printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From c3429bdcdd9b6bd538a66f15eaa6043374c83b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:44 +0000
Subject: [PATCH 21/42] fix: lattice output reads past the beam of the end of
 the text when more analyses are wanted

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index f263249..a03fc35 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -113,7 +113,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
-- 
2.43.0


From cb8a79581f61042854b7135881b320790a5b38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:37 +0000
Subject: [PATCH 22/42] fix: subset of the dictionary repeats the words which
 occur several times

---
 src/jumandic/shared/mdic_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 660b3e2..9380602 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -25,7 +25,7 @@ Status MdicFormat::format(const core::analysis::Analyzer& analyzer,
 
     for (int i = 0; i < ninfo.size(); ++i) {
       auto eptr = ninfo.at(i).entryPtr();
-      if (eptr.isDic() && displayed_.count(eptr.rawValue()) == 0) {
+      if (eptr.isDic() && displayed_.insert(eptr.rawValue()).second) {
         JPP_RETURN_IF_ERROR(formatNode(eptr.rawValue(), om));
       }
     }
-- 
2.43.0


From 2dad9281f8c6cccd98345773d2882e9e42e192eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:37 +0000
Subject: [PATCH 23/42] fix: fields with line breaks are not quoted in the
 subset of the dictionary

---
 src/jumandic/shared/mdic_format.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 9380602..1e209e6 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -41,15 +41,19 @@ Status MdicFormat::initialize(const core::analysis::OutputManager& om) {
 
 namespace fmt {
 
+// such fields have to be quoted
+bool isSpecialChar(char c) {
+  return c == '"' || c == ',' || c == '\n' || c == '\r';
+}
+
 util::io::FastPrinter& printMaybeQuoted(util::io::FastPrinter& printer,
                                         StringPiece data) {
   auto end = data.end();
   auto beg = data.begin();
-  auto noCommas = std::find(beg, end, ',') == end;
-  auto it = std::find(beg, end, '"');
-  if (noCommas && it == end) {
+  if (std::none_of(beg, end, isSpecialChar)) {
     printer << data;
   } else {
+    auto it = std::find(beg, end, '"');
     printer << '"';
     while (it != end) {
       printer << StringPiece{beg, it};
@@ -71,8 +75,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
   auto itemsCopy = items;
   while (itemsCopy.next()) {
     auto sp = itemsCopy.key();
-    auto it = std::find_if(sp.begin(), sp.end(),
-                           [](char c) { return c == '"' || c == ','; });
+    auto it = std::find_if(sp.begin(), sp.end(), isSpecialChar);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
@@ -81,8 +84,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
       continue;
     }
     sp = itemsCopy.value();
-    it = std::find_if(sp.begin(), sp.end(),
-                      [](char c) { return c == '"' || c == ','; });
+    it = std::find_if(sp.begin(), sp.end(), isSpecialChar);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
-- 
2.43.0


From 3a82e633e04296b3042e450ba7eb37e1f46a34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:06 +0000
Subject: [PATCH 24/42] fix: a partially annotated example keeps the comment of
 the one read before

---
 src/core/input/partial_example_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..5a5849b 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -25,6 +25,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->file_ = filename_;
   bool firstLine = true;
   i32 boundary = 2;
+  result->comment_.clear();
   result->boundaries_.clear();
   result->noBreak_.clear();
   result->surface_.clear();
-- 
2.43.0


From 32fcf3075038f7c81bcb00d043b96d631f2ffadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:12 +0000
Subject: [PATCH 25/42] fix: the last csv training example is lost without an
 empty line at the end of the data

---
 src/core/training/full_example.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..612a465 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -71,7 +71,8 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
-  finished_ = true;
+  // the last example can be ended by the end of the data
+  finished_ = result->lengths_.empty();
   return Status::Ok();
 }
 
-- 
2.43.0


From 5f07d39220e8b99ed0a51255521d1006c66a1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:12 +0000
Subject: [PATCH 26/42] fix: the last partially annotated example is lost
 without an empty line at the end of the file

---
 src/core/training/trainer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..f37caa0 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -144,7 +144,8 @@ Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
     auto &partialTrainer = trainer->trainer_.value();
     JPP_RETURN_IF_ERROR(reader->readExample(&partialTrainer.example(), &eof));
     trainer->reset();
-    if (eof) {
+    // the last example can be ended by the end of the data
+    if (eof && partialTrainer.example().surface().empty()) {
       break;
     }
     JPP_DCHECK(scorerDef_);
-- 
2.43.0


From 3d3c448a0da7391d1acd4eb2dd578467f177a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 27/42] fix: the best words are compared with the annotated
 ones by the columns of the dictionary

---
 src/core/training/loss.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..6ed210c 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,10 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.weight == 0) {
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 931de25aeefd769a8f9f7c9520cb92ea783e0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 28/42] fix: the last features of the update had the opposite
 sign

---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 6ed210c..95662e2 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -239,11 +239,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From d491af121ddf008472221a35f1763edb59356fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 29/42] fix: annotated unknown words are compared with the
 lattice by the columns of the dictionary

---
 src/core/training/gold_example.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..200187d 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
-- 
2.43.0


From 2c465e7b8d5a1d09edcf5271a97822b79500cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:49 +0000
Subject: [PATCH 30/42] fix: annotated unknown words with ignored fields wrote
 in front of the fields

---
 src/core/training/gold_example.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 200187d..dd2ee02 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -117,6 +117,9 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
+    if (idx < 0) {
+      continue;  // ignored in training and not a feature
+    }
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
-- 
2.43.0


From 46018eff89209d850201b687ccc7decbfd0fe481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:53 +0000
Subject: [PATCH 31/42] fix: training with an empty partially annotated example
 read uninitialised memory

---
 src/core/training/partial_trainer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/partial_trainer.cc b/src/core/training/partial_trainer.cc
index 1e547b5..6d4737d 100644
--- a/src/core/training/partial_trainer.cc
+++ b/src/core/training/partial_trainer.cc
@@ -138,6 +138,9 @@ void PartialTrainer::markGold(
 void PartialTrainer::handleEos() {
   auto l = analyzer_->lattice();
   auto eosBnd = l->createdBoundaryCount() - 1;
+  if (eosBnd == 2) {  // empty text
+    return;
+  }
   auto eos = l->boundary(eosBnd);
   auto eosBeam = eos->starts()->beamData();
   auto top1 = eosBeam.at(0);
-- 
2.43.0


From cf94222ab777cf0a79cb9dd621f779a6aab8e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:53 +0000
Subject: [PATCH 32/42] fix: words of training examples with too few fields
 were read before their number was checked

---
 src/core/training/full_example.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 612a465..53614ab 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -114,11 +114,6 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
   codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -126,6 +121,11 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-- 
2.43.0


From 6d458269d85b920eb22bd381d1ca6d1c390d0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:00 +0000
Subject: [PATCH 33/42] fix: partial training found no words over a place
 without boundary when they end the text

---
 src/core/training/partial_trainer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/partial_trainer.cc b/src/core/training/partial_trainer.cc
index 6d4737d..e4b74b0 100644
--- a/src/core/training/partial_trainer.cc
+++ b/src/core/training/partial_trainer.cc
@@ -216,7 +216,7 @@ analysis::EntryBeam PartialTrainer::findCandidatesSpanning(i32 boundary) {
 
   u32 valid = 0;
 
-  for (auto bnd = boundary + 1; bnd < eosBnd; ++bnd) {
+  for (auto bnd = boundary + 1; bnd <= eosBnd; ++bnd) {
     analysis::EntryBeam::initializeBlock(buffer);
     auto res = candidatesEndingOn(bnd, boundary, {buffer});
     for (auto& ptr : res.finalize()) {
@@ -229,7 +229,7 @@ analysis::EntryBeam PartialTrainer::findCandidatesSpanning(i32 boundary) {
   }
 
   if (valid == 0) {
-    for (auto bnd = boundary + 1; bnd < eosBnd; ++bnd) {
+    for (auto bnd = boundary + 1; bnd <= eosBnd; ++bnd) {
       analysis::EntryBeam::initializeBlock(buffer);
       auto res = makeUpCandidatesEndingOn(bnd, boundary, {buffer});
       for (auto& ptr : res.finalize()) {
-- 
2.43.0


From 105ef0f333c8516e1d9b42be268bf2c7a6d52c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 34/42] fix: moved file mappings lost their address, empty ones
 were unmapped

---
 src/util/mmap_impl_unix.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index a0b85a3..deab429 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -195,7 +195,11 @@ void MappedFile::close() {
   }
 }
 
-MappedFileFragment::MappedFileFragment() noexcept : address_{MAP_FAILED} {}
+MappedFileFragment::MappedFileFragment() noexcept
+    : baseAddress_{MAP_FAILED},
+      address_{MAP_FAILED},
+      alignedSize_{0},
+      size_{0} {}
 
 MappedFileFragment::~MappedFileFragment() {
   if (!isClean()) {
@@ -204,6 +208,9 @@ MappedFileFragment::~MappedFileFragment() {
 }
 
 void MappedFileFragment::unmap() {
+  if (isClean()) {
+    return;
+  }
   ::munmap(baseAddress_, alignedSize_);
   baseAddress_ = MAP_FAILED;
   address_ = MAP_FAILED;
@@ -226,14 +233,25 @@ StringPiece MappedFileFragment::asStringPiece() const {
 }
 
 MappedFileFragment::MappedFileFragment(MappedFileFragment &&o) noexcept
-    : address_{o.address_}, size_{o.size_} {
+    : baseAddress_{o.baseAddress_},
+      address_{o.address_},
+      alignedSize_{o.alignedSize_},
+      size_{o.size_} {
+  o.baseAddress_ = MAP_FAILED;
   o.address_ = MAP_FAILED;
 }
 
 MappedFileFragment &MappedFileFragment::operator=(
     MappedFileFragment &&o) noexcept {
+  if (this == &o) {
+    return *this;
+  }
+  unmap();
+  baseAddress_ = o.baseAddress_;
   address_ = o.address_;
+  alignedSize_ = o.alignedSize_;
   size_ = o.size_;
+  o.baseAddress_ = MAP_FAILED;
   o.address_ = MAP_FAILED;
   return *this;
 }
-- 
2.43.0


From 4c5cb14cf87ca905dd621c9df20e87166ecfa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 35/42] fix: truncated model files were accepted, full model
 headers were not

---
 src/core/impl/model_io.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..9f8e90d 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -121,7 +121,7 @@ Status FilesystemModel::open(StringPiece name) {
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.slice(sizeof(ModelMagic), 4096);
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
@@ -129,6 +129,11 @@ Status FilesystemModel::open(StringPiece name) {
                               << file_->name;
   }
 
+  if (hdrSize > rest.size() - cbp.numReadBytes()) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " has corrupted model header";
+  }
+
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
   if (!l.load(&file_->rawModel)) {
@@ -153,6 +158,11 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.offset > modelData.size() ||
+          raw.size > modelData.size() - raw.offset) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is truncated or corrupted";
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From e046e334e00e595d61c5a4e6fa4dbf01a024459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 36/42] fix: references of corrupt dictionary descriptions were
 not checked

---
 src/core/dic/dic_builder.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index a2bc1e4..d59dee9 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -165,12 +165,27 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
   }
   for (int j = 0; j < dic->fieldData.size(); ++j) {
     auto &f = dic->fieldData[j];
+    if (f.specIndex < 0 || f.specIndex >= spec_->dictionary.fields.size()) {
+      return JPPS_INVALID_PARAMETER << "built field refers to a column "
+                                    << f.specIndex
+                                    << " which is not in the spec";
+    }
     auto &fd = spec_->dictionary.fields[f.specIndex];
     if (f.dicIndex != fd.dicIndex) {
       return JPPS_INVALID_PARAMETER << "something went wrong and built field "
                                        "dicIndex !=  spec field dicIndex: "
                                     << f.dicIndex << " vs " << fd.dicIndex;
     }
+    auto storageOk = [](i32 idx, const std::vector<StringPiece> &storages) {
+      return idx == spec::InvalidInt ||
+             (idx >= 0 && idx < static_cast<i32>(storages.size()));
+    };
+    if (!storageOk(fd.stringStorage, dic->stringStorages) ||
+        !storageOk(fd.intStorage, dic->intStorages)) {
+      return JPPS_INVALID_PARAMETER
+             << "column " << fd.name
+             << " refers to a storage which is not in the dictionary";
+    }
     f.stringStorageIdx = fd.stringStorage;
     if (fd.stringStorage != spec::InvalidInt) {
       f.stringContent = dic->stringStorages[fd.stringStorage];
-- 
2.43.0


From 2c1a4e0a8528b81214cb8f90d3c683e4ab886903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:05 +0000
Subject: [PATCH 37/42] fix: mapping a piece behind the original end of a file
 again zeroed its last byte

---
 src/util/mmap_impl_unix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/mmap_impl_unix.h b/src/util/mmap_impl_unix.h
index deab429..0c120cd 100644
--- a/src/util/mmap_impl_unix.h
+++ b/src/util/mmap_impl_unix.h
@@ -145,6 +145,7 @@ Status MappedFile::map(MappedFileFragment *view, size_t offset, size_t size,
                                     << filename_ << " to " << endoffset
                                     << "bytes";
         }
+        size_ = endoffset;
       }
       protection = PROT_READ | PROT_WRITE;
       flags = MAP_SHARED;
-- 
2.43.0


From fa3b3dc67f4d0ade63b53becb7a2cc495ce514de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 38/42] fix: the language model saw the previous word at all
 places of its history

---
 src/core/analysis/rnn_scorer_gbeam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..43e43f7 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,9 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        if (prev->prev != nullptr) {
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From 93e664207819e0fcfb11ee2725f8719b04cebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 39/42] fix: paths of the language model were collapsed onto
 another history

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From 7b09a8ddce4da63ffc325ff65a1f00086b2f3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 40/42] fix: the scale of a saved language model was used as
 its bias

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 43e43f7..a4553b3 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -465,8 +465,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From 61f70adff0a871eb2835a34043c8e5e08e9a2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 41/42] fix: overriding a setting of a saved language model
 reset its weights

---
 src/core/env.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..92b1adf 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -89,9 +89,11 @@ void JumanppEnv::setRnnConfig(
     if (scorers_.others.empty()) {
       scorers_.others.push_back(&rnnHolder_);
     }
+    // passed values override only the respective saved ones
+    auto& merged = rnnHolder_.config();
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    scorers_.scoreWeights[0] = merged.perceptronWeight;
+    scorers_.scoreWeights[1] = merged.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From eed24c76bc8b009ae48fe231db1cbc793608b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:03 +0000
Subject: [PATCH 42/42] fix: incomplete language models were accepted, small
 ones refused

---
 src/core/analysis/rnn_scorer_gbeam.cc | 10 +++++++---
 src/rnn/mikolov_rnn.cc                | 10 ++++++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index a4553b3..11d5892 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -403,7 +403,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (nrows * ncols * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -416,7 +416,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -432,6 +432,10 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   if (p == nullptr) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
+  if (p->data.size() != 7) {
+    return JPPS_INVALID_PARAMETER << "RNN model must have 7 pieces, it had "
+                                  << p->data.size();
+  }
 
   RnnModelHeader header{state_->config, {}, {}, {}};
 
@@ -452,7 +456,7 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.layerSize, &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..653c7f6 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -174,6 +174,16 @@ Status MikolovModelReader::parse() {
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
+  if (hdr.maxentOrder < 1 || hdr.maxentOrder > 4) {
+    return JPPS_NOT_IMPLEMENTED
+           << "rnn models must have maxent features of orders from 1 to 4, "
+           << "order was " << hdr.maxentOrder;
+  }
+  if (hdr.maxentSize <= hdr.vocabSize) {
+    return JPPS_INVALID_PARAMETER << "maxent table of rnn model is too small: "
+                                  << hdr.maxentSize << " entries for "
+                                  << hdr.vocabSize << " words";
+  }
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
   // 3 comes from rounding to next value + sizeof(float)
-- 
2.43.0

