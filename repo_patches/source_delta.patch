From 19db643e30fae4ce0b3544daf5091073aee82a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 01/45] fix: ReadLine: report the first end-of-file as success
 after an unterminated last line

A text file whose last line has no newline made the call after that
line return an IOError, so symbol tables and scp lists without a final
newline were rejected.
---
 src/util.cc | 11 +++++++----
 src/util.h  |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..d16ffae 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -60,11 +60,11 @@ Status StringToLong(const std::string &str, long *val) {
 }
 
 
-ReadableFile::ReadableFile(): fd_(nullptr), file_size_(0), owned_(true) {
+ReadableFile::ReadableFile(): fd_(nullptr), file_size_(0), owned_(true), eof_reported_(false) {
 }
 
 ReadableFile::ReadableFile(FILE *fd):
-    fd_(fd), file_size_(0), owned_(false) {
+    fd_(fd), file_size_(0), owned_(false), eof_reported_(false) {
 }
 
 ReadableFile::~ReadableFile() {
@@ -74,6 +74,7 @@ ReadableFile::~ReadableFile() {
 
 Status ReadableFile::Open(const std::string &filename) {
   filename_ = filename;
+  eof_reported_ = false;
   fd_ = fopen(filename.c_str(), "rb");
   if (fd_ == NULL) {
     return Status::IOError(util::Format("Unable to open {}", filename));
@@ -88,8 +89,8 @@ Status ReadableFile::Open(const std::string &filename) {
 }
 
 bool ReadableFile::ReadLine(std::string *line, Status *status) {
-  // Failed if it already reached EOF
-  if (feof(fd_)) {
+  // Failed if EOF was already reported
+  if (eof_reported_) {
     *status = Status::IOError(
         util::Format("EOF already reached: {}", filename_));
     return false;
@@ -101,6 +102,8 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
   if (s == NULL) {
     if (feof(fd_)) {
       // First time that reached EOF
+      eof_reported_ = true;
+      *status = Status::OK();
       return false;
     } else {
       *status = Status::IOError(filename_);
diff --git a/src/util.h b/src/util.h
index 3d23407..a4a5e0b 100644
--- a/src/util.h
+++ b/src/util.h
@@ -162,6 +162,7 @@ class ReadableFile {
   FILE *fd_;
   int64_t file_size_;
   bool owned_;
+  bool eof_reported_;  // ReadLine() already reported the end-of-file
 };
 
 // To check if a class have 'previous' field
-- 
2.43.0


From c07142eddf61a70cc23c7fb18a258aedbbb53a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 02/45] fix: ReadLine: do not split lines longer than 4095
 bytes

---
 src/util.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d16ffae..18bc3a1 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -96,10 +96,14 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     return false;
   }
 
-  // Readline
+  // Readline. A line longer than the chunk is read by several fgets() calls
   std::array<char, 4096> chunk;
-  char *s = fgets(chunk.data(), chunk.size(), fd_);
-  if (s == NULL) {
+  std::string content;
+  while (content.empty() || content.back() != '\n') {
+    if (fgets(chunk.data(), chunk.size(), fd_) == NULL) break;
+    content += chunk.data();
+  }
+  if (content.empty()) {
     if (feof(fd_)) {
       // First time that reached EOF
       eof_reported_ = true;
@@ -112,7 +116,7 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
   }
 
   // Trim the tailing '\r' or '\n'
-  *line = s;
+  *line = content;
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
-- 
2.43.0


From 90d9484591b958f92c1c6e1bbf30ed1c3c4373fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 03/45] fix: GCPool::GC: include the last allocated node in
 unmark and sweep

The last node kept its mark from the previous collection, so the next
mark phase did not follow its previous() chain and freed live nodes.
---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..7441fd8 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -184,7 +184,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -217,7 +217,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From 21140cd21eb37fba4a97cc396bb799ca9d49ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 04/45] fix: Pool::Clear: destroy only objects in blocks that
 are in use

After a Clear() the pool reuses its blocks from the first one, so the
next Clear() destroyed objects of unused blocks a second time.
---
 src/pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 7441fd8..b77f83b 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -84,8 +84,8 @@ class Pool {
         }
       }
 
-      // The last block
-      T *last_block = blocks_.back();
+      // The block in use, blocks after it have no live object
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From fe0bfd854785eeba860287f8f4099a5d9454a9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 05/45] fix: Decoder: do not read the beam of a search that has
 no active tokens

---
 src/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..397e1a6 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -301,6 +301,9 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
   PK_DEBUG(util::Format("toks_.size() = {}", toks_.size()));
   toks_.swap(prev_toks_);
 
+  // The search has already died, there is nothing to propagate
+  if (prev_toks_.empty()) return INFINITY;
+
   // Calculate beam_cutoff of beam
   float adaptive_beam = INFINITY;
   Token *best_tok = 0;
-- 
2.43.0


From ace41f66a52496c198c05714759ff41da2b753ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 06/45] fix: Decoder::BestPath: do not add the final weight of
 the graph twice

best_cost already includes it at end-of-stream, and before that the
weight of a non-final state became infinite.
---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 397e1a6..f6b3243 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -428,7 +428,6 @@ Decoder::Hypothesis Decoder::BestPath() {
   }
 
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From 9bec1a4c58d99ee6aed6481cec1a03e7dc0e70ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 07/45] fix: ce_stt_end_of_stream: check the utterance before
 using it

---
 src/ce_stt.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..5e847f5 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -341,12 +341,11 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
-
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
+  ce_utt_internal_t *utt = c_utt->internal;
 
   // Process remained frames in AM
   Matrix<float> log_prob;
-- 
2.43.0


From 7f5376689758c9fefa8c60ebbe3aee691f77d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 08/45] fix: ce_stt_destroy: free the recognizer itself

---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 5e847f5..ed29c30 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -251,6 +251,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From b861cf14b204807759008fa3366b9f07d1ccce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 09/45] fix: Configuration: report values that are not integers
 instead of throwing

std::stoi() threw through the C interface and ended the process.
---
 src/configuration.cc |  8 +++++++-
 src/configuration.h  | 10 +++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 6a05c20..48a5abc 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -2,6 +2,7 @@
 
 #include "configuration.h"
 
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "util.h"
@@ -84,7 +85,12 @@ std::string Configuration::GetStringOrElse(
 int Configuration::GetIntegerOrElse(const std::string &key, int default_val) const {
   std::string int_string = GetStringOrElse(key, kDefaultString);
   if (int_string == kDefaultString) return default_val;
-  return std::stoi(int_string);
+  try {
+    return std::stoi(int_string);
+  } catch (const std::logic_error &) {
+    // Not a number or out of the range of int
+    return default_val;
+  }
 }
 
 }  // namespace pocketkaldi
diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..e682251 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -45,8 +45,16 @@ class Configuration {
     return Status::OK();
   }
   Status GetInteger(const std::string &key, int *val) const {
+    std::string str_val;
+    PK_CHECK_STATUS(GetString(key, &str_val));
     int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
+    if (int_val == INT_MIN) {
+      return Status::Corruption(util::Format(
+          "Value of '{}' is not an integer: '{}' in '{}'",
+          key,
+          str_val,
+          filename()));
+    }
     *val = int_val;
     return Status::OK();
   }
-- 
2.43.0


From ea62f11b4cd986dd6bb0856d6e6b3728d06d186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 10/45] fix: SymbolTable::Read: reject negative and out of
 range word-ids

---
 src/symbol_table.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..9ae3703 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -3,6 +3,7 @@
 #include "symbol_table.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "util.h"
 
@@ -32,6 +33,11 @@ Status SymbolTable::Read(const std::string &filename) {
     std::string word = fields[0];
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
+    if (word_id < 0 || word_id >= INT_MAX) {
+      return Status::Corruption(util::Format(
+          "symbol_table: unexpected word-id: {}",
+          line));
+    }
     
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
-- 
2.43.0


From 9c6f30b110bcd6823120a61134ff0fab361ed5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 11/45] fix: Vector::Read: reject negative dimensions

---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..47eaaef 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -282,7 +282,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From e873ccb92f6856a492c5945c1122b5252e2ae780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 12/45] fix: Matrix::Read: reject invalid shapes instead of
 aborting

---
 src/matrix.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..b307af0 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,6 +169,19 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  // Check the shape. Size of the data should be representable in int32_t and
+  // only 0x0 is allowed for empty matrix
+  int64_t num_elements = static_cast<int64_t>(num_rows) * num_cols;
+  if (num_rows < 0 || num_cols < 0 ||
+      num_elements > static_cast<int64_t>(INT32_MAX / sizeof(Real)) ||
+      (num_elements == 0 && num_rows != num_cols)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected shape ({}, {}): {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
-- 
2.43.0


From 020c6319ad22202bd6d4fe6fd5a1858b731837ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 13/45] fix: Matrix::Read: report the failure of reading a row

A file truncated inside a row was accepted and the row was filled with
the data of the previous one or uninitialized memory.
---
 src/matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index b307af0..2496003 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -188,7 +188,7 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From 5b933bb98ccdd93027d7b8e9cf2c366a04b25b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 14/45] fix: Fst::Read: reject negative numbers of states and
 arcs

---
 src/fst.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..63cb10d 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -76,7 +76,13 @@ Status Fst::Read(util::ReadableFile *fd) {
   start_state_ = start_state;
 
   // Check section size
-  int expected_section_size =
+  if (state_number < 0 || arc_number < 0) {
+    return Status::Corruption(util::Format(
+        "unexpected number of states or arcs: {}, {}",
+        state_number,
+        arc_number));
+  }
+  int64_t expected_section_size =
       sizeof(state_number) +
       sizeof(arc_number) +
       sizeof(start_state) +
-- 
2.43.0


From 4e6c31ec87d1106f1da151e42ea4d60b55ce5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 15/45] fix: Fst::Read: accept a fst without arcs

---
 src/fst.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 63cb10d..84674b2 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -109,8 +109,10 @@ Status Fst::Read(util::ReadableFile *fd) {
 
   // Arcs
   arcs_.resize(arc_number);
-  status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
-  if (!status.ok()) return status;
+  if (!arcs_.empty()) {
+    status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
+    if (!status.ok()) return status;
+  }
 
   // Success
   return status;
-- 
2.43.0


From c1fa6110baf57085bc2fc8ad1c19a0f27cc9ebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 16/45] fix: HashTable: always keep an empty bucket in the
 probing sequence

The table was extended one insertion too late (and 2 -> 2 was not an
extension at all), so looking up an absent key could probe only occupied
buckets and never end.
---
 src/hashtable.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..8d0a750 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -54,8 +54,10 @@ class HashTable {
 
   // Insert or update an element in the hash table
   void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
+    // The probing sequence is only guaranteed to visit half of the buckets. So
+    // after the insertion the load factor should not exceed kLoadFactor
+    double size = size_ + 1;
+    while (size / bucket_size_ > kLoadFactor) {
       ExtendBuckets();
     }
 
-- 
2.43.0


From 9108aabd920fcc036812ca26f92e2047c647c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 17/45] fix: Fbank::Process: do not abort on an empty chunk of
 samples

---
 src/fbank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -268,7 +268,7 @@ void Fbank::Process(
     Matrix<float> *fbank_feature) const {
   // Do nothing when wave is empty
   if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
+    fbank_feature->Resize(0, 0);
     return;
   }
 
-- 
2.43.0


From 86046cbcc37f1646d0a23a124e2647d4dfaf1341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 18/45] fix: Vector: free the old data in move assignment

---
 src/vector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 47eaaef..8a4f464 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,9 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+  Destroy();
+
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From 6e6bb4f4c5c469e84d7aae24aa689f50688c58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 19/45] fix: Softmax and LogSoftmax: do not overflow on large
 or small inputs

---
 src/vector.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index 8a4f464..569da85 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -98,8 +98,14 @@ template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
   Real sum = 0;
 
+  // Subtract the max value to avoid the overflow of exp()
+  Real max = -INFINITY;
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
+  for (int i = 0; i < Dim(); ++i) {
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -113,11 +119,17 @@ template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
   Real sum = 0;
 
+  // Subtract the max value to avoid the overflow of exp()
+  Real max = -INFINITY;
+  for (int i = 0; i < Dim(); ++i) {
+    if ((*this)(i) > max) max = (*this)(i);
+  }
+
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
-  Real logsum = log(sum);
+  Real logsum = max + log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
     (*this)(i) -= logsum;
-- 
2.43.0


From eefd79d204c2028bc30ebbe3168b155d4eabf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 20/45] fix: NormalizeLayer: output zeros instead of NaN for a
 row of zeros

---
 src/nnet.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..df7ace9 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -168,7 +168,10 @@ void NormalizeLayer::Propagate(
   for (int row_idx = 0; row_idx < out->NumRows(); ++row_idx) {
     SubVector<float> row = out->Row(row_idx);
 
+    // Floor the squared sum (2^-66 * D, the same as Kaldi) for the rows of zero
     double squared_sum = row.VecVec(row);
+    double floor = D * 1.3552527156068805e-20;
+    if (squared_sum < floor) squared_sum = floor;
     float scale = static_cast<float>(sqrt(D / squared_sum));
     row.Scale(scale);
   }
-- 
2.43.0


From 1f4ab51e0044ee5ad7bb76b5254dd06fd910047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 21/45] fix: Quantize: support matrices with only one distinct
 positive value

---
 src/matrix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index 2496003..488bcdf 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -364,6 +364,12 @@ void ComputeQuantizationParams(const MatrixBase<float> &src,
   float min, max;
   FindMinMax(src, &min, &max);
 
+  // There is no range in a constant matrix, extend it to include zero
+  if (max <= min) {
+    min = std::min(min, 0.0f);
+    max = std::max(max, 0.0f);
+  }
+
   double scale = (max - min) / 255.0;
 
   // Find zero-point
-- 
2.43.0


From 31fde77955253e85e94fcba57d986e9320f4ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 22/45] fix: WaveReader: 8-bit samples of PCM wave are unsigned

They were read as signed values, so silence (128) became -128 and the
waveform was wrapped around there.
---
 src/pcm_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 0c020dc..934b910 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -25,9 +25,10 @@ static int16_t ReadInt16(char **ptr) {
   return val;
 }
 
-// Reads an int8 value from ptr and move it forward
+// Reads an 8-bit sample from ptr and move it forward. Unlike 16 and 32-bit
+// samples, 8-bit samples of PCM wave are unsigned and the silence is 128
 static int8_t ReadInt8(char **ptr) {
-  int8_t val = *((int8_t *)*ptr);
+  int8_t val = static_cast<int8_t>(*((uint8_t *)*ptr) - 128);
   *ptr += sizeof(int8_t);
   return val;
 }
-- 
2.43.0


From 90b121c61ed2800cb3288d1e34ba010b95b9bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 23/45] fix: Decoder: return pruned and replaced tokens to the
 pool

They were never reused, so the memory of an utterance kept growing with
every decoded frame.
---
 src/decoder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index f6b3243..7c97034 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -170,7 +170,9 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      Token *replaced_tok = toks_[tok_idx];
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
+      toks_pool_.Dealloc(replaced_tok);
     } else {
       return false;
     }
@@ -342,7 +344,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From bb4d1e3e4050caf8ead04ae8f127d87a490b8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 24/45] fix: Format: do not expand '{}' inside the values
 already inserted

---
 src/util.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util.h b/src/util.h
index a4a5e0b..76e1fd4 100644
--- a/src/util.h
+++ b/src/util.h
@@ -67,21 +67,25 @@ inline std::string ToString(const char *const &val) {
 
 namespace {
 
-inline std::string FormatImpl(const std::string &formatted) {
+inline std::string FormatImpl(const std::string &formatted, size_t) {
   return formatted;
 }
 template<typename T, typename... Args>
 inline std::string FormatImpl(
     const std::string &formatted,
+    size_t start,
     T &&item,
     Args &&...args) {
-  size_t pos = formatted.find("{}");
+  size_t pos = formatted.find("{}", start);
   std::string repl = ToString(item);
   std::string next_formatted = formatted;
   if (pos != std::string::npos) {
     next_formatted.replace(pos, 2, repl);
+    start = pos + repl.size();
+  } else {
+    start = formatted.size();
   }
-  return FormatImpl(next_formatted, std::forward<Args>(args)...);
+  return FormatImpl(next_formatted, start, std::forward<Args>(args)...);
 }
 
 }  // namespace
@@ -91,7 +95,7 @@ inline std::string FormatImpl(
 //   util::Format("Hello, {}, {}!", "World", "2233");
 template<typename... Args>
 inline std::string Format(const std::string &fmt, Args &&...args) {
-  return FormatImpl(fmt, std::forward<Args>(args)...);
+  return FormatImpl(fmt, 0, std::forward<Args>(args)...);
 }
 
 // Trim string 
-- 
2.43.0


From b5b83748bfa70187c75f12e3582e79a0c910b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 25/45] fix: prune_lm.py accepts an ARPA file with unigrams
 only

---
 tool/prune_lm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index f3541bf..beaac43 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -36,6 +36,9 @@ for line in sys.stdin:
         f = line.strip().split()
         if line.strip() == '':
             print(line.strip())
+        elif line.strip() == '\\end\\':
+            state = State.END
+            print(line.strip())
         elif line.strip()[0] == '\\':
             state = State.NGRAM
         elif len(f) in {2, 3}:
-- 
2.43.0


From 477388cc575c1b8596d935b97f8c1b7bed0ad8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 26/45] fix: Nnet::Read: reject a negative number of layers

---
 src/nnet.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index df7ace9..d9892e3 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -286,6 +286,12 @@ Status Nnet::Read(util::ReadableFile *fd) {
 
   int32_t num_layers;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet: unexpected num_layers {}: {}",
+        num_layers,
+        fd->filename()));
+  }
 
   // Read each layers
   for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-- 
2.43.0


From bb42aff4287ca7459c22ef19d69a8ba4081c7a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 27/45] fix: NarrowLayer::Read: reject negative numbers of
 frames

---
 src/nnet.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index d9892e3..3758a92 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -210,6 +210,9 @@ Status NarrowLayer::Read(util::ReadableFile *fd) {
 
   int32_t narrow_right = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&narrow_right));
+  if (narrow_left < 0 || narrow_right < 0) {
+    return Status::Corruption("NarrowLayer: unexpected narrow_left or narrow_right");
+  }
 
   narrow_right_ = narrow_right;
   narrow_left_ = narrow_left;
-- 
2.43.0


From 5fd1fd95c108c5ea5545d71ad04d3466a4b22204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 28/45] fix: SpliceLayer::Read: reject a layer without indices,
 it can not be propagated

---
 src/nnet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nnet.cc b/src/nnet.cc
index 3758a92..4e8c9de 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -80,7 +80,7 @@ Status SpliceLayer::Read(util::ReadableFile *fd) {
 
   int32_t num_indcies = 0;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_indcies));
-  if (num_indcies < 0) {
+  if (num_indcies <= 0) {
     return Status::Corruption("SpliceLayer: unexpected num_indcies");
   }
 
-- 
2.43.0


From 7e2c019bae729ba631cef24cb7d3c32bccca741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 29/45] fix: conv_chartok.sh fails when its input cannot be
 read and takes names with blanks

---
 tool/conv_chartok.sh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tool/conv_chartok.sh b/tool/conv_chartok.sh
index a37390b..83e1d6a 100755
--- a/tool/conv_chartok.sh
+++ b/tool/conv_chartok.sh
@@ -4,10 +4,12 @@
 # Apache 2.0
 
 
+set -o pipefail
+
 from_file=$1
 to_file=$2
 
-cat $from_file |  perl -CSDA -ane '
+cat -- "$from_file" |  perl -CSDA -ane '
   {
     print $F[0];
     foreach $s (@F[1..$#F]) {
@@ -21,4 +23,4 @@ cat $from_file |  perl -CSDA -ane '
       }
     }
     print "\n";
-  }' > $to_file
\ No newline at end of file
+  }' > "$to_file"
\ No newline at end of file
-- 
2.43.0


From e704c37f58330386a63ff69a9824010fccec16d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 30/45] fix: compute-cer.sh works for files in any directory
 and leaves no temporary file

---
 tool/compute-cer.sh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tool/compute-cer.sh b/tool/compute-cer.sh
index 5203d51..33ab0eb 100755
--- a/tool/compute-cer.sh
+++ b/tool/compute-cer.sh
@@ -1,11 +1,12 @@
 #!/bin/bash
 
-tool_dir=`dirname $0`
+tool_dir=`dirname "$0"`
 ref_file=$1
 hyp_file=$2
 
-hyp_chars_file=/tmp/${hyp_file}.chars.txt
+hyp_chars_file=`mktemp` || exit 22
+trap 'rm -f "$hyp_chars_file"' EXIT
 
 # Convert to character
-$tool_dir/conv_chartok.sh $hyp_file $hyp_chars_file || exit 22
-compute-wer --text --mode=present ark:$ref_file ark:$hyp_chars_file
+"$tool_dir/conv_chartok.sh" "$hyp_file" "$hyp_chars_file" || exit 22
+compute-wer --text --mode=present "ark:$ref_file" "ark:$hyp_chars_file"
-- 
2.43.0


From 1c3437f314f3183c2403ec8384ec085b90644b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 31/45] fix: mkgraph_hcl.sh finds prune_lm.py from any
 directory and stops at the first step that fails

---
 tool/mkgraph_hcl.sh | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tool/mkgraph_hcl.sh b/tool/mkgraph_hcl.sh
index 13953f0..a6db748 100755
--- a/tool/mkgraph_hcl.sh
+++ b/tool/mkgraph_hcl.sh
@@ -16,8 +16,10 @@
 
 . path.sh
 
+set -o pipefail
+
 if [[ -z $POCKETKALDI_ROOT ]]; then
-  echo "env $$POCKETKALDI_ROOT is empty"
+  echo "env \$POCKETKALDI_ROOT is empty"
   exit 22
 fi
 
@@ -31,21 +33,21 @@ lm_1order_arpa=lm.1order.arpa
 lm_1order_bin=lm.1order.bin
 
 # Prune the language model with order = 1
-gunzip -c $lm | python3 prune_lm.py | gzip > $lm_arpa_gz
+gunzip -c "$lm" | python3 "$POCKETKALDI_ROOT/tool/prune_lm.py" | gzip > $lm_arpa_gz || exit 22
 
 # G compilation, check LG composition
 utils/format_lm.sh data/lang $lm_arpa_gz \
     data/local/dict/lexicon.txt pasco_graph || exit 1;
 
 # Make HCLG
-mkdir pasco_graph/lang_test
+mkdir pasco_graph/lang_test || exit 22
 cp -r data/lang_test/phones data/lang_test/L_disambig.fst data/lang_test/words.txt\
       data/lang_test/L.fst data/lang_test/phones.txt pasco_graph/lang_test || exit 22
 cp pasco_graph/G.fst pasco_graph/lang_test/G.fst || exit 22
 utils/mkgraph.sh pasco_graph/lang_test exp/tri5a pasco_graph || exit 22
 
 # Make G'
-gunzip -c $lm | python3 $POCKETKALDI_ROOT/tool/prune_lm.py > $lm_1order_arpa || exit 22
-python3 $POCKETKALDI_ROOT/tool/convert_unigram.py $lm_1order_arpa pasco_graph/lang_test/words.txt lm.1order.bin
-gunzip -c $lm | arpa2fst --read-symbol-table=pasco_graph/lang_test/words.txt - G_raw.fst
-python $POCKETKALDI_ROOT/tool/convert_fstfmt.py G_raw.fst G.pfst
+gunzip -c "$lm" | python3 "$POCKETKALDI_ROOT/tool/prune_lm.py" > $lm_1order_arpa || exit 22
+python3 "$POCKETKALDI_ROOT/tool/convert_unigram.py" $lm_1order_arpa pasco_graph/lang_test/words.txt lm.1order.bin || exit 22
+gunzip -c "$lm" | arpa2fst --read-symbol-table=pasco_graph/lang_test/words.txt - G_raw.fst || exit 22
+python "$POCKETKALDI_ROOT/tool/convert_fstfmt.py" G_raw.fst G.pfst || exit 22
-- 
2.43.0


From 9cea66a224627b5ebb47d6307d47d2a0de9b6554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 32/45] fix: convert_trans.py refuses a map with missing,
 repeated or invalid ids

---
 tool/convert_trans.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tool/convert_trans.py b/tool/convert_trans.py
index 2a0af4d..de6f712 100644
--- a/tool/convert_trans.py
+++ b/tool/convert_trans.py
@@ -18,10 +18,16 @@ num_pdfs = int(lines[0])
 num_transitions = int(lines[1])
 print('num_pdfs =', num_pdfs)
 
-map_list = [0 for i in range(num_transitions + 1)]
+map_list = [None for i in range(num_transitions + 1)]
 for line in lines[2: ]:
-    tid, pdf = line.split()
-    map_list[int(tid)] = int(pdf)
+    tid, pdf = map(int, line.split())
+    if not 0 <= tid <= num_transitions or map_list[tid] is not None:
+        raise Exception('unexpected transition-id: {}'.format(line))
+    if not 0 <= pdf < num_pdfs:
+        raise Exception('unexpected pdf-id: {}'.format(line))
+    map_list[tid] = pdf
+if None in map_list:
+    raise Exception('transition-id {} is missing'.format(map_list.index(None)))
 
 with open(to_file, 'wb') as fd:
     # VEC section: stats_sum
-- 
2.43.0


From e581217eea521098964176b339d7035f99d6de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 33/45] fix: convert_words.py refuses negative and repeated ids

---
 tool/convert_words.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tool/convert_words.py b/tool/convert_words.py
index 57de04f..b3af576 100644
--- a/tool/convert_words.py
+++ b/tool/convert_words.py
@@ -23,7 +23,11 @@ with open(from_file, encoding = 'utf-8') as fd:
         if wid > max_idx:
             max_idx = wid
 words = ['<empty>' for _ in range(max_idx + 1)]
+used_idx = set()
 for word, idx in words_idx:
+    if idx < 0 or idx in used_idx:
+        raise Exception('unexpected id {} of word {}'.format(idx, word))
+    used_idx.add(idx)
     words[idx] = word
 
 # Make the symbol buffer and symbol index for symboltable
-- 
2.43.0


From 533224459d60267f5a2587c9f85bdee7729b8766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 34/45] fix: convert_am.py refuses biases, batch norms and
 priors of another dimension

---
 tool/convert_am.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tool/convert_am.py b/tool/convert_am.py
index c66f2ee..ea50cf7 100644
--- a/tool/convert_am.py
+++ b/tool/convert_am.py
@@ -152,6 +152,14 @@ class AM:
                     output_dim,
                     idx))
             output_dim = layer.output_dim(output_dim)
+            if layer.layer_type == LINEAR_LAYER and len(layer.b) != output_dim:
+                raise Exception('unexpected dim of bias in layer {}'.format(idx))
+            if layer.layer_type == BATCHNORM_LAYER and not (
+                    len(layer.scale) == len(layer.offset) and
+                    output_dim in {None, len(layer.scale)}):
+                raise Exception('unexpected dim of batch norm in layer {}'.format(idx))
+        if output_dim != None and output_dim != len(self.prior):
+            raise Exception('unexpected dim of prior: {}'.format(len(self.prior)))
 
     def write(self, filename):
         print('AM: left_context = {}, right_context = {}'.format(
-- 
2.43.0


From 98701da7de89f0cd2f3a618a24acc42d611ae4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:06 +0000
Subject: [PATCH 35/45] fix: convert_fstfmt.py reports wrong usage as a failure

---
 tool/convert_fstfmt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tool/convert_fstfmt.py b/tool/convert_fstfmt.py
index c2db3bb..95237b8 100644
--- a/tool/convert_fstfmt.py
+++ b/tool/convert_fstfmt.py
@@ -9,7 +9,7 @@ def print_usage():
 
 if len(sys.argv) not in {3, 4}:
     print_usage()
-    quit()
+    sys.exit(1)
 
 output_binary = True
 if len(sys.argv) == 4:
@@ -19,7 +19,7 @@ if len(sys.argv) == 4:
         output_binary = True
     else:
         print_usage()
-        quit()
+        sys.exit(1)
 
 f = fst.Fst.read(sys.argv[1])
 
-- 
2.43.0


From 4a6c1b991e38e02814ba0be174cd9300e13c99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 36/45] fix: decoder: start from an empty beam when it is
 initialized again

---
 src/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 7c97034..173a01f 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -102,9 +102,13 @@ float Decoder::LogLikelihood(const VectorBase<float> &frame_logp,
 }
 
 void Decoder::Initialize() {
-  // Prepare beams
+  // Prepare beams. The decoder may have decoded another stream before
   toks_.clear();
   prev_toks_.clear();
+  state_idx_.Clear();
+  toks_pool_.Clear();
+  olabels_pool_.Clear();
+  is_end_of_stream_ = false;
 
   // Initialize decoding:
   int start_state = fst_->Start();
-- 
2.43.0


From 428cc1ac2cc1dfd8ec5f0e84d0dd2510c7c5ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 37/45] fix: a graph file with arcs, indices or a start state
 that do not exist is rejected

---
 src/fst.cc | 45 +++++++++++++++++++++++++++++++++++++++++++--
 src/fst.h  |  3 +++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 84674b2..ad154a3 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -114,8 +114,49 @@ Status Fst::Read(util::ReadableFile *fd) {
     if (!status.ok()) return status;
   }
 
-  // Success
-  return status;
+  return CheckIndices(fd->filename());
+}
+
+Status Fst::CheckIndices(const std::string &filename) const {
+  int state_number = final_.size();
+  int arc_number = arcs_.size();
+
+  if (start_state_ < kNoState || start_state_ >= state_number) {
+    return Status::Corruption(util::Format(
+        "start state {} out of boundary: {}",
+        start_state_,
+        filename));
+  }
+
+  // The index of a state without arcs is -1. The others never decrease
+  int last_idx = 0;
+  for (int32_t idx : state_idx_) {
+    if (idx == -1) continue;
+    if (idx < last_idx || idx > arc_number) {
+      return Status::Corruption(util::Format(
+          "unexpected index of arcs {}: {}",
+          idx,
+          filename));
+    }
+    last_idx = idx;
+  }
+
+  for (const FstArc &arc : arcs_) {
+    if (arc.next_state < 0 || arc.next_state >= state_number) {
+      return Status::Corruption(util::Format(
+          "next state {} out of boundary: {}",
+          arc.next_state,
+          filename));
+    }
+    if (arc.input_label < 0) {
+      return Status::Corruption(util::Format(
+          "unexpected input label {}: {}",
+          arc.input_label,
+          filename));
+    }
+  }
+
+  return Status::OK();
 }
 
 int Fst::CountArcs(int state) const {
diff --git a/src/fst.h b/src/fst.h
index 36edb69..61b7d55 100644
--- a/src/fst.h
+++ b/src/fst.h
@@ -85,6 +85,9 @@ public:
   std::string fst_type() const { return fst_type_; }
 
  protected:
+  // Checks the indices of states and arcs just read from `filename`
+  Status CheckIndices(const std::string &filename) const;
+
   // Calcuate the number of outcoming arcs for state
   int CountArcs(int state) const;
 
-- 
2.43.0


From 9a29fda4439b8047d797fae4877049ae6df07d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 38/45] fix: ce_stt_init accepted a language model with unknown
 words, without start state or with a loop of back-off arcs

---
 src/ce_stt.cc |  4 ++++
 src/fst.cc    | 34 ++++++++++++++++++++++++++++++++++
 src/fst.h     |  4 ++++
 3 files changed, 42 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index ed29c30..07c8fda 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -103,10 +103,14 @@ Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
   PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
   self->large_lm_fst = new LmFst();
   PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
+  PK_CHECK_STATUS(self->large_lm_fst->Verify(self->original_lm->Dim()));
   self->large_lm_fst->InitBucket0();
   
   // Build DeltaLmFst
   assert(self->symbol_table != nullptr);
+  if (self->symbol_table->bos_id() == 0 || self->symbol_table->eos_id() == 0) {
+    return Status::Corruption("id of <s> and </s> should not be 0");
+  }
   self->delta_lm_fst = new DeltaLmFst(self->original_lm,
                                       self->large_lm_fst,
                                       self->symbol_table);
diff --git a/src/fst.cc b/src/fst.cc
index ad154a3..7d2a49f 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -245,6 +245,40 @@ void LmFst::InitBucket0() {
   }
 }
 
+Status LmFst::Verify(int num_words) const {
+  int state_number = final_.size();
+  if (start_state_ < 0) return Status::Corruption("lm: no start state");
+
+  for (const FstArc &arc : arcs_) {
+    if (arc.input_label >= num_words) {
+      return Status::Corruption(util::Format(
+          "lm: unexpected word {}, number of words is {}",
+          arc.input_label,
+          num_words));
+    }
+  }
+
+  // Follow the back-off arcs from each state until a state visited before. It
+  // is a loop if that state was visited from the same state.
+  std::vector<int> visited_from(state_number, kNoState);
+  for (int from_state = 0; from_state < state_number; ++from_state) {
+    int state = from_state;
+    while (visited_from[state] == kNoState) {
+      visited_from[state] = from_state;
+      const FstArc *backoff_arc = GetBackoffArc(state);
+      if (backoff_arc == nullptr) break;
+      state = backoff_arc->next_state;
+      if (visited_from[state] == from_state) {
+        return Status::Corruption(util::Format(
+            "lm: loop of back-off arcs in state {}",
+            state));
+      }
+    }
+  }
+
+  return Status::OK();
+}
+
 const FstArc *LmFst::GetBackoffArc(int state) const {
   int num_arcs = CountArcs(state);
   if (num_arcs == 0) return nullptr;
diff --git a/src/fst.h b/src/fst.h
index 61b7d55..232bf2e 100644
--- a/src/fst.h
+++ b/src/fst.h
@@ -112,6 +112,10 @@ class LmFst : public Fst {
   // will flollow the back-off arc automatically
   float Final(int state_id) const override;
 
+  // Checks that this language model has a start state, that its words are below
+  // `num_words` and that the back-off arcs have no loop
+  Status Verify(int num_words) const;
+
   // Initialize bucket for state 0 optimization
   void InitBucket0();
 
-- 
2.43.0


From 0abdef5e7e593594970579dbe9fbff53e1b325be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 39/45] fix: ce_stt_init accepted a graph with transitions,
 words or states that do not exist

---
 src/ce_stt.cc      | 32 ++++++++++++++++++++++++++++++++
 src/symbol_table.h |  3 +++
 2 files changed, 35 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 07c8fda..0a869e0 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -134,6 +134,34 @@ Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
   return Status::OK();
 }
 
+// Checks that the states, transitions and words in the arcs of HCLG exist
+Status VerifyHclgFst(const ce_stt_t *self) {
+  const fst::ConstFst<fst::StdArc> &hclg = *self->fst;
+  if (hclg.Start() < 0 || hclg.Start() >= hclg.NumStates()) {
+    return Status::Corruption("fst: no start state");
+  }
+
+  int num_tids = self->am->TransitionPdfIdMap().Dim();
+  int num_words = self->symbol_table->Size();
+  for (int state = 0; state < hclg.NumStates(); ++state) {
+    fst::ArcIterator<fst::ConstFst<fst::StdArc>> arc_iter(hclg, state);
+    for (; !arc_iter.Done(); arc_iter.Next()) {
+      const fst::StdArc &arc = arc_iter.Value();
+      if (arc.ilabel < 0 || arc.ilabel >= std::max(num_tids, 1) ||
+          arc.olabel < 0 || arc.olabel >= std::max(num_words, 1) ||
+          arc.nextstate < 0 || arc.nextstate >= hclg.NumStates()) {
+        return Status::Corruption(Format(
+            "fst: unexpected arc to state {}, ilabel = {}, olabel = {}",
+            arc.nextstate,
+            arc.ilabel,
+            arc.olabel));
+      }
+    }
+  }
+
+  return Status::OK();
+}
+
 // Checks if parameter utt is correct. On success return 0, on failed return
 // CE_STT_FAILED and copy error string into error_message
 int32_t CheckParamUtt(ce_utt_t *utt) {
@@ -217,6 +245,10 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   status = ReadSymbolTable(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
 
+  // HCLG should fit to the AM and the symbol table
+  status = VerifyHclgFst(recognizer);
+  if (!status.ok()) goto pasco_init_failed;
+
   // DelteLmFst (if available)
   status = ReadDeltaLmFst(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
diff --git a/src/symbol_table.h b/src/symbol_table.h
index d21c637..3028a68 100644
--- a/src/symbol_table.h
+++ b/src/symbol_table.h
@@ -29,6 +29,9 @@ class SymbolTable {
   // kNotExist
   int GetId(const std::string &word) const;
 
+  // Number of symbols, every id is below it
+  int Size() const { return words_.size(); }
+
   // Ids for BOS/EOS tag
   int bos_id() const { return bos_id_; }
   int eos_id() const { return eos_id_; }
-- 
2.43.0


From c7a62bbc9851dc8b6691e20bb97f5025c3fd1c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 40/45] fix: ce_stt_init accepted an acoustic model whose parts
 do not fit to each other

---
 src/am.cc     | 39 +++++++++++++++++++++++++++++++++++++++
 src/am.h      |  4 ++++
 src/ce_stt.cc |  2 ++
 src/nnet.cc   | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/nnet.h    | 25 +++++++++++++++++++++++++
 5 files changed, 121 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..bce5e0f 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -63,6 +63,45 @@ Status AcousticModel::Read(const Configuration &conf) {
   return Status::OK();
 }
 
+Status AcousticModel::Verify(int feat_dim) const {
+  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ < 1) {
+    return Status::Corruption(util::Format(
+        "am: unexpected left_context {}, right_context {} or chunk_size {}",
+        left_context_,
+        right_context_,
+        chunk_size_));
+  }
+
+  int dim = feat_dim;
+  int64_t num_narrowed = 0;
+  PK_CHECK_STATUS(nnet_.Verify(&dim, &num_narrowed));
+  if (num_narrowed != static_cast<int64_t>(left_context_) + right_context_) {
+    return Status::Corruption(util::Format(
+        "am: left_context {} and right_context {} mismatch with nnet",
+        left_context_,
+        right_context_));
+  }
+  if (dim != num_pdfs_ || log_prior_.Dim() != num_pdfs_) {
+    return Status::Corruption(util::Format(
+        "am: num_pdfs is {}, but nnet has {} outputs and prior has {} values",
+        num_pdfs_,
+        dim,
+        log_prior_.Dim()));
+  }
+
+  // Transition-id 0 is never used
+  for (int tid = 1; tid < tid2pdf_.Dim(); ++tid) {
+    if (tid2pdf_(tid) < 0 || tid2pdf_(tid) >= num_pdfs_) {
+      return Status::Corruption(util::Format(
+          "am: unexpected pdf {} of transition-id {}",
+          tid2pdf_(tid),
+          tid));
+    }
+  }
+
+  return Status::OK();
+}
+
 void AcousticModel::AppendFrame(Instance *inst,
                                 const VectorBase<float> &frame_feat) const {
   Vector<float> frame(frame_feat.Dim());
diff --git a/src/am.h b/src/am.h
index d53bcd2..05e408e 100644
--- a/src/am.h
+++ b/src/am.h
@@ -33,6 +33,10 @@ class AcousticModel {
   // Read AcousticModel from configuration file
   Status Read(const Configuration &conf);
 
+  // Checks that the parts of this model fit to each other, and to features of
+  // dimension `feat_dim`
+  Status Verify(int feat_dim) const;
+
   // Gets the map from transition-id to pdf-id
   const Vector<int32_t> &TransitionPdfIdMap() const {
     return tid2pdf_;
diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0a869e0..2d336cd 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -240,6 +240,8 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   recognizer->am = new AcousticModel();
   status = recognizer->am->Read(conf);
   if (!status.ok()) goto pasco_init_failed;
+  status = recognizer->am->Verify(PK_FBANK_DIM);
+  if (!status.ok()) goto pasco_init_failed;
 
   // SYMBOL TABLE
   status = ReadSymbolTable(recognizer, conf);
diff --git a/src/nnet.cc b/src/nnet.cc
index 4e8c9de..c5da4a9 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -42,6 +42,20 @@ Status LinearLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+Status LinearLayer::Verify(int *dim, int64_t *num_narrowed) const {
+  if (W_.NumRows() != *dim || W_.NumCols() == 0 || b_.Dim() != W_.NumCols()) {
+    return Status::Corruption(util::Format(
+        "LinearLayer: input dim is {}, W is {} x {}, b is {}",
+        *dim,
+        W_.NumRows(),
+        W_.NumCols(),
+        b_.Dim()));
+  }
+  *dim = W_.NumCols();
+
+  return Status::OK();
+}
+
 SpliceLayer::SpliceLayer() {}
 SpliceLayer::SpliceLayer(const std::vector<int> &indices):
     indices_(indices) {
@@ -94,6 +108,16 @@ Status SpliceLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+Status SpliceLayer::Verify(int *dim, int64_t *num_narrowed) const {
+  int64_t output_dim = static_cast<int64_t>(indices_.size()) * *dim;
+  if (output_dim > INT32_MAX) {
+    return Status::Corruption("SpliceLayer: too many indices");
+  }
+  *dim = static_cast<int>(output_dim);
+
+  return Status::OK();
+}
+
 BatchNormLayer::BatchNormLayer() {}
 BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
                                const VectorBase<float> &offset) {
@@ -123,6 +147,18 @@ Status BatchNormLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+Status BatchNormLayer::Verify(int *dim, int64_t *num_narrowed) const {
+  if (scale_.Dim() != *dim || offset_.Dim() != *dim) {
+    return Status::Corruption(util::Format(
+        "BatchNormLayer: input dim is {}, scale is {}, offset is {}",
+        *dim,
+        scale_.Dim(),
+        offset_.Dim()));
+  }
+
+  return Status::OK();
+}
+
 void SoftmaxLayer::Propagate(
     const MatrixBase<float> &in,
     Matrix<float> *out) const {
@@ -220,6 +256,12 @@ Status NarrowLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+Status NarrowLayer::Verify(int *dim, int64_t *num_narrowed) const {
+  *num_narrowed += static_cast<int64_t>(narrow_left_) + narrow_right_;
+
+  return Status::OK();
+}
+
 
 Nnet::Nnet(): left_context_(0), right_context_(0) {
 }
@@ -304,6 +346,15 @@ Status Nnet::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+Status Nnet::Verify(int *dim, int64_t *num_narrowed) const {
+  *num_narrowed = 0;
+  for (const std::unique_ptr<Layer> &layer : layers_) {
+    PK_CHECK_STATUS(layer->Verify(dim, num_narrowed));
+  }
+
+  return Status::OK();
+}
+
 void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
   Matrix<float> layer_input, layer_output;
   
diff --git a/src/nnet.h b/src/nnet.h
index e5c8a58..e10f95d 100644
--- a/src/nnet.h
+++ b/src/nnet.h
@@ -3,6 +3,7 @@
 #ifndef POCKETKALDI_NNET_H_
 #define POCKETKALDI_NNET_H_
 
+#include <stdint.h>
 #include <vector>
 #include <memory>
 #include "matrix.h"
@@ -38,6 +39,13 @@ class Layer {
   // Read layer from fd
   virtual Status Read(util::ReadableFile *fd) = 0;
 
+  // Checks that this layer accepts input of dimension `*dim`. Then stores the
+  // dimension of its output into `dim` and adds the number of rows it removes
+  // to `num_narrowed`
+  virtual Status Verify(int *dim, int64_t *num_narrowed) const {
+    return Status::OK();
+  }
+
   // Layer type
   virtual std::string Type() const = 0;
 
@@ -62,6 +70,9 @@ class LinearLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  Status Verify(int *dim, int64_t *num_narrowed) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "Linear"; }
 
@@ -90,6 +101,9 @@ class SpliceLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  Status Verify(int *dim, int64_t *num_narrowed) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "Splice"; }
 
@@ -113,6 +127,9 @@ class BatchNormLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  Status Verify(int *dim, int64_t *num_narrowed) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "BatchNorm"; }
 
@@ -189,6 +206,9 @@ class NarrowLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  Status Verify(int *dim, int64_t *num_narrowed) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "NarrowLayer"; }
 
@@ -231,6 +251,11 @@ class Nnet {
   // Propogate batch matrix through this neural network
   void Propagate(const MatrixBase<float> &in, Matrix<float> *out) const;
 
+  // Checks that the layers fit to each other when the dimension of input is
+  // `dim`. Then stores the dimension of output into `dim` and the number of
+  // rows removed by the layers into `num_narrowed`
+  Status Verify(int *dim, int64_t *num_narrowed) const;
+
   // Returns the left and right context of nnet
   int left_context() const { return left_context_; }
   int right_context() const { return right_context_; }
-- 
2.43.0


From 0cb9c69f123d37a1f956274435367eebab151340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:25 +0000
Subject: [PATCH 41/45] fix: a chunk_size near the largest integer overflowed
 together with the context

---
 src/am.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/am.cc b/src/am.cc
index bce5e0f..a87b692 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -111,7 +111,7 @@ void AcousticModel::AppendFrame(Instance *inst,
 
 bool AcousticModel::BatchAvailable(Instance *inst) const {
   int frames_available = inst->feats_buffer.size();
-  if (frames_available >= left_context_ + right_context_ + chunk_size_) {
+  if (frames_available - left_context_ - right_context_ >= chunk_size_) {
     return true;
   } else {
     return false;
-- 
2.43.0


From cf4ce71adc2fe0e3074939cf990dae996e0712cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 42/45] fix: a prior that is negative or not a number ended the
 process in ce_stt_init

---
 src/am.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index a87b692..74b40b5 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -41,6 +41,14 @@ Status AcousticModel::Read(const Configuration &conf) {
   PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
   PK_CHECK_STATUS(fd.Open(prior_filename));
   PK_CHECK_STATUS(log_prior_.Read(&fd));
+  for (int pdf = 0; pdf < log_prior_.Dim(); ++pdf) {
+    if (!(log_prior_(pdf) >= 0.0f)) {
+      return Status::Corruption(util::Format(
+          "{}: prior of pdf {} is negative or not a number",
+          prior_filename,
+          pdf));
+    }
+  }
   log_prior_.ApplyLog();
   fd.Close();
 
-- 
2.43.0


From 75224acf283ea3dcbd02d35ba5fbcae6927dc2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:14 +0000
Subject: [PATCH 43/45] fix: a stream of 100000 words or more ended with an
 assertion

---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 173a01f..dd9527e 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -433,7 +433,6 @@ Decoder::Hypothesis Decoder::BestPath() {
     PK_DEBUG(util::Format("Word: {}", olabel->olabel()));
     words.push_back(olabel->olabel());
     olabel = olabel->previous();
-    assert(words.size() < 100000);
   }
 
   weight = best_cost;
-- 
2.43.0


From 11ff51353c3e89c0f70abc4255a4fecd772c67b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 44/45] fix: the command line program ended with status 0 when
 its output could not be written

---
 src/main.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index ce1c41f..281fd26 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -102,5 +102,11 @@ int main(int argc, char **argv) {
   }
 
   ce_stt_destroy(recognizer);
+
+  // Results that could not be written are lost
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fputs("error: unable to write the output\n", stderr);
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From e6608fca1ebfbd06af74e84c91b06c0f9cdd3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:33 +0000
Subject: [PATCH 45/45] fix: convert_am.py took batch norm statistics of
 different lengths when one of them had a single value

---
 tool/convert_am.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tool/convert_am.py b/tool/convert_am.py
index ea50cf7..00976b9 100644
--- a/tool/convert_am.py
+++ b/tool/convert_am.py
@@ -234,6 +234,8 @@ def read_matrix(text, num_type = float):
     return np.array(matrix_cols), remained
 
 def compute_batch_norm(mean, var, eps, target_rms):
+    if mean.shape != var.shape:
+        raise Exception('StatsMean and StatsVar of different dim')
     offset = -mean
     scale = np.power(var + eps, -0.5) * target_rms
     offset = np.multiply(offset, scale)
-- 
2.43.0

