From 731d80b83ffdb7951eb0488f2afe211bee0f7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 01/46] fix: decode index gaps of 2^31 and more, and stay
 inside the code buffer

---
 include/sol/pario/compress.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..70c2edd 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -30,11 +30,17 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
   codes.push_back((i & 127));
 }
 
-inline const char* run_len_decode(
-    const char* p, uint64_t& i) {  // read an int 7 bits at a time.
-  size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+// read an int 7 bits at a time, never beyond end. A code that is cut by the end
+// or longer than 64 bits decodes to the bits available
+inline const char* run_len_decode(const char* p, const char* end,
+                                  uint64_t& i) {
+  size_t shift = 0;
+  while (p < end) {
+    const char c = *(p++);
+    if (shift < 64) i = i | (uint64_t(c & 127) << shift);
+    shift += 7;
+    if ((c & 128) == 0) break;
+  }
   return p;
 }
 
@@ -74,7 +80,7 @@ inline void decomp_index(const math::Vector<char>& codes,
   const char* p = codes.begin();
   while (p < codes.end()) {
     index = 0;
-    p = run_len_decode(p, index);
+    p = run_len_decode(p, codes.end(), index);
     index += last;
     last = index;
     indexes.push_back(T(index));
-- 
2.43.0


From 3301e12fe4b47ecf6559a189ce0c66ea0725982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 02/46] fix: parse long, large and tiny decimal numbers
 correctly and reject integers that do not fit

---
 include/sol/pario/numeric_parser.h | 148 +++++++++++++++++------------
 1 file changed, 89 insertions(+), 59 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..66e5838 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -9,6 +9,7 @@
 #define SOL_PARIO_NUMERIC_PARSER_H__
 
 #include <cmath>
+#include <limits>
 
 namespace sol {
 namespace pario {
@@ -24,6 +25,58 @@ class SOL_EXPORTS NumericParser {
     return p;
   }
 
+  static inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
+
+  // scan the digits of a non-negative number that denotes an integer no bigger
+  // than max_val. Return false if there is no digit, if the number is not an
+  // integer, or if it is out of range.
+  static inline bool ParseInteger(char*& p, unsigned long long max_val,
+                                  unsigned long long& acc) {
+    bool has_digit = false;
+    bool overflow = false;
+    acc = 0;
+    int num_dec = 0;
+    for (; is_digit(*p); ++p) {
+      has_digit = true;
+      overflow = overflow || !AppendDigit(acc, *p - '0', max_val);
+    }
+    if (*p == '.') {
+      for (++p; is_digit(*p); ++p) {
+        has_digit = true;
+        overflow = overflow || !AppendDigit(acc, *p - '0', max_val);
+        num_dec++;
+      }
+    }
+    int exp_acc = 0;
+    if (*p == 'e' || *p == 'E') {
+      p++;
+      if (*p == '+') p++;
+      exp_acc = ParseExponent(p);
+    }
+    if (has_digit == false || overflow || exp_acc < num_dec) return false;
+    if (acc == 0) return true;
+    for (; exp_acc > num_dec; --exp_acc) {
+      if (AppendDigit(acc, 0, max_val) == false) return false;
+    }
+    return true;
+  }
+
+  static inline bool AppendDigit(unsigned long long& acc, unsigned int digit,
+                                 unsigned long long max_val) {
+    if (acc > (max_val - digit) / 10) return false;
+    acc = acc * 10 + digit;
+    return true;
+  }
+
+  // digits of an exponent, saturated far beyond the range of any number type
+  static inline int ParseExponent(char*& p) {
+    int exp_acc = 0;
+    for (; is_digit(*p); ++p) {
+      if (exp_acc < 100000) exp_acc = exp_acc * 10 + *p - '0';
+    }
+    return exp_acc;
+  }
+
   // The following function is a home made strtoi
   static inline int ParseInt(char* p, char*& end) {
     end = p;
@@ -39,30 +92,14 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
-
-    int num_dec = 0;
-    if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
-      }
-    }
-    int exp_acc = 0;
-    if (*p == 'e' || *p == 'E') {
-      p++;
-      if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-    }
-    if (exp_acc < num_dec)
-      return 0;
-    else if (exp_acc > 0)
-      acc *= (int)(powf(10.f, (float)(exp_acc - num_dec)));
+    unsigned long long acc = 0;
+    // the magnitude of the smallest int is one bigger than that of the biggest
+    unsigned long long max_val = (std::numeric_limits<int>::max)();
+    if (s < 0) max_val += 1;
+    if (ParseInteger(p, max_val, acc) == false) return 0;
 
     end = strip_line(p);
-    return s * acc;
+    return int(s * (long long)(acc));
   }
 
   // The following function is a home made strtoi
@@ -71,29 +108,12 @@ class SOL_EXPORTS NumericParser {
     p = strip_line(p);
 
     if (*p == '\0') return 0;
-    unsigned int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
-
-    int num_dec = 0;
-    if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
-      }
-    }
-    int exp_acc = 0;
-    if (*p == 'e' || *p == 'E') {
-      p++;
-      if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-    }
-    if (exp_acc < num_dec)
+    unsigned long long acc = 0;
+    if (ParseInteger(p, (std::numeric_limits<unsigned int>::max)(), acc) ==
+        false)
       return 0;
-    else if (exp_acc > 0)
-      acc *= (unsigned int)(powf(10.f, (float)(exp_acc - num_dec)));
     end = strip_line(p);
-    return acc;
+    return (unsigned int)(acc);
   }
 
   // The following function is a home made strtof. The
@@ -114,18 +134,28 @@ class SOL_EXPORTS NumericParser {
       p++;
     }
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
-
-    int num_dec = 0;
+    // digits beyond the precision of a double only shift the exponent
+    const double max_acc = 1e17;
+    bool has_digit = false;
+    double acc = 0;
+    int exp_shift = 0;
+    for (; is_digit(*p); ++p) {
+      has_digit = true;
+      if (acc < max_acc)
+        acc = acc * 10 + (*p - '0');
+      else
+        ++exp_shift;
+    }
     if (*p == '.') {
-      p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
+      for (++p; is_digit(*p); ++p) {
+        has_digit = true;
+        if (acc < max_acc) {
+          acc = acc * 10 + (*p - '0');
+          --exp_shift;
+        }
       }
-      while (*p >= '0' && *p <= '9') p++;
     }
+    if (has_digit == false) return 0;
 
     int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
@@ -136,16 +166,16 @@ class SOL_EXPORTS NumericParser {
         exp_s = -1;
         p++;
       }
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-      exp_acc *= exp_s;
+      exp_acc = exp_s * ParseExponent(p);
     }
-    exp_acc -= num_dec;
+    exp_acc += exp_shift;
     end = strip_line(p);
-    if (exp_acc == 0) {
-      return float(s * acc);
-    } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+    if (acc != 0 && exp_acc != 0) {
+      // two steps, so that the power itself stays in the range of a double
+      acc *= std::pow(10.0, exp_acc / 2);
+      acc *= std::pow(10.0, exp_acc - exp_acc / 2);
     }
+    return float(s * acc);
   }
 
 };  // class NumericParser
-- 
2.43.0


From ae6acb9cf24d5080eeb32a3d8345017ea857c7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 03/46] fix: reject the reserved feature index in svm files
 (its dimension overflows to zero)

---
 src/sol/pario/svm_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_reader.cc b/src/sol/pario/svm_reader.cc
index 4e1665c..9ccce34 100755
--- a/src/sol/pario/svm_reader.cc
+++ b/src/sol/pario/svm_reader.cc
@@ -38,7 +38,7 @@ int SVMReader::Next(DataPoint &dst_data) {
   // 2. parse features
   while (*iter != '\0') {
     index_t index = (index_t)(NumericParser::ParseUint(iter, endptr));
-    if (endptr == iter) {
+    if (endptr == iter || index == invalid_index) {
       // parse index failed
       fprintf(stderr, "parse index value (%s) failed!\n", iter);
       this->is_good_ = false;
-- 
2.43.0


From 70208331d74eed999894a98c29aa7d386a4c9a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 04/46] fix: write feature indexes above 2^31 as unsigned in
 svm files

---
 src/sol/pario/svm_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..e62a7d6 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
-- 
2.43.0


From a663795741fda7e04c560f48f7a687be1f9bd619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 05/46] fix: reject corrupt records in binary data files
 instead of trusting their sizes

---
 src/sol/pario/binary_reader.cc | 35 +++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..e033b43 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
@@ -41,18 +41,38 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "read coded index length failed!\n");
       return Status_Invalid_Format;
     }
-    this->comp_codes_.resize(code_len);
-    ret = this->file_reader_.Read(this->comp_codes_.begin(), code_len);
-    if (ret != Status_OK) {
-      fprintf(stderr, "read coded index failed!\n");
+    // an index is coded with one to ten bytes
+    if (code_len < feat_num || (code_len - 1) / 10 >= feat_num) {
+      fprintf(stderr, "coded index length is not correct!\n");
       return Status_Invalid_Format;
     }
-    dst_data.Resize(feat_num);
+    // read by blocks so that no more than what the file provides is allocated
+    const size_t block_len = 1 << 20;
+    this->comp_codes_.clear();
+    while (this->comp_codes_.size() < code_len) {
+      size_t offset = this->comp_codes_.size();
+      size_t left = code_len - offset;
+      size_t len = left < block_len ? left : block_len;
+      this->comp_codes_.resize(offset + len);
+      ret = this->file_reader_.Read(this->comp_codes_.begin() + offset, len);
+      if (ret != Status_OK) {
+        fprintf(stderr, "read coded index failed!\n");
+        return Status_Invalid_Format;
+      }
+    }
     decomp_index(this->comp_codes_, dst_data.indexes());
-    if (dst_data.indexes().size() != feat_num) {
+    if (dst_data.indexes().size() != feat_num ||
+        (this->comp_codes_.back() & 128) != 0) {
       fprintf(stderr, "decoded index number is not correct!\n");
       return Status_Invalid_Format;
     }
+    for (size_t i = 0; i < feat_num; ++i) {
+      if (dst_data.index(i) == invalid_index) {
+        fprintf(stderr, "decoded index is out of range!\n");
+        return Status_Invalid_Format;
+      }
+    }
+    dst_data.Resize(feat_num);
 
     ret = this->file_reader_.Read((char*)dst_data.features().begin(),
                                   sizeof(real_t) * feat_num);
@@ -60,6 +80,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "load features failed!\n");
       return Status_Invalid_Format;
     }
+    dst_data.Sort();
   }
   return ret;
 }
-- 
2.43.0


From 4d8c2aea554d29487df9f51fb092b24eb94149f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 06/46] fix: do not loop or grow forever on lines with null
 characters

---
 src/sol/pario/file_reader.cc | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..15f08cf 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -10,6 +10,7 @@
 
 #include <cstring>
 #include <cstdlib>
+#include <limits>
 #include <stdexcept>
 #include <memory>
 #include <iostream>
@@ -96,7 +97,6 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
         "ReadLine can only be called when only file is opened with `text` "
         "mode.\n");
   }
-  int len(0);
   if (fgets(dst, dst_len, this->file_) == nullptr) {
     if (feof(this->file_)) {
       return Status_EndOfFile;
@@ -105,11 +105,32 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
       return Status_IO_Error;
     }
   }
-  while (strrchr(dst, '\n') == nullptr) {
+  int len = int(strlen(dst));
+  while (len == 0 || dst[len - 1] != '\n') {
+    if (len != dst_len - 1) {
+      // the buffer is not full: it is either the last line of the file, or
+      // the line contains a null character
+      if (feof(this->file_)) break;
+      fprintf(stderr, "Error: line is not a text line\n");
+      return ferror(this->file_) ? Status_IO_Error : Status_Invalid_Format;
+    }
+    if (dst_len > (std::numeric_limits<int>::max)() / 2) {
+      fprintf(stderr, "Error: line is too long\n");
+      return Status_Invalid_Format;
+    }
+    char* new_dst = (char*)realloc(dst, dst_len * 2);
+    if (new_dst == nullptr) {
+      fprintf(stderr, "Error: line is too long\n");
+      return Status_Invalid_Format;
+    }
+    dst = new_dst;
     dst_len *= 2;
-    dst = (char*)realloc(dst, dst_len);
-    len = int(strlen(dst));
-    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
+    if (fgets(dst + len, dst_len - len, this->file_) == nullptr) {
+      if (feof(this->file_)) break;
+      fprintf(stderr, "Error %d: read line failed\n", Status_IO_Error);
+      return Status_IO_Error;
+    }
+    len += int(strlen(dst + len));
   }
   return Status_OK;
 }
-- 
2.43.0


From 35e4e5e36e24a3163c02ca3de67c9e747487e46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:59 +0000
Subject: [PATCH 07/46] fix: sort and clone empty data points, and sort large
 ones without deep recursion

---
 src/sol/pario/data_point.cc | 63 +++++++++++++------------------------
 1 file changed, 21 insertions(+), 42 deletions(-)

diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..c45b54f 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -8,7 +8,9 @@
 
 #include "sol/pario/data_point.h"
 
+#include <algorithm>
 #include <utility>
+#include <vector>
 
 namespace sol {
 namespace pario {
@@ -19,6 +21,7 @@ void DataPoint::Clone(DataPoint &dst_pt) const {
   dst_pt.label_ = this->label_;
   dst_pt.Reserve(this->size());
   dst_pt.Resize(this->size());
+  if (this->size() == 0) return;
   memcpy(dst_pt.indexes().begin(), this->indexes().begin(),
          this->size() * sizeof(index_t));
   memcpy(dst_pt.features().begin(), this->features().begin(),
@@ -41,54 +44,30 @@ void DataPoint::Clear() {
 }
 
 bool DataPoint::IsSorted() const {
-  for (auto iter = this->indexes().begin() + 1; iter < this->indexes().end();
-       ++iter) {
-    if (*iter <= *(iter - 1)) return false;
+  for (size_t i = 1; i < this->size(); ++i) {
+    if (this->index(i) <= this->index(i - 1)) return false;
   }
   return true;
 }
 
-template <typename T1, typename T2>
-void QuickSort(T1 *a, T2 *b, size_t low, size_t high) {  // from small to great
-  size_t i = low;
-  size_t j = high;
-  T1 temp = a[low];  // select the first element as the indicator
-  T2 temp_ind = b[low];
-
-  while (i < j) {
-    while ((i < j) && (temp < a[j])) {  // scan right side
-      j--;
-    }
-    if (i < j) {
-      a[i] = a[j];
-      b[i] = b[j];
-      i++;
-    }
-
-    while (i < j && (a[i] < temp)) {  // scan left side
-      i++;
-    }
-    if (i < j) {
-      a[j] = a[i];
-      b[j] = b[i];
-      j--;
-    }
-  }
-  a[i] = temp;
-  b[i] = temp_ind;
-
-  if (low < i) {
-    QuickSort(a, b, low, i - 1);  // sort left subset
-  }
-  if (i < high) {
-    QuickSort(a, b, j + 1, high);  // sort right subset
-  }
-}
-
 void DataPoint::Sort() {
   if (this->IsSorted() == false) {
-    QuickSort(this->indexes().begin(), this->features().begin(), 0,
-              this->indexes().size() - 1);
+    size_t num = this->size();
+    std::vector<std::pair<index_t, real_t>> feats;
+    feats.reserve(num);
+    for (size_t i = 0; i < num; ++i) {
+      feats.push_back(std::make_pair(this->index(i), this->feature(i)));
+    }
+    // from small to great, repeated indexes stay in the order they came
+    std::stable_sort(feats.begin(), feats.end(),
+                     [](const std::pair<index_t, real_t> &l,
+                        const std::pair<index_t, real_t> &r) {
+                       return l.first < r.first;
+                     });
+    for (size_t i = 0; i < num; ++i) {
+      this->index(i) = feats[i].first;
+      this->feature(i) = feats[i].second;
+    }
   }
 }
 
-- 
2.43.0


From 90bc945f8ab366a926aa2b3f7337e13acff280c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:55 +0000
Subject: [PATCH 08/46] fix: bulk dequeue must re-check the queue after every
 wake-up

---
 include/sol/util/block_queue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..c948ae0 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -148,8 +148,10 @@ class BlockQueue {
     for (i = 0; i < num; ++i) {
       if (this->elem_num_ == 0) {
         if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
-          this->nonfull_.notify_all();
-          this->nonempty_.wait();
+          while (this->elem_num_ == 0) {
+            this->nonfull_.notify_all();
+            this->nonempty_.wait();
+          }
         } else {
           break;
         }
-- 
2.43.0


From 59a7220f167cfbfde9f213d0d21812a2d00e1a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:05 +0000
Subject: [PATCH 09/46] fix: destroying a data iterator while its reader runs
 must neither race, hang nor leak

---
 include/sol/pario/data_iter.h  |  4 +++-
 include/sol/util/block_queue.h | 29 ++++++++++++++++++++++++++---
 src/sol/pario/data_iter.cc     | 19 +++++--------------
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index 231b005..c95c423 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -51,9 +51,11 @@ class SOL_EXPORTS DataIter {
  protected:
   // mini-batch size
   int batch_size_;
+  // all the mini batches, wherever they are
+  std::vector<std::unique_ptr<MiniBatch>> mini_batches_;
   // factory to store not used mini batches
   BlockQueue<MiniBatch*> mini_batch_factory_;
-  // mini-batch number in buffer
+  // loaded mini batches
   BlockQueue<MiniBatch*> mini_batch_buf_;
   // data reader threads
   std::vector<std::shared_ptr<DataReadTask>> readers_;
diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index c948ae0..793ced9 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  Dequeue an element if there is any, never blocks
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return true if an element is dequeued
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool has_elem = this->elem_num_ > 0;
+    if (has_elem) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return has_elem;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
@@ -167,15 +185,20 @@ class BlockQueue {
 
  public:
   int capacity() const { return this->queue_size_; }
-  bool empty() const { return this->elem_num_ == 0; }
-  int size() const { return this->elem_num_; }
+  bool empty() const { return this->size() == 0; }
+  int size() const {
+    this->lock_.lock();
+    int num = this->elem_num_;
+    this->lock_.unlock();
+    return num;
+  }
 
  protected:
   T* elems_;
   int elem_num_;
   int head_, tail_;
   int queue_size_;
-  Mutex lock_;
+  mutable Mutex lock_;
   Monitor nonfull_;
   Monitor nonempty_;
 };
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..006fe6f 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -18,7 +18,8 @@ DataIter::DataIter(int batch_size, int batch_num)
       mini_batch_factory_(batch_num),
       mini_batch_buf_(batch_num) {
   for (int i = 0; i < batch_num; ++i) {
-    this->mini_batch_factory_.Enqueue(new MiniBatch(batch_size));
+    this->mini_batches_.emplace_back(new MiniBatch(batch_size));
+    this->mini_batch_factory_.Enqueue(this->mini_batches_.back().get());
   }
   // signal to start next reader
   this->mini_batch_buf_.Enqueue(nullptr);
@@ -27,14 +28,12 @@ DataIter::DataIter(int batch_size, int batch_num)
 
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
-    DeletePointer(mb);
+  // clear mini_batch_factory_, the running reader may take elements as well
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
   }
 
   // send exit signal to readers
-  this->mini_batch_factory_.Enqueue(mb);
+  this->mini_batch_factory_.Enqueue(nullptr);
 
   // clear mini_batch_buf_
   int reader_count = static_cast<int>(this->readers_.size());
@@ -45,8 +44,6 @@ DataIter::~DataIter() {
       if (this->running_reader_idx_ < reader_count) {
         this->readers_[this->running_reader_idx_]->Start();
       }
-    } else {
-      DeletePointer(mb);
     }
   }
 
@@ -54,12 +51,6 @@ DataIter::~DataIter() {
   for (shared_ptr<DataReadTask>& reader : this->readers_) {
     reader->Join();
   }
-
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
-    DeletePointer(mb);
-  }
 }
 
 int DataIter::AddReader(const std::string& path, const std::string& dtype,
-- 
2.43.0


From c81f00f50e1dcc239e1d11117682f58126b2b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 10/46] fix: report failed writes of converted, shuffled, split
 and merged data

---
 include/sol/pario/data_writer.h |  6 ++--
 include/sol/pario/file_writer.h |  4 ++-
 src/sol/pario/binary_writer.cc  |  2 +-
 src/sol/pario/csv_writer.cc     |  4 +--
 src/sol/pario/file_writer.cc    | 12 ++++++--
 src/sol/pario/svm_writer.cc     |  2 +-
 src/sol/tools.cc                | 54 ++++++++++++++++++++++-----------
 tools/concat.cc                 | 31 ++++++++++++++-----
 8 files changed, 80 insertions(+), 35 deletions(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..e2429bf 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS DataWriter {
   /// \return Status code,  Status_OK if succeed
   virtual int Open(const std::string& path, const char* mode = "w");
 
-  /// \brief Close the reader
-  virtual void Close() { this->file_writer_.Close(); }
+  /// \brief Close the writer
+  ///
+  /// \return Status code,  Status_OK if everything is written to the file
+  virtual int Close() { return this->file_writer_.Close(); }
 
   /// \brief  Check the status of the data handler
   ///
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..440131f 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS FileWriter {
 
   /**
    * \brief  Close the file
+   *
+   * \return Status code, Status_OK if everything is written to the file
    */
-  void Close();
+  int Close();
 
   /**
    * Good : Test if the file writer is good
diff --git a/src/sol/pario/binary_writer.cc b/src/sol/pario/binary_writer.cc
index b72afec..cc60654 100755
--- a/src/sol/pario/binary_writer.cc
+++ b/src/sol/pario/binary_writer.cc
@@ -34,7 +34,7 @@ int BinaryWriter::Write(const DataPoint& data) {
     this->file_writer_.Write((char*)(data.features().begin()),
                              sizeof(real_t) * feat_num);
   }
-  return Status_OK;
+  return this->Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(BinaryWriter, "bin", "binary format data writer");
diff --git a/src/sol/pario/csv_writer.cc b/src/sol/pario/csv_writer.cc
index aae469c..3966e8b 100755
--- a/src/sol/pario/csv_writer.cc
+++ b/src/sol/pario/csv_writer.cc
@@ -29,7 +29,7 @@ int CSVWriter::Write(const DataPoint& data) {
   for (; j < this->feat_dim_; ++j) this->file_writer_.Printf(",0");
 
   this->file_writer_.Printf("\n");
-  return Status_OK;
+  return this->Good() ? Status_OK : Status_IO_Error;
 }
 
 int CSVWriter::SetExtraInfo(const char* extra_info) {
@@ -44,7 +44,7 @@ int CSVWriter::SetExtraInfo(const char* extra_info) {
     oss << ",v" << i;
   }
   this->file_writer_.Printf("%s\n", oss.str().c_str());
-  return Status_OK;
+  return this->Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(CSVWriter, "csv", "csv format data writer");
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..8f77c55 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -46,11 +46,17 @@ int FileWriter::Open(const char* path, const char* mode) {
   return Status_OK;
 }
 
-void FileWriter::Close() {
-  if (this->file_ != nullptr && this->file_ != stdout) {
-    fclose(this->file_);
+int FileWriter::Close() {
+  int ret = Status_OK;
+  if (this->file_ != nullptr) {
+    // an earlier write may have failed as well as the final flush
+    if (ferror(this->file_) != 0) ret = Status_IO_Error;
+    int close_ret =
+        this->file_ == stdout ? fflush(stdout) : fclose(this->file_);
+    if (close_ret != 0) ret = Status_IO_Error;
   }
   this->file_ = nullptr;
+  return ret;
 }
 
 bool FileWriter::Good() {
diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index e62a7d6..d85896b 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -20,7 +20,7 @@ int SVMWriter::Write(const DataPoint &data) {
     this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
-  return Status_OK;
+  return this->Good() ? Status_OK : Status_IO_Error;
 }
 
 RegisterDataWriter(SVMWriter, "svm", "libsvm format data writer");
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..e90300c 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -95,6 +95,10 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
+  ret = fw.Close();
+  if (ret != Status_OK) {
+    cerr << "Write analysis result to " << output_path << " failed\n";
+  }
   return ret;
 }
 
@@ -131,17 +135,20 @@ int convert(const string& src_path, const string& src_type,
         if (feat_dim < pt.dim()) feat_dim = pt.dim();
       }
     }
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
     if (feat_dim == 0) {
       cerr << "figuring out feature dimension failed\n";
-      return Status_Invalid_Format;
+      ret = Status_Invalid_Format;
+    }
+    if (ret == Status_OK) ret = iter.AddReader(src_path, src_type);
+    if (ret != Status_OK) {
+      delete writer;
+      return ret;
     }
-    ret = iter.AddReader(src_path, src_type);
-    if (ret != Status_OK) return ret;
   }
   size_t data_num = 0;
   size_t print_thresh = 1000;
-  while (true) {
+  while (ret == Status_OK) {
     mb = iter.Next(mb);
     if (mb == nullptr) break;
     data_num += mb->size();
@@ -158,12 +165,17 @@ int convert(const string& src_path, const string& src_type,
       }
     }
 
-    for (int i = 0; i < mb->size(); ++i) {
-      writer->Write((*mb)[i]);
+    for (int i = 0; i < mb->size() && ret == Status_OK; ++i) {
+      ret = writer->Write((*mb)[i]);
     }
   }
-  cout << data_num << " examples converted\n";
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
+  if (ret == Status_OK) {
+    cout << data_num << " examples converted\n";
+  } else {
+    cerr << "Write data to " << dst_path << " failed\n";
+  }
   delete writer;
   return ret;
 }
@@ -210,12 +222,14 @@ int shuffle(const std::string& src_path, const std::string& src_type,
   random_device rd;
   mt19937 g(rd());
   std::shuffle(data_list.begin(), data_list.end(), g);
-  writer->SetExtraInfo((char*)(&feat_dim));
+  ret = writer->SetExtraInfo((char*)(&feat_dim));
   for (auto& data : data_list) {
-    writer->Write(*data);
+    if (ret == Status_OK) ret = writer->Write(*data);
     delete data;
   }
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
+  if (ret != Status_OK) cerr << "Write data to " << output_path << " failed\n";
   delete writer;
   return ret;
 }
@@ -271,16 +285,22 @@ int split(const string& src_path, const string& src_type, int fold_num,
       break;
     }
     fprintf(stderr, "write fold %d to %s\n", i, output_path.str().c_str());
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
 
-    for (; data_idx < end_idx && data_idx < data_num; ++data_idx) {
-      writer->Write(*(data_list[data_idx]));
-      delete data_list[data_idx];
+    for (; data_idx < end_idx && data_idx < data_num && ret == Status_OK;
+         ++data_idx) {
+      ret = writer->Write(*(data_list[data_idx]));
     }
     end_idx += data_split_num;
-    writer->Close();
+    int close_ret = writer->Close();
+    if (ret == Status_OK) ret = close_ret;
     delete writer;
+    if (ret != Status_OK) {
+      cerr << "Write data to " << output_path.str() << " failed\n";
+      break;
+    }
   }
+  for (auto& data : data_list) delete data;
   return ret;
 }
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..60b11dd 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -59,7 +59,10 @@ int main(int argc, char** argv) {
     index_t feat_dim = 0;
     for (const string& input_path : input_list) {
       ret = iter.AddReader(input_path, src_type);
-      if (ret != Status_OK) return ret;
+      if (ret != Status_OK) {
+        delete writer;
+        return ret;
+      }
     }
     while (true) {
       mb = iter.Next(mb);
@@ -70,21 +73,28 @@ int main(int argc, char** argv) {
       }
     }
     cout << "total dimension: " << feat_dim << "\n";
-    writer->SetExtraInfo((char*)(&feat_dim));
+    ret = writer->SetExtraInfo((char*)(&feat_dim));
+    if (ret != Status_OK) {
+      delete writer;
+      return ret;
+    }
   }
 
   size_t data_num = 0;
   size_t print_thresh = 10000;
   for (const string& input_path : input_list) {
     ret = iter.AddReader(input_path, src_type);
-    if (ret != Status_OK) return ret;
+    if (ret != Status_OK) {
+      delete writer;
+      return ret;
+    }
   }
-  while (true) {
+  while (ret == Status_OK) {
     mb = iter.Next(mb);
     if (mb == nullptr) break;
     data_num += mb->size();
-    for (int i = 0; i < mb->size(); ++i) {
-      writer->Write((*mb)[i]);
+    for (int i = 0; i < mb->size() && ret == Status_OK; ++i) {
+      ret = writer->Write((*mb)[i]);
     }
 
     if (data_num > print_thresh) {
@@ -93,8 +103,13 @@ int main(int argc, char** argv) {
     }
   }
 
-  writer->Close();
+  int close_ret = writer->Close();
+  if (ret == Status_OK) ret = close_ret;
   delete writer;
-  cout << data_num << " examples concatenated to " << dst_path << "\n";
+  if (ret == Status_OK) {
+    cout << data_num << " examples concatenated to " << dst_path << "\n";
+  } else {
+    cerr << "Write data to " << dst_path << " failed\n";
+  }
   return ret;
 }
-- 
2.43.0


From f0229a8073525810fa8588396583d577090988e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:49 +0000
Subject: [PATCH 11/46] fix: splitting without an output type, with no folds,
 and analysing data without features

---
 src/sol/c_api.cc |  3 ++-
 src/sol/tools.cc | 12 ++++++++++--
 tools/concat.cc  |  3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..ea3acc6 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -189,5 +189,6 @@ int sol_shuffle_data(const char* src_path, const char* src_type,
 int sol_split_data(const char* src_path, const char* src_type, int fold,
                    const char* output_prefix, const char* dst_type,
                    bool shuffle) {
-  return split(src_path, src_type, fold, output_prefix, dst_type, shuffle);
+  return split(src_path, src_type, fold, output_prefix,
+               dst_type == NULL ? "" : dst_type, shuffle);
 }
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index e90300c..1ccfd6a 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
@@ -235,7 +235,15 @@ int shuffle(const std::string& src_path, const std::string& src_type,
 }
 
 int split(const string& src_path, const string& src_type, int fold_num,
-          const string& output_prefix, const string& dst_type, bool shuffle) {
+          const string& output_prefix, const string& dst_type_, bool shuffle) {
+  string dst_type = dst_type_;
+  if (dst_type.length() == 0) dst_type = src_type;
+
+  if (fold_num <= 0) {
+    cerr << "number of splits should be positive\n";
+    return Status_Invalid_Argument;
+  }
+
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
   if (ret != Status_OK) return ret;
diff --git a/tools/concat.cc b/tools/concat.cc
index 60b11dd..46fdb78 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -40,8 +40,11 @@ int main(int argc, char** argv) {
   string dst_path = parser.get<string>("output");
   string dst_type = parser.get<string>("output_type");
 
+  if (dst_type.empty()) dst_type = src_type;
+
   DataWriter* writer = DataWriter::Create(dst_type);
   if (writer == nullptr) {
+    cerr << "unrecognized output type: " << dst_type << "\n";
     return Status_Invalid_Argument;
   }
   int ret = writer->Open(dst_path);
-- 
2.43.0


From 8494f548d4a0161bc03f6bfe580a4c726450d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:53 +0000
Subject: [PATCH 12/46] fix: csv writer silently dropped the rest of a row
 after an index it cannot represent

---
 include/sol/pario/csv_writer.h | 3 +++
 src/sol/pario/csv_writer.cc    | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sol/pario/csv_writer.h b/include/sol/pario/csv_writer.h
index 8ca3b72..89696e9 100755
--- a/include/sol/pario/csv_writer.h
+++ b/include/sol/pario/csv_writer.h
@@ -15,6 +15,9 @@ namespace sol {
 namespace pario {
 
 class SOL_EXPORTS CSVWriter : public DataWriter {
+ public:
+  CSVWriter() : feat_dim_(0) {}
+
  public:
   /// \brief  Write a new data into the file
   ///
diff --git a/src/sol/pario/csv_writer.cc b/src/sol/pario/csv_writer.cc
index 3966e8b..db32b1f 100755
--- a/src/sol/pario/csv_writer.cc
+++ b/src/sol/pario/csv_writer.cc
@@ -14,7 +14,13 @@ namespace sol {
 namespace pario {
 
 int CSVWriter::Write(const DataPoint& data) {
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
+  // columns are the features 1 to feat_dim - 1, each at most once
+  if (data.IsSorted() == false ||
+      (feat_num > 0 && (data.index(0) == 0 || data.dim() > this->feat_dim_))) {
+    fprintf(stderr, "features cannot be represented in the csv columns\n");
+    return Status_Invalid_Argument;
+  }
   this->file_writer_.Printf("%d", data.label());
 
   size_t i = 0;
-- 
2.43.0


From 85143c1df0457a1d04a2d6c997c7457cd52c1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:03 +0000
Subject: [PATCH 13/46] fix: writing a data point that never had a feature

---
 src/sol/pario/binary_writer.cc | 2 +-
 src/sol/pario/svm_writer.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/binary_writer.cc b/src/sol/pario/binary_writer.cc
index cc60654..d841de7 100755
--- a/src/sol/pario/binary_writer.cc
+++ b/src/sol/pario/binary_writer.cc
@@ -22,7 +22,7 @@ int BinaryWriter::Open(const std::string& path, const char* mode) {
 int BinaryWriter::Write(const DataPoint& data) {
   label_t label = data.label();
   this->file_writer_.Write((char*)&label, sizeof(label));
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
 
   this->file_writer_.Write((char*)&feat_num, sizeof(feat_num));
   if (feat_num > 0) {
diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d85896b..dbdba66 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -14,7 +14,7 @@ namespace sol {
 namespace pario {
 
 int SVMWriter::Write(const DataPoint &data) {
-  size_t feat_num = data.indexes().size();
+  size_t feat_num = data.size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
     this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
-- 
2.43.0


From 2db3f52771e98b60bdb313d8c896b2304248826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:59 +0000
Subject: [PATCH 14/46] fix: refuse data iterators without batches to fill
 instead of hanging

---
 src/sol/c_api.cc           | 8 +++++++-
 src/sol/pario/data_iter.cc | 3 +++
 tools/lsol_c.cc            | 6 ++++++
 tools/sol_train.cc         | 8 +++++++-
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index ea3acc6..cad847a 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -27,7 +27,13 @@ using namespace sol::pario;
 using namespace sol::model;
 
 void* sol_CreateDataIter(int batch_size, int buf_size) {
-  return (void*)(new DataIter(batch_size, buf_size));
+  try {
+    return (void*)(new DataIter(batch_size, buf_size));
+  }
+  catch (std::exception& err) {
+    fprintf(stderr, "create data iterator failed: %s\n", err.what());
+    return nullptr;
+  }
 }
 
 void sol_ReleaseDataIter(void** data_iter) {
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index 006fe6f..bc279e0 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -17,6 +17,9 @@ DataIter::DataIter(int batch_size, int batch_num)
     : batch_size_(batch_size),
       mini_batch_factory_(batch_num),
       mini_batch_buf_(batch_num) {
+  // a reader without batches to fill would never deliver anything
+  Check(batch_size > 0);
+  Check(batch_num > 0);
   for (int i = 0; i < batch_num; ++i) {
     this->mini_batches_.emplace_back(new MiniBatch(batch_size));
     this->mini_batch_factory_.Enqueue(this->mini_batches_.back().get());
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..dc33144 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -84,6 +84,9 @@ int train(cmdline::parser& parser) {
   if (ret == Status_OK) {
     data_iter = sol_CreateDataIter(parser.get<int>("batchsize"),
                                    parser.get<int>("bufsize"));
+    if (data_iter == nullptr) ret = Status_Invalid_Argument;
+  }
+  if (ret == Status_OK) {
     ret = sol_LoadData(data_iter, parser.get<string>("input").c_str(),
                        parser.get<string>("format").c_str(),
                        parser.get<int>("pass"));
@@ -125,6 +128,9 @@ int test(cmdline::parser& parser) {
   if (ret == Status_OK) {
     data_iter = sol_CreateDataIter(parser.get<int>("batchsize"),
                                    parser.get<int>("bufsize"));
+    if (data_iter == nullptr) ret = Status_Invalid_Argument;
+  }
+  if (ret == Status_OK) {
     ret = sol_LoadData(data_iter, parser.get<string>("input").c_str(),
                        parser.get<string>("format").c_str(), 1);
   }
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..e5472c6 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -79,7 +79,13 @@ int train(cmdline::parser& parser) {
   }
 
   // load data
-  DataIter iter(parser.get<int>("batchsize"), parser.get<int>("bufsize"));
+  int batch_size = parser.get<int>("batchsize");
+  int buf_size = parser.get<int>("bufsize");
+  if (batch_size <= 0 || buf_size <= 0) {
+    fprintf(stderr, "batchsize and bufsize must be positive\n");
+    return Status_Invalid_Argument;
+  }
+  DataIter iter(batch_size, buf_size);
   int ret = iter.AddReader(input_path, parser.get<string>("format"),
                            parser.get<int>("pass"));
   if (ret != Status_OK) return ret;
-- 
2.43.0


From 42d309d6e3d9592bbbf41d19445ba4d29be65d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 15/46] fix: restoring a truncated or inconsistent model file
 must fail cleanly

---
 include/sol/math/matrix.h     |  5 +++-
 src/sol/model/model.cc        | 55 +++++++++++++++++++++++------------
 src/sol/model/online_model.cc |  3 +-
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..694ca43 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -211,7 +211,10 @@ std::istream& operator>>(std::istream& is, Matrix<DType>& mat) {
   for (size_t i = 0; i < s2d[0]; ++i) {
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '[');
     for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;
-    is.ignore((std::numeric_limits<std::streamsize>::max)(), ']');
+    // the row has to be complete
+    char c = 0;
+    is >> c;
+    if (c != ']') is.setstate(std::ios::failbit);
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '\n');
   }
   return is;
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..f187a0b 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -29,7 +29,7 @@ Model* Model::Create(const std::string& name, int class_num) {
   try {
     if (create_func != nullptr) ins = create_func(class_num);
   }
-  catch (invalid_argument& err) {
+  catch (std::exception& err) {
     cerr << "create model failed: " << err.what() << "\n";
     ins = nullptr;
   }
@@ -192,42 +192,61 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
+    while (line != "model parameters:" && getline(in_file, line)) {
       model_info << line;
     }
     Json::Value root;
     Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
-      cerr << "parse model file " << path << " failed\n";
+    try {
+      if (!in_file || reader.parse(model_info.str(), root) == false ||
+          root.isObject() == false) {
+        ret = Status_Invalid_Format;
+      }
+    }
+    catch (std::exception& err) {
       ret = Status_Invalid_Format;
     }
+    if (ret != Status_OK) cerr << "parse model file " << path << " failed\n";
 
     if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
-        ret = Status_Invalid_Format;
-      } else {
-        try {
-          ret = model->SetModelInfo(root);
+      // the weights of each classifier take at least two characters per
+      // dimension, do not allocate for more than the file can hold
+      streampos pos = in_file.tellg();
+      in_file.seekg(0, ios::end);
+      double file_size = double(in_file.tellg());
+      in_file.seekg(pos);
+      try {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", 0).asInt();
+        double dim = root["online"].get("dim", 0).asDouble();
+        if (double(cls_num) > file_size || dim > file_size ||
+            dim * (cls_num == 2 ? 1 : cls_num) * 2 > file_size) {
+          throw invalid_argument("model file is truncated");
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
+          ret = model->SetModelInfo(root);
         }
       }
+      catch (std::exception& err) {
+        cerr << "set model parameter failed: " << err.what() << "\n";
+        ret = Status_Invalid_Argument;
+      }
     }
   }
 
   if (ret == Status_OK) {
     ret = model->SetModelParam(in_file);
+    if (ret == Status_OK && !in_file) {
+      cerr << "parse model parameters of " << path << " failed\n";
+      ret = Status_Invalid_Format;
+    }
   }
   if (ret != Status_OK) {
     DeletePointer(model);
-    DeletePointer(model);
   }
   in_file.close();
   return model;
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..b8f7507 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
-- 
2.43.0


From 24cf1ba4860fd1edf71ce50ef1beb350a8a908b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:00 +0000
Subject: [PATCH 16/46] fix: report models and predictions that cannot be
 written, and finalise a model before saving it

---
 src/sol/c_api.cc       | 10 +++++++++-
 src/sol/model/model.cc |  4 ++++
 tools/sol_train.cc     |  4 ++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index cad847a..60b1ca6 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -57,6 +57,8 @@ void* sol_RestoreModel(const char* model_path) {
 
 int sol_SaveModel(void* model, const char* model_path) {
   Model* m = (Model*)(model);
+  // bring the weights up to date before writing them
+  if (m->model_updated()) m->EndTrain();
   return m->Save(model_path);
 }
 
@@ -111,7 +113,13 @@ float sol_Test(void* model, void* data_iter, const char* output_path) {
   DataIter* iter = (DataIter*)(data_iter);
   if (output_path != nullptr) {
     ofstream out_file(output_path, ios::out);
-    return m->Test(*iter, &out_file);
+    float err_rate = m->Test(*iter, &out_file);
+    out_file.close();
+    if (!out_file) {
+      fprintf(stderr, "write file %s failed\n", output_path);
+      return -1.f;
+    }
+    return err_rate;
   } else {
     return m->Test(*iter, nullptr);
   }
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index f187a0b..ffa09d2 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -173,6 +173,10 @@ int Model::Save(const string& path) const {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write file " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index e5472c6..04e098e 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -100,11 +100,11 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-  return Status_OK;
+  return ret;
 }
 
 /// \brief  show classes of a group in a group
-- 
2.43.0


From 8e8591638377280b92e2180617d09ca654d7ae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:32 +0000
Subject: [PATCH 17/46] fix: lsol_c reports accuracies, not error rates, and
 survives a missing model

---
 include/sol/c_api.h |  4 ++--
 tools/lsol_c.cc     | 16 ++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/sol/c_api.h b/include/sol/c_api.h
index d832205..51a7e9e 100644
--- a/include/sol/c_api.h
+++ b/include/sol/c_api.h
@@ -112,7 +112,7 @@ SOL_EXPORTS void sol_GetModelParameters(void* model,
 /// \param model model to be trained
 /// \param data_iter data iterator
 ///
-/// \return training accuracy
+/// \return training error rate
 SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 
 /// \brief  test a model
@@ -122,7 +122,7 @@ SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 /// \param output_path path to save the predicted results, if no need, leave it
 /// empty
 ///
-/// \return test accuracy
+/// \return test error rate, negative if the results cannot be saved
 SOL_EXPORTS float sol_Test(void* model, void* data_iter,
                            const char* output_path);
 
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index dc33144..84c2dfe 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -69,7 +69,8 @@ int train(cmdline::parser& parser) {
         const vector<string>& opt_pair = split(opt, '=');
         if (opt_pair.size() != 2) {
           fprintf(stderr, "invalid params: %s\n", opt.c_str());
-          return Status_Invalid_Argument;
+          ret = Status_Invalid_Argument;
+          break;
         }
         if ((ret = sol_SetModelParameter(model, strip(opt_pair[0]).c_str(),
                                          strip(opt_pair[1]).c_str())) !=
@@ -93,7 +94,7 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
+    float accu = 1.f - sol_Train(model, data_iter);
     fprintf(stdout, "training accuracy: %.4f\n", accu);
 
     // save model
@@ -119,7 +120,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
@@ -139,9 +140,12 @@ int test(cmdline::parser& parser) {
     if (parser.exist("output")) {
       output_path = parser.get<string>("output").c_str();
     }
-
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    if (err_rate < 0) {
+      ret = Status_IO_Error;
+    } else {
+      fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
+    }
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From 2dde507b499b46b69c0d0a27000b0f45acb3d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:52 +0000
Subject: [PATCH 18/46] fix: a refused loss function must leave the model with
 its old one

---
 include/sol/model/model.h          |  7 +++++++
 include/sol/model/olm/alma2.h      |  3 +++
 include/sol/model/olm/arow.h       |  3 +++
 include/sol/model/olm/cw.h         |  3 +++
 include/sol/model/olm/eccw.h       |  3 +++
 include/sol/model/olm/perceptron.h |  3 ++-
 include/sol/model/olm/sop.h        |  3 +++
 src/sol/c_api.cc                   |  2 +-
 src/sol/model/model.cc             | 31 +++++++++++++++++-------------
 src/sol/model/olm/alma2.cc         | 10 +++++++---
 src/sol/model/olm/arow.cc          | 12 +++++++-----
 src/sol/model/olm/cw.cc            | 10 +++++++---
 src/sol/model/olm/eccw.cc          | 10 +++++++---
 src/sol/model/olm/perceptron.cc    | 13 ++++---------
 src/sol/model/olm/sop.cc           | 12 +++++++-----
 tools/sol_train.cc                 |  2 +-
 16 files changed, 83 insertions(+), 44 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..51f718b 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -45,6 +45,13 @@ class SOL_EXPORTS Model {
   /// \param value value of the parameter in string
   virtual void SetParameter(const std::string &name, const std::string &value);
 
+ protected:
+  /// \brief  check if the loss function can be used with this model, throws
+  /// if it cannot
+  ///
+  /// \param loss loss function
+  virtual void CheckLoss(const loss::Loss &loss) const;
+
  public:
   /// \brief  Train from a data set
   //
diff --git a/include/sol/model/olm/alma2.h b/include/sol/model/olm/alma2.h
index 94cf8a8..b355218 100644
--- a/include/sol/model/olm/alma2.h
+++ b/include/sol/model/olm/alma2.h
@@ -21,6 +21,9 @@ class ALMA2 : public OnlineLinearModel {
  public:
   virtual void BeginTrain();
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
diff --git a/include/sol/model/olm/arow.h b/include/sol/model/olm/arow.h
index 7b09127..fd6ec29 100644
--- a/include/sol/model/olm/arow.h
+++ b/include/sol/model/olm/arow.h
@@ -20,6 +20,9 @@ class AROW : public OnlineLinearModel {
 
   virtual void SetParameter(const std::string& name, const std::string& value);
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
diff --git a/include/sol/model/olm/cw.h b/include/sol/model/olm/cw.h
index 5b3321c..ab973a9 100644
--- a/include/sol/model/olm/cw.h
+++ b/include/sol/model/olm/cw.h
@@ -22,6 +22,9 @@ class CW : public OnlineLinearModel {
 
   virtual void BeginTrain();
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
diff --git a/include/sol/model/olm/eccw.h b/include/sol/model/olm/eccw.h
index 30e8a2f..dada95e 100644
--- a/include/sol/model/olm/eccw.h
+++ b/include/sol/model/olm/eccw.h
@@ -21,6 +21,9 @@ class ECCW : public OnlineLinearModel {
 
   virtual void BeginTrain();
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
diff --git a/include/sol/model/olm/perceptron.h b/include/sol/model/olm/perceptron.h
index 3ba8fae..2477eea 100644
--- a/include/sol/model/olm/perceptron.h
+++ b/include/sol/model/olm/perceptron.h
@@ -15,7 +15,8 @@ class Perceptron : public OnlineLinearModel {
  public:
   Perceptron(int class_num);
 
-  virtual void SetParameter(const std::string& name, const std::string& value);
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
 
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
diff --git a/include/sol/model/olm/sop.h b/include/sol/model/olm/sop.h
index 2e67da9..5e8cccb 100644
--- a/include/sol/model/olm/sop.h
+++ b/include/sol/model/olm/sop.h
@@ -20,6 +20,9 @@ class SOP : public OnlineLinearModel {
   virtual void SetParameter(const std::string& name, const std::string& value);
   virtual void EndTrain();
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  protected:
   virtual label_t TrainPredict(const pario::DataPoint& dp, float* predicts);
 
diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 60b1ca6..7f55afd 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -73,7 +73,7 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  catch (std::exception& err) {
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index ffa09d2..2e47906 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <memory>
 #include <string>
 
 #include "sol/util/util.h"
@@ -61,19 +62,11 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
+    unique_ptr<loss::Loss> new_loss(loss::Loss::Create(value));
+    Check(new_loss != nullptr);
+    this->CheckLoss(*new_loss);
     DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
-    if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
-      throw invalid_argument(
-          "onlye binary loss function can be used with binary problems");
-    } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
-      throw invalid_argument(
-          "onlye multiclass loss function can be used with multiclass "
-          "problems");
-    }
+    this->loss_ = new_loss.release();
     this->require_reinit_ = true;
   } else if (name == "norm") {
     int norm_val = -1;
@@ -84,7 +77,7 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
         norm_val = -1;
       }
     }
-    catch (invalid_argument&) {
+    catch (std::exception&) {
       norm_val = -1;
     }
     if (value == "None" || norm_val == op::OpType::kNone) {
@@ -114,6 +107,18 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void Model::CheckLoss(const loss::Loss& loss) const {
+  if (this->clf_num_ == 1 && ((loss.type() & loss::Loss::Type::BC) == 0)) {
+    throw invalid_argument(
+        "onlye binary loss function can be used with binary problems");
+  } else if (this->clf_num_ != 1 &&
+             ((loss.type() & loss::Loss::Type::MC) == 0)) {
+    throw invalid_argument(
+        "onlye multiclass loss function can be used with multiclass "
+        "problems");
+  }
+}
+
 float Model::Test(DataIter& data_iter, std::ostream* os) {
   if (this->model_updated_) this->EndTrain();
 
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..83efb77 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -51,9 +51,6 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
@@ -63,6 +60,13 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void ALMA2::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void ALMA2::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   float margin = (1.f - alpha_) * B_ * square_p1_ / sqrtf(float(k_));
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..3b95f49 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -36,16 +36,18 @@ AROW::~AROW() { DeleteArray(this->Sigmas_); }
 void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
 
+void AROW::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void AROW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
   float beta_t = 0.f;
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..8aa6813 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -46,9 +46,6 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
@@ -58,6 +55,13 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void CW::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void CW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..fccc73a 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -47,9 +47,6 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
@@ -59,6 +56,13 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
   }
 }
 
+void ECCW::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument("only hinge-based loss functions are allowed");
+  }
+}
+
 void ECCW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..f350656 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -22,15 +22,10 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
   }
 }
 
-void Perceptron::SetParameter(const std::string& name,
-                              const std::string& value) {
-  if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
-  } else {
-    OnlineLinearModel::SetParameter(name, value);
+void Perceptron::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::BOOL) == 0) {
+    throw invalid_argument("only bool-based loss functions are allowed");
   }
 }
 
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..5e39e0c 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -35,16 +35,18 @@ SOP::~SOP() { DeleteArray(this->v_); }
 void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
 
+void SOP::CheckLoss(const loss::Loss& loss) const {
+  OnlineLinearModel::CheckLoss(loss);
+  if ((loss.type() & loss::Loss::Type::BOOL) == 0) {
+    throw invalid_argument("only bool-based loss functions are allowed");
+  }
+}
+
 void SOP::EndTrain() {
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_);
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 04e098e..168b3e3 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -71,7 +71,7 @@ int train(cmdline::parser& parser) {
       try {
         model->SetParameter(strip(opt_pair[0]), strip(opt_pair[1]));
       }
-      catch (invalid_argument& err) {
+      catch (std::exception& err) {
         fprintf(stderr, "%s\n", err.what());
         return Status_Invalid_Argument;
       }
-- 
2.43.0


From 8839dded78c49de1e585f71af3b0c3cb8c8f7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 19/46] fix: a refused parameter value must not take effect

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++----
 src/sol/model/olm/ada_rda.cc   | 10 ++++++----
 src/sol/model/olm/alma2.cc     | 17 +++++++++++------
 src/sol/model/olm/fofs.cc      | 15 +++++++++------
 src/sol/model/olm/ogd.cc       | 10 ++++++----
 src/sol/model/olm/rda.cc       | 10 ++++++----
 src/sol/model/online_model.cc  | 27 ++++++++++++++++++---------
 src/sol/model/regularizer.cc   |  5 ++++-
 8 files changed, 66 insertions(+), 38 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..7476ac9 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..3f426d6 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 83efb77..0772657 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -38,23 +38,28 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float alpha = stof(value);
+    Check(alpha > 0);
+    Check(alpha <= 1);
+    this->alpha_ = alpha;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    bool is_l2 = this->norm_type_ == op::OpType::kL2;
+    // the algorithm is only defined on normalized data
+    this->norm_type_ = op::OpType::kL2;
+    Check(is_l2);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..0cc4d93 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,14 +18,17 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    Check(B >= 0);
+    this->B_ = static_cast<index_t>(B);
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..98b4f54 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,8 +24,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta0_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -75,8 +76,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..ff98b18 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float sigma = stof(value);
+    Check(sigma > 0);
+    this->sigma_ = sigma;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float rou = stof(value);
+    Check(rou >= 0);
+    this->rou_ = rou;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index b8f7507..ddd82e3 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,36 +81,45 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float bias_eta = stof(value);
+    Check(bias_eta >= 0);
+    this->bias_eta0_ = bias_eta;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int dim = stoi(value);
+    Check(dim >= 0);
+    this->update_dim(dim);
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float active_smoothness = stof(value);
+    Check(active_smoothness > 0);
+    this->active_smoothness_ = active_smoothness;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float cost_margin = stof(value);
+    Check(cost_margin > 0);
+    this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    int base = stoi(value);
+    Check(base > 0);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = new ExpIterDisplayer(base);
   } else if (name == "step_show") {
+    int step = stoi(value);
+    Check(step > 0);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = new StepIterDisplayer(step);
   } else {
     Model::SetParameter(name, value);
   }
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..0243855 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -6,6 +6,7 @@
 
 #include "sol/model/regularizer.h"
 #include "sol/util/error_code.h"
+#include "sol/util/util.h"
 
 #include <string>
 
@@ -19,7 +20,9 @@ int Regularizer::SetParameter(const std::string &name,
                               const std::string &value) {
   int ret = Status_OK;
   if (name == "lambda") {
-    this->lambda_ = stof(value);
+    real_t lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
   } else {
     ret = Status_Invalid_Argument;
   }
-- 
2.43.0


From d4b3fb5c2d7f7ef4d7cd6c67441fa17f7764adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:34 +0000
Subject: [PATCH 20/46] fix: uniform losses always returned zero or NaN, and
 losses left stale gradients behind

---
 src/sol/loss/bool_loss.cc     |  9 ++++++---
 src/sol/loss/hinge_loss.cc    | 15 +++++++++++----
 src/sol/loss/logistic_loss.cc |  6 ++++++
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/sol/loss/bool_loss.cc b/src/sol/loss/bool_loss.cc
index bb11f82..d8bfb2f 100644
--- a/src/sol/loss/bool_loss.cc
+++ b/src/sol/loss/bool_loss.cc
@@ -41,10 +41,10 @@ float MaxScoreBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
   label_t label = dp.label();
   float loss = predict_label == label ? 0.f : 1.f;
 
+  for (int i = 0; i < cls_num; ++i) {
+    gradient[i] = 0;
+  }
   if (loss > 0) {
-    for (int i = 0; i < cls_num; ++i) {
-      gradient[i] = 0;
-    }
     gradient[predict_label] = 1;
     gradient[label] = -1;
   }
@@ -64,6 +64,9 @@ float UniformBoolLoss::gradient(const pario::DataPoint& dp, float* predict,
   label_t label = dp.label();
   float loss = predict_label == label ? 0.f : 1.f;
 
+  for (int i = 0; i < cls_num; ++i) {
+    gradient[i] = 0;
+  }
   if (loss > 0) {
     size_t false_num = std::count_if(
         predict, predict + cls_num,
diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..09de216 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -81,8 +81,8 @@ float MaxScoreHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   } else {
     loss = (std::max)(0.0f,
                       this->margin_ - predict[label] + predict[predict_label]);
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     if (loss > 0) {
-      for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
       gradient[predict_label] = 1;
       gradient[label] = -1;
     }
@@ -105,6 +105,7 @@ float UniformHingeLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) return 0;
   return (std::max)(0.0f,
                     this->margin_ - predict[label] + false_predict / false_num);
 }
@@ -124,8 +125,13 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
   false_num -= 1;
   false_predict -= predict[label];
 
-  float alpha = 1.f / false_num;
   float loss = 0;
+  if (false_num <= 0) {
+    // no class scores as high as the label
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return loss;
+  }
+  float alpha = 1.f / false_num;
   if (this->margin_handler_) {
     for (int i = 0; i < cls_num; ++i) {
       if (predict[label] <= predict[i]) {
@@ -137,7 +143,7 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
@@ -145,8 +151,9 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
       }
     }
   } else {
-    float loss = (std::max)(
+    loss = (std::max)(
         0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
         if (predict[label] <= predict[i]) {
diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..ab7882b 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -107,6 +107,7 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) return 0;
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -132,6 +133,11 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  if (false_num <= 0) {
+    // no class scores as high as the label
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From 85f9c1d7c9f40b49a5a6698f9a149fa81932efbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:53 +0000
Subject: [PATCH 21/46] fix: do not train on multiclass labels outside of the
 model's classes

---
 src/sol/model/online_model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index ddd82e3..6bcf82d 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -170,6 +170,12 @@ float OnlineModel::Train(DataIter& data_iter) {
     for (int i = 0; i < mb->size(); ++i) {
       DataPoint& x = (*mb)[i];
       this->PreProcess(x);
+      if (this->clf_num_ > 1 &&
+          (x.label() < 0 || x.label() >= this->class_num_)) {
+        fprintf(stderr, "skip an example whose label %d is not in [0, %d)\n",
+                int(x.label()), this->class_num_);
+        continue;
+      }
       // predict
       if (this->Iterate(x, predicts) != x.label()) ++this->cur_err_num_;
 
-- 
2.43.0


From 03ffa42cacebecbc452728faab2f1a9d05ba0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:29 +0000
Subject: [PATCH 22/46] fix: examples without non-zero features turned weights
 into NaN

---
 src/sol/model/model.cc    | 5 +++--
 src/sol/model/olm/cw.cc   | 1 +
 src/sol/model/olm/eccw.cc | 1 +
 src/sol/model/olm/pa.cc   | 4 +++-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 2e47906..9d4b2c9 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -330,11 +330,12 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        // examples without features cannot be normalized
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index 8aa6813..89a1076 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -87,6 +87,7 @@ void CW::BeginTrain() {
 
 void CW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
+  if (Vi_ <= 0) return;  // nothing to update in an example without features
   float Mi = phi_ * Vi_ - loss;
   float tmp = (1 + 2 * phi_ * Mi);
   float alpha_i =
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index fccc73a..14b29ec 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -88,6 +88,7 @@ void ECCW::BeginTrain() {
 
 void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
+  if (vi_ <= 0) return;  // nothing to update in an example without features
   float mi = phi_ * vi_ - loss;
   float tmp = mi * phi_ * phi_;
   float alpha_i =
diff --git a/src/sol/model/olm/pa.cc b/src/sol/model/olm/pa.cc
index 4df3a33..09220be 100644
--- a/src/sol/model/olm/pa.cc
+++ b/src/sol/model/olm/pa.cc
@@ -19,7 +19,9 @@ PA::PA(int class_num) : OnlineLinearModel(class_num) {
 }
 void PA::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  this->eta_ = loss / (this->eta_coeff_ * Norm2(x));
+  real_t norm2 = Norm2(x);
+  // no step can correct an example without features
+  this->eta_ = norm2 > 0 ? loss / (this->eta_coeff_ * norm2) : 0.f;
 
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
-- 
2.43.0


From 578718e976c6d52e3f5c026fa9cfce221869db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:33 +0000
Subject: [PATCH 23/46] fix: an unusable list of selected features must be
 refused and keep the old one

---
 src/sol/model/model.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 9d4b2c9..b38109c 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -354,9 +354,6 @@ void Model::FilterFeatures(DataPoint& x) {
 }
 
 int Model::LoadPreSelFeatures(const string& path) {
-  this->max_index_ = 0;
-  this->sel_feat_flags_.clear();
-
   ifstream in_file(path.c_str(), ios::in);
   if (!in_file) {
     cerr << "open file " << path << " failed\n!";
@@ -373,13 +370,24 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
-    if (index <= 0) {
+    int parsed = 0;
+    try {
+      parsed = stoi(line);
+    }
+    catch (std::exception&) {
+      parsed = 0;
+    }
+    if (parsed <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
+    index = (index_t)(parsed);
     indexes.push_back(index);
   }
+  if (indexes.empty()) {
+    cerr << "no features are selected in " << path << "\n";
+    return Status_Invalid_Format;
+  }
 
   // find the max index
   this->max_index_ = *(std::max_element)(indexes.begin(), indexes.end());
-- 
2.43.0


From b9dfc4ce6a65bff1aa6745fa310cab0683235e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:51 +0000
Subject: [PATCH 24/46] fix: error rates and sparsity of models without data
 were NaN

---
 src/sol/model/model.cc               | 2 +-
 src/sol/model/online_linear_model.cc | 1 +
 src/sol/model/online_model.cc        | 8 ++++++--
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index b38109c..c2eff51 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -152,7 +152,7 @@ float Model::Test(DataIter& data_iter, std::ostream* os) {
     }
   }
   delete[] predicts;
-  return float(double(err_num) / data_num);
+  return data_num == 0 ? 0.f : float(double(err_num) / data_num);
 }
 
 void Model::BeginTrain() {
diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index 7cb3a03..a3eeae1 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -146,6 +146,7 @@ float OnlineLinearModel::model_sparsity() {
                   },
                   1);  // ignore bias
   }
+  if (this->dim_ <= 1) return 1.f;  // no features seen yet
   return 1.f - float(non_zero_num / double(this->clf_num_ * (this->dim_ - 1)));
 }
 
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 6bcf82d..5fa9fa9 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -63,7 +63,8 @@ OnlineModel::OnlineModel(int class_num, const std::string& type)
       dim_(1),
       eta_(1.f),
       iter_displayer_(nullptr),
-      iter_callback_(nullptr) {
+      iter_callback_(nullptr),
+      iter_callback_user_context_(nullptr) {
   this->cur_data_num_ = 0;
   this->cur_err_num_ = 0;
   this->set_initial_t(0);
@@ -74,6 +75,7 @@ OnlineModel::OnlineModel(int class_num, const std::string& type)
   this->active_smoothness_ = 0;
   // cost sensitive learning
   this->cost_sensitive_learning_ = false;
+  this->cost_margin_ = 1.f;
 }
 
 OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
@@ -192,7 +194,9 @@ float OnlineModel::Train(DataIter& data_iter) {
     }
   }
 
-  float err_rate = float(this->cur_err_num_) / this->cur_data_num_;
+  float err_rate = this->cur_data_num_ == 0
+                       ? 0.f
+                       : float(this->cur_err_num_) / this->cur_data_num_;
   if (this->iter_displayer_ != nullptr) {
     if (this->iter_callback_ != nullptr) {
       this->iter_callback_(this->iter_callback_user_context_,
-- 
2.43.0


From 191d373ec0027555bd9b871dd550ff114ee8e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 25/46] fix: const matrix element access ignored the row

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 694ca43..704eedb 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0


From c961eb0dfde1b6d6fe535b8fe340fc9f6823febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 26/46] fix: rda-l1 never learned from its first example (0 /
 0)

---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index ff98b18..972b5b1 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -109,7 +109,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From 1ddc898bf132b34e81d7f0b68e71a904d5be211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:29 +0000
Subject: [PATCH 27/46] fix: ada-rda, adarda-ofs and sop ignored their bias
 while training

---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 src/sol/model/olm/sop.cc     | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 3f426d6..889f4bb 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -63,7 +63,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -256,7 +256,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 5e39e0c..69e6c39 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -58,6 +58,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // bias
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From e5b0be9e54da0829c708be4305ae4b6836c95840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 28/46] fix: active_smoothness below one and sparse_thresh were
 neither reported nor saved

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/online_model.cc   | 2 +-
 src/sol/model/regularizer.cc    | 5 +++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..0cc5ed3 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -58,6 +58,8 @@ class SOL_EXPORTS OnlineL1Regularizer : public OnlineRegularizer {
 
   virtual void FinalizeRegularization(math::Vector<real_t> &w);
 
+  virtual void GetRegularizerInfo(Json::Value &root) const;
+
  protected:
   real_t sparse_thresh_;
 };
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 5fa9fa9..9985353 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -223,7 +223,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 0243855..2865bb3 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -44,6 +44,11 @@ int OnlineL1Regularizer::SetParameter(const std::string &name,
   return Status_OK;
 }
 
+void OnlineL1Regularizer::GetRegularizerInfo(Json::Value &root) const {
+  OnlineRegularizer::GetRegularizerInfo(root);
+  root["regularizer"]["sparse_thresh"] = this->sparse_thresh_;
+}
+
 void OnlineL1Regularizer::FinalizeRegularization(math::Vector<real_t> &w) {
   float thresh = this->sparse_thresh_;
   w.slice_op([thresh](real_t &val) {
-- 
2.43.0


From 5d11b5972fc2b82560a5a4465c758f4d392e1517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 29/46] fix: save weights with enough digits to restore the
 same model

---
 src/sol/model/model.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index c2eff51..8078997 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <memory>
 #include <string>
 
@@ -175,6 +176,8 @@ int Model::Save(const string& path) const {
   writer.write(out_file, root);
 
   out_file << "model parameters:\n";
+  // enough digits to restore the same weights
+  out_file << setprecision(numeric_limits<real_t>::max_digits10);
   this->GetModelParam(out_file);
 
   out_file.close();
-- 
2.43.0


From c5d6b648381dd0b2638d42451307883ec99184d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:30 +0000
Subject: [PATCH 30/46] fix: second order feature selection read outside its
 heap on feature index 0

---
 src/sol/model/olm/ada_fobos.cc | 5 ++++-
 src/sol/model/olm/ada_rda.cc   | 5 ++++-
 src/sol/model/olm/arow.cc      | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 7476ac9..ee601dd 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -192,7 +192,8 @@ void AdaFOBOS_OFS::Update(const pario::DataPoint& dp, const float* predict,
       H[idx] -= delta_;
       H[idx] = sqrt(H[idx] * H[idx] + g(0) * g(0) * x.value(i) * x.value(i));
       H[idx] += delta_;
-      // update heap
+      // update heap, which does not contain the bias
+      if (idx == 0) continue;
       index_t pos = this->min_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->min_heap_.AdjustHeap(pos, B - 1);
@@ -215,6 +216,7 @@ void AdaFOBOS_OFS::Update(const pario::DataPoint& dp, const float* predict,
         H_sum[idx] += H_[c][idx];
       }
 
+      if (idx == 0) continue;
       index_t pos = this->min_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->min_heap_.AdjustHeap(pos, B - 1);
@@ -233,6 +235,7 @@ void AdaFOBOS_OFS::Update(const pario::DataPoint& dp, const float* predict,
   //truncate weights
   for (size_t i = 0; i < feat_num; ++i) {
     index_t idx = x.index(i);
+    if (idx == 0) continue;
     index_t ret_idx = this->min_heap_.UpdateHeap(idx - 1);
     if (ret_idx != invalid_index) {
       ++ret_idx;
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 889f4bb..ebc8b82 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -218,7 +218,8 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
       H[idx] -= delta_;
       H[idx] = sqrt(H[idx] * H[idx] + g(0) * g(0) * x.value(i) * x.value(i));
       H[idx] += delta_;
-      // update heap
+      // update heap, which does not contain the bias
+      if (idx == 0) continue;
       index_t pos = this->min_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->min_heap_.AdjustHeap(pos, B - 1);
@@ -241,6 +242,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
         H_sum[idx] += H_[c][idx];
       }
 
+      if (idx == 0) continue;
       index_t pos = this->min_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->min_heap_.AdjustHeap(pos, B - 1);
@@ -262,6 +264,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
   //truncate weights
   for (size_t i = 0; i < feat_num; ++i) {
     index_t idx = x.index(i);
+    if (idx == 0) continue;
     index_t ret_idx = this->min_heap_.UpdateHeap(idx - 1);
     if (ret_idx != invalid_index) {
       ++ret_idx;
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 3b95f49..9eeee74 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -194,7 +194,8 @@ void SOFS::Update(const pario::DataPoint& dp, const float* predict,
       index_t idx = x.index(i);
       // update sigma
       Sigma[idx] /= (1.f + Sigma[idx] * x.value(i) * x.value(i) * r1);
-      // update heap
+      // update heap, which does not contain the bias
+      if (idx == 0) continue;
       index_t pos = this->max_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->max_heap_.AdjustHeap(pos, B - 1);
@@ -218,6 +219,7 @@ void SOFS::Update(const pario::DataPoint& dp, const float* predict,
         sigma_sum[idx] += this->Sigmas_[c][idx];
       }
 
+      if (idx == 0) continue;
       index_t pos = this->max_heap_.get_pos(idx - 1);
       if (pos < B) {
         this->max_heap_.AdjustHeap(pos, B - 1);
@@ -227,6 +229,7 @@ void SOFS::Update(const pario::DataPoint& dp, const float* predict,
 
   for (size_t i = 0; i < feat_num; ++i) {
     index_t idx = x.index(i);
+    if (idx == 0) continue;
     index_t ret_idx = this->max_heap_.UpdateHeap(idx - 1);
     if (ret_idx != invalid_index) {
       ++ret_idx;
-- 
2.43.0


From 08b44675b9be3999895028a6f0477baacc6c2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:32 +0000
Subject: [PATCH 31/46] fix: changing the budget of a feature selection model
 after training started

---
 src/sol/model/olm/ada_fobos.cc | 2 ++
 src/sol/model/olm/ada_rda.cc   | 4 ++++
 src/sol/model/olm/arow.cc      | 2 ++
 src/sol/model/olm/fofs.cc      | 3 +++
 src/sol/model/olm/ogd.cc       | 2 ++
 5 files changed, 13 insertions(+)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index ee601dd..1a3d1b4 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -149,6 +149,8 @@ void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& valu
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
+  // the heap has to be rebuilt
+  if (name == "B" || name == "lambda" || name == "delta") this->require_reinit_ = true;
 }
 
 void AdaFOBOS_OFS::BeginTrain() {
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index ebc8b82..40c75ca 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -170,11 +170,15 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
+  bool rebuild = name == "B" || name == "lambda" || name == "delta";
+  // finish with the current heap before it changes
+  if (rebuild && this->model_updated_) this->EndTrain();
   if (name == "B") {
     AdaRDA::SetParameter("lambda", value);
   } else {
     AdaRDA::SetParameter(name, value);
   }
+  if (rebuild) this->require_reinit_ = true;
 }
 
 void AdaRDA_OFS::BeginTrain() {
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 9eeee74..5f5a932 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -134,6 +134,8 @@ void SOFS::SetParameter(const std::string& name, const std::string& value) {
   } else {
     AROW::SetParameter(name, value);
   }
+  // the heap has to be rebuilt
+  if (name == "B" || name == "lambda") this->require_reinit_ = true;
 }
 
 void SOFS::BeginTrain() {
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 0cc4d93..674c6b2 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -21,14 +21,17 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     float eta = stof(value);
     Check(eta >= 0);
     this->eta_ = eta;
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     float lambda = stof(value);
     Check(lambda >= 0);
     this->lambda_ = lambda;
+    this->require_reinit_ = true;
   } else if (name == "B") {
     int B = stoi(value);
     Check(B >= 0);
     this->B_ = static_cast<index_t>(B);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 98b4f54..0d2a064 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -181,6 +181,8 @@ void PET::SetParameter(const std::string& name, const std::string& value) {
   } else {
     OGD::SetParameter(name, value);
   }
+  // the heap has to be rebuilt
+  if (name == "B" || name == "lambda") this->require_reinit_ = true;
 }
 
 void PET::BeginTrain() {
-- 
2.43.0


From 1c6971fc2f8e9ac753bc7454e8c24a2593b503d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:35 +0000
Subject: [PATCH 32/46] fix: feature selection ranked stale values and forgot
 its selection when training continued

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++++++
 src/sol/model/olm/ada_rda.cc   | 10 ++++++++++
 src/sol/model/olm/arow.cc      | 10 ++++++++++
 src/sol/model/olm/fofs.cc      |  6 +++---
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 1a3d1b4..1bf092b 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -170,6 +170,16 @@ void AdaFOBOS_OFS::BeginTrain() {
       }
     }
     this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    // select among all the features, for models that have been trained before
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 40c75ca..bcd20be 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -198,6 +198,16 @@ void AdaRDA_OFS::BeginTrain() {
       }
     }
     this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    // select among all the features, for models that have been trained before
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->min_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 5f5a932..a775741 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -155,6 +155,16 @@ void SOFS::BeginTrain() {
       }
     }
     this->max_heap_.Init(this->dim_ - 1, B, this->Sigma_sum_->data() + 1);
+    // select among all the features, for models that have been trained before
+    for (index_t i = 1; i < this->dim_; ++i) {
+      index_t ret_idx = this->max_heap_.UpdateHeap(i - 1);
+      if (ret_idx != invalid_index) {
+        ++ret_idx;
+        for (int c = 0; c < this->clf_num_; ++c) {
+          w(c)[ret_idx] = 0;
+        }
+      }
+    }
   }
 }
 
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 674c6b2..3e5bc15 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -78,10 +78,10 @@ void FOFS::Update(const pario::DataPoint& dp, const float* predict,
 
   if (this->B_ > 0) {
     math::Vector<real_t>& abs_w = this->abs_weights_;
-    // update abosulte weights
-    abs_w = L1(w(0).slice(dp.data()));
+    // update abosulte weights, all of them may have been scaled
+    abs_w = L1(w(0));
     for (int c = 1; c < this->clf_num_; ++c) {
-      abs_w += L1(w(c).slice(dp.data()));
+      abs_w += L1(w(c));
     }
 
     // update heap
-- 
2.43.0


From f7c3c36f9de35e04a56e5fe6d025d5c333ed2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:07 +0000
Subject: [PATCH 33/46] fix: l1 learners shrank weights twice, by the bias'
 rate or only in the first class

---
 include/sol/model/olm/ogd.h     |  1 -
 include/sol/model/regularizer.h |  3 ++
 src/sol/model/olm/ada_fobos.cc  | 15 +++++++--
 src/sol/model/olm/ogd.cc        | 60 +++++++++++++++++++++------------
 src/sol/model/regularizer.cc    |  9 +++--
 5 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/include/sol/model/olm/ogd.h b/include/sol/model/olm/ogd.h
index e300bcd..98dd877 100644
--- a/include/sol/model/olm/ogd.h
+++ b/include/sol/model/olm/ogd.h
@@ -44,7 +44,6 @@ class STG : public OGD {
   STG(int class_num);
 
   virtual void SetParameter(const std::string& name, const std::string& value);
-  virtual void BeginTrain();
   virtual void EndTrain();
 
  protected:
diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index 0cc5ed3..5c5530b 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -78,6 +78,9 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
     return this->last_update_time_;
   };
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
+  /// \brief  grow to the dimension of the weights
+  void update_dim(index_t dim);
 
  protected:
   real_t initial_t_;
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 1bf092b..d79059f 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -103,26 +103,37 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   real_t t = real_t(cur_iter_num_ - 1);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) =
         expr::truncate(w(c).slice(x), (eta_ * l1_.lambda()) *
                                           (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(bias, bias_eta() * l1_.lambda() *
+                                       (t - l1_.last_update_time()[0]) /
+                                       H_[c][0]);
   }
+  // truncated up to now, even if the example is not learned from
+  l1_.EndIterate(dp, cur_iter_num_);
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] = expr::truncate(bias, bias_eta() * l1_.lambda() *
+                                       (t - l1_.last_update_time()[0]) /
+                                       H_[c][0]);
   }
+  // all the weights are truncated up to now
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 0d2a064..a22300f 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -72,7 +72,11 @@ void OGD::set_power_t(float power_t) {
 
 RegisterModel(OGD, "ogd", "Online Gradient Descent");
 
-STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
+STG::STG(int class_num) : OGD(class_num), k_(1) {
+  this->regularizer_ = &l1_;
+  this->last_trunc_time_.resize(this->dim_);
+  this->last_trunc_time_ = real_t(this->initial_t_);
+}
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
@@ -81,44 +85,47 @@ void STG::SetParameter(const std::string& name, const std::string& value) {
     this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
+    if (name == "t") this->last_trunc_time_ = real_t(this->initial_t_);
   }
 }
 
-void STG::BeginTrain() {
-  OGD::BeginTrain();
-  this->last_trunc_time_.resize(this->dim_);
-  this->last_trunc_time_ = real_t(this->initial_t_);
-}
-
 label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // trucate weights
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (idx == 0 || step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
   }
+  // truncate bias
+  float bias_step = t - last_trunc_time_[0];
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], bias_step * l1_.lambda() * bias_eta());
+  }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
 void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    // truncate bias
+    real_t bias = truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                        (t - last_trunc_time_[0]));
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
+    w(c)[0] = bias;
   }
+  // all the weights are truncated up to now
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
@@ -147,24 +154,33 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   real_t t = real_t(cur_iter_num_ - 1);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c).slice(x),
                     (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(bias, bias_eta() * l1_.lambda() *
+                                 (t - l1_.last_update_time()[0]));
   }
+  // truncated up to now, even if the example is not learned from
+  l1_.EndIterate(dp, cur_iter_num_);
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  l1_.update_dim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(bias, bias_eta() * l1_.lambda() *
+                                 (t - l1_.last_update_time()[0]));
   }
+  // all the weights are truncated up to now
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 2865bb3..fc24364 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -73,10 +73,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(index_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From 939e3c1f4e5528497ebad89b7d8035adca12d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:14 +0000
Subject: [PATCH 34/46] fix: cost sensitive learning with a loss that cannot
 honour it was accepted and made training do nothing

---
 include/sol/model/online_model.h |  3 +++
 src/sol/model/online_model.cc    | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/sol/model/online_model.h b/include/sol/model/online_model.h
index 84efdec..a826391 100644
--- a/include/sol/model/online_model.h
+++ b/include/sol/model/online_model.h
@@ -29,6 +29,9 @@ class OnlineModel : public Model {
   /// \param value value of the parameter in string
   virtual void SetParameter(const std::string& name, const std::string& value);
 
+ protected:
+  virtual void CheckLoss(const loss::Loss& loss) const;
+
  public:
   virtual void BeginTrain();
 
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 9985353..c2c77fd 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -107,6 +107,11 @@ void OnlineModel::SetParameter(const std::string& name,
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
+    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
+      throw invalid_argument(
+          "only hinge-based loss functions are allowed in cost sensitive "
+          "learning");
+    }
     float cost_margin = stof(value);
     Check(cost_margin > 0);
     this->cost_margin_ = cost_margin;
@@ -127,6 +132,16 @@ void OnlineModel::SetParameter(const std::string& name,
   }
 }
 
+void OnlineModel::CheckLoss(const loss::Loss& loss) const {
+  Model::CheckLoss(loss);
+  if (this->cost_sensitive_learning_ &&
+      (loss.type() & loss::Loss::Type::HINGE) == 0) {
+    throw invalid_argument(
+        "only hinge-based loss functions are allowed in cost sensitive "
+        "learning");
+  }
+}
+
 void OnlineModel::BeginTrain() {
   if (this->cost_sensitive_learning_) {
     if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0 ||
-- 
2.43.0


From f29d7714ca70c726a06bd7c0d9d11cb939201d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:14 +0000
Subject: [PATCH 35/46] fix: sol_train and lsol_c ignored the option --dim

---
 tools/lsol_c.cc    |  4 ++++
 tools/sol_train.cc | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 84c2dfe..11be88b 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -62,6 +62,10 @@ int train(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
+  if (ret == Status_OK && parser.exist("dim")) {
+    ret = sol_SetModelParameter(model, "dim", parser.get<string>("dim").c_str());
+  }
+
   if (ret == Status_OK) {
     const string& model_params = parser.get<string>("params");
     if (model_params.length() > 0) {
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 168b3e3..2a26edf 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -60,6 +60,16 @@ int train(cmdline::parser& parser) {
   }
   if (model == nullptr) return Status_Invalid_Argument;
 
+  if (parser.exist("dim")) {
+    try {
+      model->SetParameter("dim", parser.get<string>("dim"));
+    }
+    catch (std::exception& err) {
+      fprintf(stderr, "invalid dim: %s\n", err.what());
+      return Status_Invalid_Argument;
+    }
+  }
+
   const string& model_params = parser.get<string>("params");
   if (model_params.length() > 0) {
     for (const string& opt : split(model_params, ';')) {
-- 
2.43.0


From ca0f5a96191c905778b2bd97b9a8a9f98be871c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:49 +0000
Subject: [PATCH 36/46] fix: a refused budget or delta must not finalise an
 adarda-ofs model

---
 src/sol/model/olm/ada_rda.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index bcd20be..1681449 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -171,8 +171,13 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
   bool rebuild = name == "B" || name == "lambda" || name == "delta";
-  // finish with the current heap before it changes
-  if (rebuild && this->model_updated_) this->EndTrain();
+  if (rebuild && this->model_updated_) {
+    // a refused value must not change anything
+    float val = stof(value);
+    Check(name == "delta" ? val > 0 : val >= 0);
+    // finish with the current heap before it changes
+    this->EndTrain();
+  }
   if (name == "B") {
     AdaRDA::SetParameter("lambda", value);
   } else {
-- 
2.43.0


From 6f0290649a97a9911e4a4b879321b31957d4d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:45 +0000
Subject: [PATCH 37/46] fix: the step counter overflowed when training went on
 from the largest step number

---
 src/sol/model/online_model.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index c2c77fd..a4fbd39 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 using namespace std;
 using namespace sol::pario;
@@ -227,7 +228,10 @@ float OnlineModel::Train(DataIter& data_iter) {
 
 label_t OnlineModel::Iterate(const pario::DataPoint& x, float* predict) {
   this->update_dim(x.dim());
-  ++this->cur_iter_num_;
+  // the step counter stays at its maximum instead of overflowing
+  if (this->cur_iter_num_ < (std::numeric_limits<int>::max)()) {
+    ++this->cur_iter_num_;
+  }
   ++this->cur_data_num_;
   return 0;
 }
-- 
2.43.0


From b0cf9f1934f3dee66b2c4f0ac65061303568fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:02 +0000
Subject: [PATCH 38/46] fix: alma2 accepted norms p below 2, for which its
 steps are undefined, and its step counter could overflow

---
 src/sol/model/olm/alma2.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 0772657..76df4c6 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -7,6 +7,7 @@
 
 #include "sol/model/olm/alma2.h"
 #include <cmath>
+#include <limits>
 
 using namespace std;
 using namespace sol::math::expr;
@@ -34,7 +35,9 @@ ALMA2::ALMA2(int class_num)
 
 void ALMA2::SetParameter(const std::string& name, const std::string& value) {
   if (name == "p") {
-    this->p_ = stoi(value);
+    int p = stoi(value);
+    Check(p > 1);
+    this->p_ = p;
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
@@ -91,7 +94,7 @@ void ALMA2::Update(const pario::DataPoint& dp, const float*, float) {
     real_t w_norm = sqrt(Norm2(w(c)));
     if (w_norm > 1) w(c) /= w_norm;
   }
-  ++k_;
+  if (k_ < (std::numeric_limits<int>::max)()) ++k_;
   float margin = (1.f - alpha_) * B_ * square_p1_ / sqrtf(float(k_));
   this->hinge_base_->set_margin(margin);
 }
-- 
2.43.0


From 76ea777242a8be63b36db66639c0ec2b8f6347e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:48 +0000
Subject: [PATCH 39/46] fix: input that can be opened but not read, such as a
 directory, was treated as empty data

---
 src/sol/pario/file_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 15f08cf..2178cec 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -49,6 +49,11 @@ int FileReader::Open(const char* path, const char* mode) {
     path = "stdin";
   } else {
     this->file_ = open_file(path, mode);
+    // a directory, for example, can be opened but not be read from
+    if (this->file_ != nullptr) {
+      int ch = fgetc(this->file_);
+      if (ch != EOF) ungetc(ch, this->file_);
+    }
   }
 
   if (this->file_ == nullptr || this->Good() == false) {
-- 
2.43.0


From 9da6fea8d27f39bdc5143aa3aa35f10c256f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:17 +0000
Subject: [PATCH 40/46] fix: split lost examples of datasets with more than
 2^24 of them

---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 1ccfd6a..e6d3a9d 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -275,7 +275,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
     std::shuffle(data_list.begin(), data_list.end(), g);
   }
 
-  size_t data_split_num = size_t(ceil(data_list.size() / float(fold_num)));
+  size_t data_split_num = (data_list.size() + fold_num - 1) / fold_num;
   size_t data_idx = 0;
   size_t end_idx = data_split_num;
 
-- 
2.43.0


From 84414b068564640d8c0bcd155bef63044c0c89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:56 +0000
Subject: [PATCH 41/46] fix: cw and eccw could leave the bias out of the margin
 after a parameter change

The margin is set up at the start of a training call and looked at the
current bias step (bias_eta times the last step size) instead of bias_eta:
when the last step size was zero the bias' variance was left out for the
rest of the training.
---
 src/sol/model/olm/cw.cc   | 2 +-
 src/sol/model/olm/eccw.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index 89a1076..34a1971 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -66,7 +66,7 @@ void CW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
   float* vt = &this->Vi_;
-  float bias_eta = this->bias_eta();
+  float bias_eta = this->bias_eta0_;
   float phi = this->phi_;
 
   this->hinge_base_->set_margin([sigmas, vt, bias_eta, phi](
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 14b29ec..351142d 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -67,7 +67,7 @@ void ECCW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
   float* vt = &this->vi_;
-  float bias_eta = this->bias_eta();
+  float bias_eta = this->bias_eta0_;
   float phi = this->phi_;
 
   this->hinge_base_->set_margin([sigmas, vt, bias_eta, phi](
-- 
2.43.0


From 3d672f4e3757605e1c994ab8966103e2e787deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:02 +0000
Subject: [PATCH 42/46] fix: numpy reader overflows the row offset in arrays of
 more than 2 GB

---
 src/sol/pario/numpy_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index a10cbdf..ec9a3d4 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -82,7 +82,9 @@ int NumpyReader::Next(DataPoint& dst_data) {
   }
 
   // 2. parse features
-  double* ptr = (double*)((char*)this->X_ + this->x_idx_ * this->stride_);
+  // the array may be bigger than what an int can address
+  double* ptr = (double*)((char*)this->X_ +
+                          (long long)(this->x_idx_) * this->stride_);
   for (int j = 0; j < this->n_features_; ++j, ++ptr) {
     if (*ptr != 0) {
       dst_data.AddNewFeat(j + 1, static_cast<real_t>(*ptr));
-- 
2.43.0


From e4546ec270fa292c6c5757d48bd5be1bc881ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:32 +0000
Subject: [PATCH 43/46] fix: restoring models in several threads raced on the
 json reader's global nesting depth

---
 external/json/jsoncpp.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/external/json/jsoncpp.cpp b/external/json/jsoncpp.cpp
index 5006623..34ae824 100644
--- a/external/json/jsoncpp.cpp
+++ b/external/json/jsoncpp.cpp
@@ -222,8 +222,7 @@ static inline void fixNumericLocale(char* begin, char* end) {
 #pragma warning(disable : 4996)
 #endif
 
-static int const stackLimit_g = 1000;
-static int stackDepth_g = 0;  // see readValue()
+static size_t const stackLimit_g = 1000;  // see readValue()
 
 namespace Json {
 
@@ -329,7 +328,6 @@ bool Reader::parse(const char* beginDoc, const char* endDoc, Value& root,
   while (!nodes_.empty()) nodes_.pop();
   nodes_.push(&root);
 
-  stackDepth_g = 0;  // Yes, this is bad coding, but options are limited.
   bool successful = readValue();
   Token token;
   skipCommentTokens(token);
@@ -352,13 +350,10 @@ bool Reader::parse(const char* beginDoc, const char* endDoc, Value& root,
 }
 
 bool Reader::readValue() {
-  // This is a non-reentrant way to support a stackLimit. Terrible!
-  // But this deprecated class has a security problem: Bad input can
-  // cause a seg-fault. This seems like a fair, binary-compatible way
-  // to prevent the problem.
-  if (stackDepth_g >= stackLimit_g)
+  // Bad input can cause a seg-fault by exhausting the stack: limit the depth
+  // of nesting, which is the number of nodes being read.
+  if (nodes_.size() > stackLimit_g)
     throwRuntimeError("Exceeded stackLimit in readValue().");
-  ++stackDepth_g;
 
   Token token;
   skipCommentTokens(token);
@@ -426,7 +421,6 @@ bool Reader::readValue() {
     lastValue_ = &currentValue();
   }
 
-  --stackDepth_g;
   return successful;
 }
 
-- 
2.43.0


From b1e63a9d81c04e83e842e87c5d7f6136d475346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:32 +0000
Subject: [PATCH 44/46] fix: models trained in different threads shared one
 unsynchronised random generator for active learning

---
 src/sol/model/online_linear_model.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index a3eeae1..20cb386 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -55,9 +55,8 @@ label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
   label_t label = this->TrainPredict(dp, predicts);
   // active learning
   if (this->active_smoothness_ > 0) {
-    static random_device rd;
-    static mt19937 gen(rd());
-    static uniform_real_distribution<float> dis(0, 1);
+    static thread_local mt19937 gen((random_device())());
+    uniform_real_distribution<float> dis(0, 1);
     float margin = 0;
     if (this->clf_num_ == 1) {
       margin = abs(*predicts);
-- 
2.43.0


From 207aa31dca69529bb5297e1791be1d8b6509e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:50 +0000
Subject: [PATCH 45/46] fix: a feature list that cannot be read to its end is
 taken for the whole list

---
 src/sol/model/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 8078997..bf50769 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -387,6 +387,10 @@ int Model::LoadPreSelFeatures(const string& path) {
     index = (index_t)(parsed);
     indexes.push_back(index);
   }
+  if (in_file.bad()) {
+    cerr << "read file " << path << " failed!\n";
+    return Status_IO_Error;
+  }
   if (indexes.empty()) {
     cerr << "no features are selected in " << path << "\n";
     return Status_Invalid_Format;
-- 
2.43.0


From e7cba4c2b4a41c04a00fc8d79a2d7a4cbad59bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:46 +0000
Subject: [PATCH 46/46] fix: dataset tools report success when their input
 could only be read in part

---
 include/sol/pario/data_iter.h      |  8 ++++++++
 include/sol/pario/data_read_task.h |  3 +++
 src/sol/pario/data_iter.cc         |  4 ++++
 src/sol/pario/data_read_task.cc    |  4 +++-
 src/sol/tools.cc                   | 25 ++++++++++++++++++++++++-
 tools/concat.cc                    |  4 ++++
 6 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index c95c423..421b7cb 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -48,6 +48,12 @@ class SOL_EXPORTS DataIter {
   /// \return
   virtual MiniBatch* Next(MiniBatch* prev_batch = nullptr);
 
+  /// \brief  whether the data delivered so far was read without errors
+  ///
+  /// \return Status_OK, or the status of the first reader that did not reach
+  /// the end of its data
+  inline int status() const { return this->status_; }
+
  protected:
   // mini-batch size
   int batch_size_;
@@ -61,6 +67,8 @@ class SOL_EXPORTS DataIter {
   std::vector<std::shared_ptr<DataReadTask>> readers_;
   // index of running reader
   int running_reader_idx_;
+  // status of the readers that have ended
+  int status_;
 };  // class DataIter
 }  // namespace pario
 }  // namespace sol
diff --git a/include/sol/pario/data_read_task.h b/include/sol/pario/data_read_task.h
index 7604cf8..21c9ce2 100755
--- a/include/sol/pario/data_read_task.h
+++ b/include/sol/pario/data_read_task.h
@@ -33,6 +33,8 @@ class DataReadTask : public ThreadTask {
 
  public:
   inline bool Good() { return this->reader_ != nullptr; }
+  /// \brief  how reading ended, to be called when the task sent its end signal
+  inline int status() const { return this->status_; }
 
  protected:
   virtual void run();
@@ -42,6 +44,7 @@ class DataReadTask : public ThreadTask {
   BlockQueue<MiniBatch*>& mini_batch_factory_;
   BlockQueue<MiniBatch*>& mini_batch_buf_;
   int pass_num_;
+  int status_;
 };
 
 }  // namespace pario
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index bc279e0..92daf9d 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -27,6 +27,7 @@ DataIter::DataIter(int batch_size, int batch_num)
   // signal to start next reader
   this->mini_batch_buf_.Enqueue(nullptr);
   this->running_reader_idx_ = -1;
+  this->status_ = Status_OK;
 }
 
 DataIter::~DataIter() {
@@ -79,6 +80,9 @@ MiniBatch* DataIter::Next(MiniBatch* prev_batch) {
   do {
     el = this->mini_batch_buf_.Dequeue();
     if (el == nullptr) {
+      if (this->status_ == Status_OK && this->running_reader_idx_ >= 0) {
+        this->status_ = this->readers_[this->running_reader_idx_]->status();
+      }
       if (this->running_reader_idx_ + 1 <
           static_cast<int>(this->readers_.size())) {
         ++this->running_reader_idx_;
diff --git a/src/sol/pario/data_read_task.cc b/src/sol/pario/data_read_task.cc
index bdd2a1b..bd29e94 100644
--- a/src/sol/pario/data_read_task.cc
+++ b/src/sol/pario/data_read_task.cc
@@ -16,7 +16,8 @@ DataReadTask::DataReadTask(const std::string& path, const std::string& dtype,
                            BlockQueue<MiniBatch*>& mini_batch_buf, int pass_num)
     : mini_batch_factory_(mini_batch_factory),
       mini_batch_buf_(mini_batch_buf),
-      pass_num_(pass_num) {
+      pass_num_(pass_num),
+      status_(Status_OK) {
   DataReader* reader = DataReader::Create(dtype);
   if (reader != nullptr) {
     if (reader->Open(path) != Status_OK) {
@@ -54,6 +55,7 @@ void DataReadTask::run() {
     this->mini_batch_buf_.Enqueue(mini_batch);
   }
   reader->Close();
+  this->status_ = status;
   this->mini_batch_buf_.Enqueue(nullptr);
 }
 
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index e6d3a9d..7f55720 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -19,6 +19,14 @@ using namespace sol::pario;
 using namespace std;
 
 namespace sol {
+// whether all of the source was read
+static int iter_status(const DataIter& iter, const string& src_path) {
+  if (iter.status() != Status_OK) {
+    cerr << "Read data from " << src_path << " failed\n";
+  }
+  return iter.status();
+}
+
 int analyze(const string& src_path, const string& src_type,
             const string& output_path) {
   DataIter data_iter;
@@ -73,6 +81,7 @@ int analyze(const string& src_path, const string& src_type,
       print_thresh += 10000;
     }
   }
+  if ((ret = iter_status(data_iter, src_path)) != Status_OK) return ret;
   cout << data_num << " examples analyzed\n";
 
   size_t valid_dim = 0;
@@ -136,7 +145,9 @@ int convert(const string& src_path, const string& src_type,
       }
     }
     ret = writer->SetExtraInfo((char*)(&feat_dim));
-    if (feat_dim == 0) {
+    if (iter_status(iter, src_path) != Status_OK) {
+      ret = iter.status();
+    } else if (feat_dim == 0) {
       cerr << "figuring out feature dimension failed\n";
       ret = Status_Invalid_Format;
     }
@@ -171,6 +182,7 @@ int convert(const string& src_path, const string& src_type,
   }
   int close_ret = writer->Close();
   if (ret == Status_OK) ret = close_ret;
+  if (ret == Status_OK) ret = iter_status(iter, src_path);
   if (ret == Status_OK) {
     cout << data_num << " examples converted\n";
   } else {
@@ -218,6 +230,12 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     data_num += mb->size();
   }
 
+  ret = iter_status(iter, src_path);
+  if (ret != Status_OK) {
+    for (auto& data : data_list) delete data;
+    delete writer;
+    return ret;
+  }
   cout << data_num << " examples loaded\n";
   random_device rd;
   mt19937 g(rd());
@@ -266,6 +284,11 @@ int split(const string& src_path, const string& src_type, int fold_num,
     data_num += mb->size();
   }
 
+  ret = iter_status(iter, src_path);
+  if (ret != Status_OK) {
+    for (auto& data : data_list) delete data;
+    return ret;
+  }
   cout << data_num << " examples loaded\n";
   if (data_num == 0) return ret;
 
diff --git a/tools/concat.cc b/tools/concat.cc
index 46fdb78..b518ee7 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -109,6 +109,10 @@ int main(int argc, char** argv) {
   int close_ret = writer->Close();
   if (ret == Status_OK) ret = close_ret;
   delete writer;
+  if (ret == Status_OK && iter.status() != Status_OK) {
+    cerr << "Read data from " << src_path << " failed\n";
+    return iter.status();
+  }
   if (ret == Status_OK) {
     cout << data_num << " examples concatenated to " << dst_path << "\n";
   } else {
-- 
2.43.0

