From 732911e09581356c664aa25350f5e25c7acd0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 01/15] fix: keep bit_vector_builder usable after reserve()
 moves its words

reserve() on a non-empty builder reallocates the words, leaving the pointer to
the current word dangling: the next push_back/append_bits wrote to freed memory
and the bits were lost.
---
 bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..7af1302 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,10 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (m_bits.size()) {
+                // the words may have been moved
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From 5ee5b9dea561feece4d0c5cfadd7b436e3e02ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:35 +0000
Subject: [PATCH 02/15] fix: drop consumed bits in
 bit_vector::enumerator::take(64)

take(64) left the consumed word in the look-ahead buffer, so a following
skip_zeros() scanned those bits again and returned a wrong count and position.
---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 7af1302..0171ed5 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -387,6 +387,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From a36ccf5686f0f50174182573e576b905c5f79472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 03/15] fix: compute gamma and compressed-list codes in 64 bits

The +1/+2 offset was added in the element type of the source range, so with
uint32_t elements the largest values wrapped to 0 or 1 and were stored wrongly
(or tripped an assertion).
---
 elias_fano_compressed_list.hpp | 4 ++--
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..12af4d3 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -20,7 +20,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                s += broadword::msb(*iter + 1);
+                s += broadword::msb(uint64_t(*iter) + 1);
                 n += 1;
             }
 
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                size_t val = *iter + 1;
+                size_t val = uint64_t(*iter) + 1;
                 size_t l = broadword::msb(val);
                 bits_builder.append_bits(val ^ (uint64_t(1) << l), l);
                 ef_builder.push_back(bits_builder.size());
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..037beff 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(vals);
                  iter != boost::end(vals);
                  ++iter) {
-                const uint64_t val = *iter + 2; // increment the second bit
+                const uint64_t val = uint64_t(*iter) + 2; // increment the second bit
 
                 uint8_t l = broadword::msb(val);
 
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..8a460f1 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -26,7 +26,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                const value_type val = *iter + 1;
+                const value_type val = value_type(*iter) + 1;
 
                 uint8_t l = broadword::msb(val);
 
-- 
2.43.0


From a0d63344c7200cfadc00d48e0998123c346ca686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 04/15] fix: do not allocate the whole universe for an empty
 elias_fano

With no values the low-bit width was 0, so the high bits took universe + 2
bits: a huge allocation for a large universe, and a size that wraps around to
a tiny vector (out-of-bounds queries) for universes near 2^64.
---
 elias_fano.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..c1a3382 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -17,7 +17,7 @@ namespace succinct {
                 , m_m(m)
                 , m_pos(0)
                 , m_last(0)
-                , m_l(uint8_t((m && n / m) ? broadword::msb(n / m) : 0))
+                , m_l(low_bits_width(m ? n / m : n))
                 , m_high_bits((m + 1) + (n >> m_l) + 1)
             {
                 assert(m_l < 64); // for the correctness of low_mask
@@ -39,6 +39,11 @@ namespace succinct {
 
             friend class elias_fano;
         private:
+            static uint8_t low_bits_width(uint64_t avg_gap)
+            {
+                return uint8_t(avg_gap ? broadword::msb(avg_gap) : 0);
+            }
+
             uint64_t m_n;
             uint64_t m_m;
             uint64_t m_pos;
-- 
2.43.0


From c5d38fe387b954826ea5e9ec3765f965557ed046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 05/15] fix: keep bp_vector's min-tree sentinel above every
 excess beyond 2^31 bits

The sentinel was excess_t(size()), which is negative from 2^31 bits on, so
building a longer bp_vector tripped the assertion in build_min_tree, and
without assertions every superblock minimum became negative and
find_close/find_open/excess_rmq went wrong. Use the largest excess_t.
---
 bp_vector.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..36f304a 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -305,7 +305,7 @@ namespace succinct {
     }
 
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != std::numeric_limits<excess_t>::max());
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -489,7 +489,8 @@ namespace succinct {
             cur_node = node_min_idx;
             while (cur_node < m_internal_nodes) {
                 cur_node *= 2;
-                // remember that past-the-end nodes are filled with size()
+                // remember that past-the-end nodes are filled with the
+                // maximum excess_t
                 if (m_superblock_excess_min[cur_node + 1] <
                     m_superblock_excess_min[cur_node]) {
                     cur_node += 1;
@@ -677,7 +678,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = std::numeric_limits<excess_t>::max();
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +686,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && cur_super_min < std::numeric_limits<excess_t>::max());
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +694,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = std::numeric_limits<excess_t>::max();
         }
 
         // Fill bottom-up the other layers: each node updates the parent
-- 
2.43.0


From cfeb9cc911610b806e75d2fcb55e8ae930a5c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 06/15] fix: do not repeat the last chunk of a line without
 newline in fast_getline

When the input ends without a newline, fgets fails and leaves the previous
chunk in the buffer, which was then appended to the line once more.
---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..2dadfb0 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break; // the last line has no newline
                 }
             }
             line += buffer;
-- 
2.43.0


From 1dd3a7ffabe1e21e5db155d57b6ee39c153c751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 07/15] fix: make line_iterator start on the first line

The iterator was dereferenceable before anything had been read, so every
iteration over lines() began with a spurious empty line (and yielded one
even for an empty file).
---
 util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index 2dadfb0..b09b3e2 100644
--- a/util.hpp
+++ b/util.hpp
@@ -62,7 +62,9 @@ namespace succinct { namespace util {
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            increment();
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 51deee99b571b051de5d796f7c394fa2fa6bf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 08/15] fix: make int2nat/nat2int exact on the whole 64-bit
 range

nat2int(2^64 - 1) wrapped to 0 instead of -2^63, and int2nat overflowed a
signed multiplication for |x| >= 2^62.
---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index b09b3e2..071919e 100644
--- a/util.hpp
+++ b/util.hpp
@@ -249,16 +249,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return 2 * uint64_t(-(x + 1)) + 1;
         } else {
-            return uint64_t(2 * x);
+            return 2 * uint64_t(x);
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From cae0cf0ef0cbaadde9fd2adac7e943884d55f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:30 +0000
Subject: [PATCH 09/15] fix: correct broadword::uleq_step_8 for bytes whose top
 bits differ

The difference must be or-ed, not xor-ed, with x ^ y (as in uleq_step_9):
uleq_step_8 gave the wrong answer for, e.g., the byte pairs (0x00, 0x80)
and (0x80, 0x00).
---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From e83aafdf56d6ab538f2895df9c307c5b39bfc1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 10/15] fix: initialise every frozen member of empty structures

bp_vector left m_internal_nodes unset when empty and elias_fano() left m_l
unset, so freezing such a structure wrote indeterminate bytes, and swapping
or mapping carried them around.
---
 bp_vector.hpp  | 2 ++
 elias_fano.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
diff --git a/elias_fano.hpp b/elias_fano.hpp
index c1a3382..650acc7 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From 2dd67f97242332474e9ee45d7276677c021b595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:13 +0000
Subject: [PATCH 11/15] fix: make default-constructed structures empty

gamma_vector, gamma_bit_vector, elias_fano_compressed_list and
cartesian_tree reported a size of 2^64 - 1 (and elias_fano_list such a sum)
when default-constructed or disposed, and rs_bit_vector::num_ones()
dereferenced a null pointer.
---
 cartesian_tree.hpp             | 3 ++-
 elias_fano_compressed_list.hpp | 3 ++-
 elias_fano_list.hpp            | 2 +-
 gamma_bit_vector.hpp           | 3 ++-
 gamma_vector.hpp               | 3 ++-
 rs_bit_vector.hpp              | 1 +
 6 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cartesian_tree.hpp b/cartesian_tree.hpp
index 8d62142..93ad21b 100644
--- a/cartesian_tree.hpp
+++ b/cartesian_tree.hpp
@@ -143,7 +143,8 @@ namespace succinct {
 
         uint64_t size() const
         {
-            return m_bp.size() / 2 - 1;
+            // a default-constructed tree has no super-root
+            return m_bp.size() ? m_bp.size() / 2 - 1 : 0;
         }
 
         template <typename Visitor>
diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 12af4d3..9ca649b 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -49,7 +49,8 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_ef.num_ones() - 1;
+            // a default-constructed list has no endpoints at all
+            return m_ef.num_ones() ? m_ef.num_ones() - 1 : 0;
         }
 
         void swap(elias_fano_compressed_list& other)
diff --git a/elias_fano_list.hpp b/elias_fano_list.hpp
index e8191c8..cd7a110 100644
--- a/elias_fano_list.hpp
+++ b/elias_fano_list.hpp
@@ -46,7 +46,7 @@ namespace succinct {
         }
 
         size_t sum() const {
-            return m_ef.size() - 1;
+            return m_ef.size() ? m_ef.size() - 1 : 0;
         }
 
         void swap(elias_fano_list& other)
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 037beff..5051f2b 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -53,7 +53,8 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            // a default-constructed vector has not even the first one
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_bit_vector& other)
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 8a460f1..acf8d0c 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -47,7 +47,8 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            // a default-constructed vector has not even the first one
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_vector& other)
diff --git a/rs_bit_vector.hpp b/rs_bit_vector.hpp
index 1197ffb..340de8e 100644
--- a/rs_bit_vector.hpp
+++ b/rs_bit_vector.hpp
@@ -41,6 +41,7 @@ namespace succinct {
         }
 
         inline uint64_t num_ones() const {
+            if (!m_block_rank_pairs.size()) return 0; // default-constructed
             return *(m_block_rank_pairs.end() - 2);
         }
 
-- 
2.43.0


From 3fb18ace3c92bd4e2063ad69de66e7a077566bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:40 +0000
Subject: [PATCH 12/15] fix: report a freeze to a file that could not be
 written

---
 mapper.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapper.hpp b/mapper.hpp
index 381e199..157b5e8 100644
--- a/mapper.hpp
+++ b/mapper.hpp
@@ -2,6 +2,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 #include <boost/make_shared.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -243,7 +245,12 @@ namespace succinct { namespace mapper {
     size_t freeze(T& val, const char* filename, uint64_t flags = 0, const char* friendly_name = "<TOP>")
     {
         std::ofstream fout(filename, std::ios::binary);
-        return freeze(val, fout, flags, friendly_name);
+        size_t written = freeze(val, fout, flags, friendly_name);
+        fout.close();
+        if (!fout) {
+            throw std::runtime_error(std::string("Unable to write file '") + filename + "'.");
+        }
+        return written;
     }
 
     template <typename T>
-- 
2.43.0


From 46306ef27ab19a567f2afbb863df1b2dc1318b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:42 +0000
Subject: [PATCH 13/15] fix: release the buffer when copying a range into a
 mappable_vector throws

---
 mappable_vector.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index 0c1c9a7..e0c7958 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -45,9 +45,15 @@ namespace succinct { namespace mapper {
             T* data = new T[size];
             m_deleter = boost::lambda::bind(boost::lambda::delete_array(), data);
 
-            std::copy(boost::begin(from),
-                      boost::end(from),
-                      data);
+            try {
+                std::copy(boost::begin(from),
+                          boost::end(from),
+                          data);
+            } catch (...) {
+                // the destructor is not run
+                m_deleter();
+                throw;
+            }
             m_data = data;
             m_size = size;
         }
-- 
2.43.0


From e5e60f66e6c6a98cac38bd579d2e4f4fca323493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:42 +0000
Subject: [PATCH 14/15] fix: leave a mappable_vector empty when stealing a
 vector fails

---
 mappable_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index e0c7958..7e75574 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -77,12 +77,12 @@ namespace succinct { namespace mapper {
 
         void steal(std::vector<T>& vec) {
             clear();
-            m_size = vec.size();
-            if (m_size) {
+            if (!vec.empty()) {
                 std::vector<T>* new_vec = new std::vector<T>;
                 new_vec->swap(vec);
                 m_deleter = boost::lambda::bind(boost::lambda::delete_ptr(), new_vec);
                 m_data = &(*new_vec)[0];
+                m_size = new_vec->size();
             }
         }
 
-- 
2.43.0


From 1ae33c3f910dd8e0ab95bcb6371fc31738bbf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 15/15] fix: make broadword, forward_enumerator, vbyte and
 nibble_vector headers usable on their own

broadword.hpp used assert and size_t without including them, forward_enumerator.hpp
size_t, vbyte.hpp util::ceil_div; nibble_vector.hpp needed the parent directory of the
library in the include path.
---
 broadword.hpp          | 2 ++
 forward_enumerator.hpp | 2 ++
 nibble_vector.hpp      | 2 +-
 vbyte.hpp              | 1 +
 4 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 98619c6..d364b4e 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <cassert>
+#include <stddef.h>
 #include <stdint.h>
 #include "intrinsics.hpp"
 #include "tables.hpp"
diff --git a/forward_enumerator.hpp b/forward_enumerator.hpp
index a0e1ba0..8ccc1e3 100644
--- a/forward_enumerator.hpp
+++ b/forward_enumerator.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stddef.h>
+
 namespace succinct {
 
     template <typename Container>
diff --git a/nibble_vector.hpp b/nibble_vector.hpp
index 81758b7..96cfd04 100644
--- a/nibble_vector.hpp
+++ b/nibble_vector.hpp
@@ -4,7 +4,7 @@
 
 #include <boost/range.hpp>
 
-#include "succinct/mappable_vector.hpp"
+#include "mappable_vector.hpp"
 
 namespace succinct {
 
diff --git a/vbyte.hpp b/vbyte.hpp
index 8f08e10..0b905b5 100644
--- a/vbyte.hpp
+++ b/vbyte.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "broadword.hpp"
+#include "util.hpp"
 
 namespace succinct {
 
-- 
2.43.0

