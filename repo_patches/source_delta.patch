From 89bb2478a9fcce03f2612bd39404638bbf7a69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 01/43] fix: copy-on-write in heap clear, resize and reserve

These mutators skipped copy_on_write and so changed every other handle
sharing the payload.
---
 include/dart/heap/api.tcc   | 5 +++--
 include/dart/heap/array.tcc | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index a0316f8..4916b42 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -255,9 +255,10 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::clear() {
+    if (!is_object() && !is_array()) throw type_error("dart::heap is not an aggregate and cannot be cleared");
+    copy_on_write();
     if (is_object()) get_fields().clear();
-    else if (is_array()) get_elements().clear();
-    else throw type_error("dart::heap is not an aggregate and cannot be cleared");
+    else get_elements().clear();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/heap/array.tcc b/include/dart/heap/array.tcc
index 45e0783..98b9506 100644
--- a/include/dart/heap/array.tcc
+++ b/include/dart/heap/array.tcc
@@ -123,13 +123,16 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   void basic_heap<RefCount>::reserve(size_type count) {
+    if (is_array()) copy_on_write();
     get_elements().reserve(count);
   }
 
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   void basic_heap<RefCount>::resize(size_type count, T const& def) {
-    get_elements().resize(count, convert::cast<basic_heap>(def));
+    auto tmp = convert::cast<basic_heap>(def);
+    if (is_array()) copy_on_write();
+    get_elements().resize(count, tmp);
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From e915d266ad1554786fa76efca1edcfae65ce55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 02/43] fix: keep embedded NULs of keys in the finalized object
 vtable

The vtable entry was built from a C string, so its length and prefix were
wrong for a key with an embedded NUL and lookups failed.
---
 include/dart/object.tcc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 8258bc3..4b67c38 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -280,7 +280,8 @@ namespace dart {
 
         // Add an entry to the vtable.
         auto val_type = json_identify<RefCount>(it->value);
-        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset), it->name.GetString());
+        new(entry++) object_entry(val_type, static_cast<uint32_t>(offset),
+            shim::string_view {it->name.GetString(), it->name.GetStringLength()});
 
         // Layout our key.
         offset += json_lower<RefCount>(aligned, it->name);
@@ -319,7 +320,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(pair.value.get_raw_type(),
-            static_cast<uint32_t>(offset), pair.key.str());
+            static_cast<uint32_t>(offset), pair.key.strv());
 
         // Layout our key.
         offset += pair.key.layout(aligned);
@@ -358,7 +359,7 @@ namespace dart {
         // Add an entry to the vtable.
         new(entry++)
           object_entry(field.second.get_raw_type(),
-              static_cast<uint32_t>(offset), field.first.str());
+              static_cast<uint32_t>(offset), field.first.strv());
 
         // Layout our key.
         offset += field.first.layout(aligned);
@@ -410,7 +411,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
@@ -459,7 +460,7 @@ namespace dart {
         // Add an entry to the vtable.
         auto* key = get_string(raw_key);
         new(entry++) object_entry(raw_val.type,
-            static_cast<uint32_t>(offset), key->get_strv().data());
+            static_cast<uint32_t>(offset), key->get_strv());
 
         // Copy in our key.
         auto key_len = find_sizeof<RefCount>(raw_key);
-- 
2.43.0


From 2a2e44aeff407f26fa5e86e69533298d30aba28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 03/43] fix: find on a finalized object returns end for an
 absent key

The index was left uninitialised when the key was not found.
---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 4b67c38..27852a9 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -680,14 +680,14 @@ namespace dart {
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_value);
     }
 
     template <template <class> class RefCount>
     auto object<RefCount>::get_key_it(shim::string_view const key) const noexcept -> ll_iterator<RefCount> {
-      size_t idx;
+      size_t idx = size();
       get_key(key, [&] (auto target) { idx = target; });
       return ll_iterator<RefCount>(idx, DART_FROM_THIS, load_key);
     }
-- 
2.43.0


From 1f1f0866de4178e49afdd9fe93020b300f466883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 04/43] fix: is_valid accepts finalized aggregates containing
 nulls

A null has no bytes, so its successor legitimately shares its offset.
---
 include/dart/array.tcc  | 3 ++-
 include/dart/object.tcc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index dd67133..93b094d 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -325,7 +325,8 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+        // Nulls occupy no memory, so whatever comes next may share their address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 27852a9..86ff299 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -583,7 +583,8 @@ namespace dart {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        prev = raw_val.buffer;
+        // Nulls occupy no memory, so whatever comes next may share their address.
+        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
 
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
-- 
2.43.0


From 2b37fa1937582243392522230aad0b8bfa7ffa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 05/43] fix: the last duplicate JSON key wins when parsing
 finalized

The finalized parser kept every duplicate, the mutable one the last.
---
 include/dart/object.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 86ff299..373baba 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -257,7 +257,7 @@ namespace dart {
       for (auto it = fields.MemberBegin(); it != fields.MemberEnd(); ++it) {
         sorted.push_back(it);
       }
-      std::sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
+      std::stable_sort(sorted.begin(), sorted.end(), [] (auto& lhs, auto& rhs) {
         auto lhs_len = lhs->name.GetStringLength();
         auto rhs_len = rhs->name.GetStringLength();
         if (lhs_len == rhs_len) {
@@ -269,6 +269,13 @@ namespace dart {
         }
       });
 
+      // JSON text may repeat a key, the last occurrence wins (as it does for dart::heap).
+      auto last = std::unique(sorted.rbegin(), sorted.rend(), [] (auto& lhs, auto& rhs) {
+        return lhs->name == rhs->name;
+      });
+      sorted.erase(sorted.begin(), last.base());
+      elems = static_cast<uint32_t>(sorted.size());
+
       // Iterate over our elements and write each one into the buffer.
       object_entry* entry = vtable();
       size_t offset = reinterpret_cast<gsl::byte*>(&vtable()[elems]) - DART_FROM_THIS_MUT;
-- 
2.43.0


From 67d2fa0e5faceaf113cdb93e78030e3aa99921d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 06/43] fix: reject over-long JSON keys when parsing finalized

Keys longer than UINT16_MAX cannot be laid out; the finalized parser wrote
a corrupt object instead of failing as the mutable one does.
---
 include/dart/connector/json.tcc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index acc8322..e7094c1 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -52,6 +52,7 @@ namespace dart {
   namespace detail {
     template <class Writer, class Packet>
     void json_serialize(Writer& writer, Packet const& packet);
+    inline void json_check_keys(rapidjson::Value const& val);
   }
 }
 #endif
@@ -180,6 +181,7 @@ namespace dart {
     } else if (!doc.IsObject()) {
       throw type_error("dart::buffer root must be an object.");
     }
+    detail::json_check_keys(doc);
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
@@ -415,6 +417,19 @@ namespace dart {
       return true;
     }
 
+    inline void json_check_keys(rapidjson::Value const& val) {
+      if (val.IsObject()) {
+        for (auto it = val.MemberBegin(); it != val.MemberEnd(); ++it) {
+          if (it->name.GetStringLength() > std::numeric_limits<uint16_t>::max()) {
+            throw std::invalid_argument("dart::buffer keys cannot be longer than UINT16_MAX");
+          }
+          json_check_keys(it->value);
+        }
+      } else if (val.IsArray()) {
+        for (auto it = val.Begin(); it != val.End(); ++it) json_check_keys(*it);
+      }
+    }
+
     template <class Writer, class Packet>
     void json_serialize(Writer& writer, Packet const& packet) {
       switch (packet.get_type()) {
-- 
2.43.0


From 5962be00a2e5f88d711980aecd38353bd69728e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 07/43] fix: JSON integers above INT64_MAX become decimals in
 dart::heap

They wrapped around to negative integers; the finalized parser already
produced decimals.
---
 include/dart/connector/json.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index e7094c1..c883fab 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -383,6 +383,10 @@ namespace dart {
 
     template <template <class> class RefCount>
     bool heap_parser<RefCount>::Uint64(uint64_t num) {
+      // Not representable as an integer, so fall back on a decimal (as the finalized parser does).
+      if (num > static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {
+        return Double(static_cast<double>(num));
+      }
       return Int64(num);
     }
 
-- 
2.43.0


From 7ffe8d6aa1b1fd339d3a5db877b40324d4f3a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 08/43] fix: zero the padding of finalized packets parsed from
 JSON

Equality of finalized packets is a memcmp, which compared uninitialised
padding bytes.
---
 include/dart/connector/json.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index c883fab..4c2e282 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -185,7 +185,10 @@ namespace dart {
 
     // Allocate space to store our finalized representation.
     // FIXME: Make this allocation size more intelligent.
-    auto block = detail::aligned_alloc<RefCount>(json.size() * 8, detail::raw_type::object, [&] (auto* buf) {
+    auto bytes = json.size() * 8;
+    auto block = detail::aligned_alloc<RefCount>(bytes, detail::raw_type::object, [&] (auto* buf) {
+      // XXX: std::fill_n is REQUIRED here so that we can perform memcmps for finalized packets.
+      std::fill_n(buf, bytes, gsl::byte {});
       detail::json_lower<RefCount>(buf, doc);
     });
 
-- 
2.43.0


From e58b861d4a26adcfd46c2006ae57dfff799b3a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 09/43] fix: packet front_or/back_or work on finalized packets

---
 include/dart/packet/array.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index c19caa5..ae62610 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -236,7 +236,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::front_or(T&& opt) const {
-    return get_heap().front_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return front();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
@@ -254,7 +255,8 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount> basic_packet<RefCount>::back_or(T&& opt) const {
-    return get_heap().back_or(std::forward<T>(opt));
+    if (is_array() && !empty()) return back();
+    else return convert::cast<basic_packet>(std::forward<T>(opt));
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From d1af8f0afe8a980632a54e51dc0ca8c3acfbe5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 10/43] fix: mixed object comparison distinguishes null from
 absent

---
 include/dart/conversion_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index 8a4c55a..ae70577 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -299,7 +299,7 @@ namespace dart {
               typename std::decay_t<Rhs>::iterator k, v;
               std::tie(k, v) = rhs.kvbegin();
               while (v != rhs.end()) {
-                if (*v != lhs[*k]) return false;
+                if (!lhs.has_key(*k) || *v != lhs[*k]) return false;
                 ++k, ++v;
               }
               return true;
-- 
2.43.0


From 9c9ad681e74aa9e0637859033634c7b9b2ed9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 11/43] fix: native op number keeps its operand order

5 - number{3} computed 3 - 5.
---
 include/dart/operators.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dart/operators.tcc b/include/dart/operators.tcc
index 6637580..7ddf477 100644
--- a/include/dart/operators.tcc
+++ b/include/dart/operators.tcc
@@ -86,7 +86,7 @@ namespace dart {
     >                                                                                     \
   >                                                                                       \
   double operator op(T lhs, basic_number<Number> const& rhs) noexcept {                   \
-    return rhs op lhs;                                                                    \
+    return lhs op rhs.numeric();                                                          \
   }
 
   DART_DEFINE_ARITHMETIC_OPERATORS(+);
-- 
2.43.0


From d7ef351bcd2408aa5818753d912897276251b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 12/43] fix: compare the whole of strings with embedded NULs

---
 include/dart/common.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.h b/include/dart/common.h
index 7527ef3..311c85f 100644
--- a/include/dart/common.h
+++ b/include/dart/common.h
@@ -307,7 +307,7 @@ namespace dart {
     struct dynamic_string_layout {
       bool operator ==(dynamic_string_layout const& other) const noexcept {
         if (len != other.len) return false;
-        else return !strcmp(ptr.get(), other.ptr.get());
+        else return !memcmp(ptr.get(), other.ptr.get(), len);
       }
       bool operator !=(dynamic_string_layout const& other) const noexcept {
         return !(*this == other);
@@ -319,7 +319,7 @@ namespace dart {
     struct inline_string_layout {
       bool operator ==(inline_string_layout const& other) const noexcept {
         if (left != other.left) return false;
-        else return !strcmp(buffer.data(), other.buffer.data());
+        else return !memcmp(buffer.data(), other.buffer.data(), buffer.size() - left);
       }
       bool operator !=(inline_string_layout const& other) const noexcept {
         return !(*this == other);
-- 
2.43.0


From 70a85fb93bd57df7384e7974196251b5cefac08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 13/43] fix: inject on finalized objects allocates room for
 alignment

Merging interleaved fields could write past the end of the allocation.
---
 include/dart/common.tcc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index e8b306a..dbda69e 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -250,7 +250,11 @@ namespace dart {
       auto* raw_incoming = get_object<RefCount>(incoming.raw);
       
       // Figure out the maximum amount of space we could need for the merged object.
-      auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof();
+      // Interleaving fields can require more padding between them than either object
+      // had, so leave room to align every key and value.
+      auto max_fields = raw_base->size() + raw_incoming->size();
+      auto max_padding = max_fields * (alignment_of<RefCount>(raw_type::string) + alignment_of<RefCount>(raw_type::object));
+      auto total_size = raw_base->get_sizeof() + raw_incoming->get_sizeof() + max_padding;
 
       // Merge it.
       auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
-- 
2.43.0


From 944dc8517cc950722ce49701ac92e53c073427b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 14/43] fix: project on finalized objects allocates room for
 every key

Projecting onto more keys than the object has wrote past the allocation.
---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index dbda69e..a7bb136 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -271,8 +271,9 @@ namespace dart {
         // Unwrap our buffers to get the underlying machine representation.
         auto* raw_base = get_object<RefCount>(base.raw);
 
-        // Maximum required size is that of the current object, as the new one must be smaller.
-        auto total_size = raw_base->get_sizeof();
+        // Maximum required size is that of the current object, as the new one must be smaller,
+        // unless the initial guess at the size of the vtable (one entry per key) is larger.
+        auto total_size = raw_base->get_sizeof() + (key_ptrs.size() * sizeof(object_entry));
         auto ref = aligned_alloc<RefCount>(total_size, raw_type::object, [&] (auto* ptr) {
           std::fill_n(ptr, total_size, gsl::byte {});
           new(ptr) detail::object<RefCount>(raw_base, key_ptrs);
-- 
2.43.0


From 57bc007fe3785557ccbbe76115012801211de872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 15/43] fix: finalized lookup of keys of exactly 255 bytes

The entry length is capped at 255, so an entry of that length may be longer
than the query and its prefix says nothing about the order.
---
 include/dart/common.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index a7bb136..15e5756 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -201,6 +201,7 @@ namespace dart {
       // If they are longer than us, but we're capped at the max value,
       // return equality to force key lookup to fall back on the general case.
       if (our_len < their_len) return (our_len == max_len) ? 0 : -1;
+      else if (our_len == their_len && our_len == max_len) return 0;
       else if (our_len == their_len) return compare_impl(str.data(), their_len);
       else return 1;
     }
-- 
2.43.0


From fc2a4db7b65a6a66fdf5583813535a2dc877740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 16/43] fix: finalized lookup of keys with non-ASCII bytes

Keys are sorted by unsigned bytes but their prefixes were compared as
signed chars, so the binary search could miss keys that are present.
---
 include/dart/common.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dart/common.tcc b/include/dart/common.tcc
index 15e5756..ce540b2 100644
--- a/include/dart/common.tcc
+++ b/include/dart/common.tcc
@@ -13,13 +13,14 @@ namespace dart {
 
     template <size_t bytes>
     int prefix_compare_impl(char const* prefix, char const* str, size_t const len) noexcept {
-      if (len && *prefix != *str) return *prefix - *str;
+      // Keys are ordered by their unsigned bytes.
+      if (len && *prefix != *str) return static_cast<uint8_t>(*prefix) - static_cast<uint8_t>(*str);
       else if (len) return prefix_compare_impl<bytes - 1>(prefix + 1, str + 1, len - 1);
       else return *prefix;
     }
     template <>
     inline int prefix_compare_impl<0>(char const*, char const* str, size_t const len) noexcept {
-      if (len) return -*str;
+      if (len) return -static_cast<uint8_t>(*str);
       else return 0;
     }
 
-- 
2.43.0


From 8d7c3388de9e1b41a80bc66147bb73d1f9f1a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 17/43] fix: YAML documents with aggregate keys fail instead of
 crashing

---
 include/dart/connector/yaml.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index c04d940..2628ed0 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -85,6 +85,9 @@ namespace dart {
               yaml_event_delete(&event);
               continue;
             case YAML_MAPPING_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML mappings as keys");
+              }
               // Beginning a new object, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
@@ -93,6 +96,9 @@ namespace dart {
               curr_obj = basic_heap<RefCount>::make_object();
               break;
             case YAML_SEQUENCE_START_EVENT:
+              if (state == detail::parse_state::mapping_key) {
+                throw std::runtime_error("dart::packet does not support YAML sequences as keys");
+              }
               // Beginning a new array, push onto our stacks if we were holding anything.
               if (curr_key) key_stack.push_back(std::move(curr_key));
               if (curr_obj) obj_stack.push_back(std::move(curr_obj));
-- 
2.43.0


From 960ddf77ee0fb4039b6cc6b73c41ea1cf8092ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 18/43] fix: quoted YAML scalars are strings

---
 include/dart/connector/yaml.tcc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index 2628ed0..81207f1 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -193,6 +193,12 @@ namespace dart {
       size_t len = event.data.scalar.length;
       char const* str = reinterpret_cast<char const*>(event.data.scalar.value);
 
+      // Quoted and block scalars are always strings.
+      auto style = event.data.scalar.style;
+      if (style != YAML_PLAIN_SCALAR_STYLE && style != YAML_ANY_SCALAR_STYLE) {
+        return basic_heap<RefCount>::make_string({str, len});
+      }
+
       // Try to figure out what this is.
       int64_t int_val = 0;
       double dcm_val = 0.0;
-- 
2.43.0


From f00670f28a1209f83943e54caffaa22ea5365952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 19/43] fix: packet at_front/at_back on temporaries return

The visitor flowed off its end without returning a packet.
---
 include/dart/packet/array.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/packet/array.tcc b/include/dart/packet/array.tcc
index ae62610..2a6d50c 100644
--- a/include/dart/packet/array.tcc
+++ b/include/dart/packet/array.tcc
@@ -205,7 +205,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_front() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_front(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_front(); }, impl);
     return std::move(*this);
   }
 
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <bool enabled, class EnableIf>
   basic_packet<RefCount>&& basic_packet<RefCount>::at_back() && {
-    shim::visit([] (auto& v) -> basic_packet { v = std::move(v).at_back(); }, impl);
+    shim::visit([] (auto& v) { v = std::move(v).at_back(); }, impl);
     return std::move(*this);
   }
 
-- 
2.43.0


From 8f2c122194e5f3b3e12d2e9af291217fd3883c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 20/43] fix: at() with a dynamic key names an existing member
 function

---
 include/dart/buffer/api.tcc | 4 ++--
 include/dart/heap/api.tcc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 134be9f..54e2e1a 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -217,7 +217,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount> basic_buffer<RefCount>::at(KeyType const& identifier) const& {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
@@ -230,7 +230,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_buffer<RefCount>&& basic_buffer<RefCount>::at(KeyType const& identifier) && {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return std::move(*this).at(identifier.strv());
       case type::integer:
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 4916b42..dffb237 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -386,7 +386,7 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class EnableIf>
   basic_heap<RefCount> basic_heap<RefCount>::at(KeyType const& identifier) const {
-    switch (identifier.at_type()) {
+    switch (identifier.get_type()) {
       case type::string:
         return at(identifier.strv());
       case type::integer:
-- 
2.43.0


From 2642a872dfdbd33029989c4c5c8d2569f1de5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 21/43] fix: inserting a value into itself inserts a copy

a.push_back(a) decided it was unshared before taking its copy of a, and so
inserted the array into itself: a reference cycle, infinite recursion on any
traversal.
---
 include/dart/heap/api.tcc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index dffb237..52f3293 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -118,13 +118,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::insert(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can insert.
+    // The given value might be (or share with) the current instance, so we need our own copies
+    // BEFORE deciding if our heap is shared, otherwise it could end up containing itself.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can insert.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_value = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Perform the insertion.
     if (tmp_key.is_str()) {
       // Check to make sure we'll be able to encode the given string.
@@ -135,7 +137,7 @@ namespace dart {
       // Attempt the insertion.
       // Sucks that we have to copy the value here, but insert might fail,
       // and the standard doesn't guarantee that tmp_value wouldn't be consumed if so.
-      auto val = std::make_pair(std::forward<decltype(tmp_key)>(tmp_key), tmp_value);
+      auto val = std::make_pair(std::move(tmp_key), tmp_value);
       auto res = get_fields().insert(std::move(val));
 
       // If the key was already present, insert will fail without consuming our value.
@@ -146,7 +148,7 @@ namespace dart {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos > elements.size()) throw std::out_of_range("dart::heap cannot insert at out of range index");
-      auto new_it = elements.insert(elements.begin() + pos, std::forward<decltype(tmp_value)>(tmp_value));
+      auto new_it = elements.insert(elements.begin() + pos, std::move(tmp_value));
       return detail::dynamic_iterator<RefCount> {new_it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot insert keys with non string/integer types");
@@ -170,13 +172,15 @@ namespace dart {
   template <template <class> class RefCount>
   template <class KeyType, class ValueType, class EnableIf>
   auto basic_heap<RefCount>::set(KeyType&& key, ValueType&& value) -> iterator {
+    // Cast and forward the key/value into something we can use.
+    // The given value might be (or share with) the current instance, so we need our own copies
+    // BEFORE deciding if our heap is shared, otherwise it could end up containing itself.
+    basic_heap tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
+    basic_heap tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
+
     // Perform our copy on write if our heap is shared.
     copy_on_write();
 
-    // Cast and forward the key/value into something we can use.
-    auto&& tmp_key = convert::cast<basic_heap>(std::forward<KeyType>(key));
-    auto&& tmp_val = convert::cast<basic_heap>(std::forward<ValueType>(value));
-
     // Update the given value IF present.
     if (tmp_key.is_str()) {
       if (tmp_key.size() > std::numeric_limits<uint16_t>::max()) {
@@ -187,14 +191,14 @@ namespace dart {
       auto& fields = get_fields();
       auto it = fields.find(tmp_key);
       if (it == fields.end()) throw std::out_of_range("dart::heap cannot set a non-existent key");
-      it->second = std::forward<decltype(tmp_val)>(tmp_val);
+      it->second = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount>{it, [] (auto& it) -> auto const& { return it->second; }};
     } else if (tmp_key.is_integer()) {
       auto& elements = get_elements();
       auto pos = static_cast<size_type>(tmp_key.integer());
       if (pos >= elements.size()) throw std::out_of_range("dart::heap cannot set a value at out of range index");
       auto it = elements.begin() + pos;
-      *it = std::forward<decltype(tmp_val)>(tmp_val);
+      *it = std::move(tmp_val);
       return detail::dynamic_iterator<RefCount> {it, [] (auto& it) -> auto const& { return *it; }};
     } else {
       throw type_error("dart::heap cannot set keys with non string/integer types");
-- 
2.43.0


From eabf6d120f240a28c569b17255cb35cafde9c792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 22/43] fix: project on typed objects compiles

---
 include/dart/object.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 373baba..17e4094 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -129,13 +129,13 @@ namespace dart {
 
   template <class Object>
   basic_object<Object> basic_object<Object>::project(std::initializer_list<shim::string_view> keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
   template <class StringSpan, class EnableIf>
   basic_object<Object> basic_object<Object>::project(StringSpan const& keys) const {
-    return val.project(keys);
+    return basic_object {val.project(keys)};
   }
 
   template <class Object>
-- 
2.43.0


From 2f70651106c61d8ad6beb455559b8f576ecc5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 23/43] fix: null is a primitive, as documented and as
 dart::null reports

---
 include/dart/buffer/api.tcc | 2 +-
 include/dart/heap/api.tcc   | 2 +-
 include/dart/packet/api.tcc | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/buffer/api.tcc b/include/dart/buffer/api.tcc
index 54e2e1a..9ea1485 100644
--- a/include/dart/buffer/api.tcc
+++ b/include/dart/buffer/api.tcc
@@ -347,7 +347,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/heap/api.tcc b/include/dart/heap/api.tcc
index 52f3293..5f9b176 100644
--- a/include/dart/heap/api.tcc
+++ b/include/dart/heap/api.tcc
@@ -475,7 +475,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_heap<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index d3b7285..783c621 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -367,7 +367,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_packet<RefCount>::is_primitive() const noexcept {
-    return !is_object() && !is_array() && !is_null();
+    return !is_object() && !is_array();
   }
 
   template <template <class> class RefCount>
-- 
2.43.0


From da53a004e57ccb6d5472952da14602305f044b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 24/43] fix: boolean() on a finalized number is a type error

---
 include/dart/buffer/primitive.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 858fea8..2724b08 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -33,6 +33,7 @@ namespace dart {
 
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
+    if (!is_boolean()) throw type_error("dart::buffer is not a finalized boolean and cannot be accessed as such");
     return detail::get_primitive<bool>(raw)->get_data();
   }
 
-- 
2.43.0


From 32cc0292dfb3574adbe52eb56fab94aef9a98ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 25/43] fix: define the declared *_or accessors of dart::buffer

---
 include/dart/buffer/primitive.tcc | 20 ++++++++++++++++++++
 include/dart/buffer/string.tcc    | 10 ++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/dart/buffer/primitive.tcc b/include/dart/buffer/primitive.tcc
index 2724b08..c3a532c 100644
--- a/include/dart/buffer/primitive.tcc
+++ b/include/dart/buffer/primitive.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return detail::integer_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  int64_t basic_buffer<RefCount>::integer_or(int64_t opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_integer, &basic_buffer::integer);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::decimal() const {
     return detail::decimal_deref([] (auto& val) { return val.get_data(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::decimal_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_decimal, &basic_buffer::decimal);
+  }
+
   template <template <class> class RefCount>
   double basic_buffer<RefCount>::numeric() const {
     switch (get_type()) {
@@ -31,12 +41,22 @@ namespace dart {
     }
   }
 
+  template <template <class> class RefCount>
+  double basic_buffer<RefCount>::numeric_or(double opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_numeric, &basic_buffer::numeric);
+  }
+
   template <template <class> class RefCount>
   bool basic_buffer<RefCount>::boolean() const {
     if (!is_boolean()) throw type_error("dart::buffer is not a finalized boolean and cannot be accessed as such");
     return detail::get_primitive<bool>(raw)->get_data();
   }
 
+  template <template <class> class RefCount>
+  bool basic_buffer<RefCount>::boolean_or(bool opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_boolean, &basic_buffer::boolean);
+  }
+
 }
 
 #endif
diff --git a/include/dart/buffer/string.tcc b/include/dart/buffer/string.tcc
index 72ecf7d..2761c69 100644
--- a/include/dart/buffer/string.tcc
+++ b/include/dart/buffer/string.tcc
@@ -14,11 +14,21 @@ namespace dart {
     return strv().data();
   }
 
+  template <template <class> class RefCount>
+  char const* basic_buffer<RefCount>::str_or(char const* opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::str);
+  }
+
   template <template <class> class RefCount>
   shim::string_view basic_buffer<RefCount>::strv() const {
     return detail::string_deref([] (auto& val) { return val.get_strv(); }, raw);
   }
 
+  template <template <class> class RefCount>
+  shim::string_view basic_buffer<RefCount>::strv_or(shim::string_view opt) const noexcept {
+    return detail::safe_optional_access(*this, opt, &basic_buffer::is_str, &basic_buffer::strv);
+  }
+
 }
 
 #endif
-- 
2.43.0


From 4ed00add6e3658456cd28a3c13c7b11327923dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:21 +0000
Subject: [PATCH 26/43] fix: a buffer copied from a span refers to its copy

---
 include/dart.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dart.h b/include/dart.h
index b3ce7ac..9519b27 100644
--- a/include/dart.h
+++ b/include/dart.h
@@ -8007,9 +8007,12 @@ namespace dart {
         >
       >
       explicit basic_buffer(gsl::span<gsl::byte const> buffer) :
-        raw({detail::raw_type::object, buffer.data()}),
+        raw({detail::raw_type::object, nullptr}),
         buffer_ref(allocate_pointer(buffer))
-      {}
+      {
+        // Refer to the copy, not to the memory it was taken from.
+        raw.buffer = buffer_ref.get();
+      }
 
       /**
        *  @brief
-- 
2.43.0


From cbe3ee3f2e1099fa36b1952e9bfa32246516c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 27/43] fix: heaps of different reference counters compare by
 value

---
 include/dart/conversion_traits.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/dart/conversion_traits.h b/include/dart/conversion_traits.h
index ae70577..16a72b6 100644
--- a/include/dart/conversion_traits.h
+++ b/include/dart/conversion_traits.h
@@ -209,6 +209,21 @@ namespace dart {
         return TargetPacket {std::forward<Packet>(pkt)};
       }
 
+      // Defined below.
+      template <class Lhs, class Rhs>
+      bool generic_compare(Lhs const& lhs, Rhs const& rhs) noexcept;
+
+      // Underlying representations that can't be compared directly (those of different
+      // reference counters, usually) are compared through the public API.
+      template <class Lhs, class Rhs, class LVal, class RVal>
+      bool compare_storage(Lhs const&, Rhs const&, LVal const& lval, RVal const& rval, std::true_type) noexcept {
+        return dart::detail::typeless_comparator {}(lval, rval);
+      }
+      template <class Lhs, class Rhs, class LVal, class RVal>
+      bool compare_storage(Lhs const& lhs, Rhs const& rhs, LVal const&, RVal const&, std::false_type) noexcept {
+        return generic_compare(lhs, rhs);
+      }
+
       // Struct is basically a switch table of different Dart comparison operations
       // where both lhs and rhs are known to be specializations of the same Dart
       // template, even if instantiated with different reference counters.
@@ -228,17 +243,16 @@ namespace dart {
           else if (lhs.get_type() != rhs.get_type()) return false;
 
           // Defer to our underlying representation.
-          return shim::visit([] (auto& lhs, auto& rhs) {
-            using Lhs = std::decay_t<decltype(lhs)>;
-            using Rhs = std::decay_t<decltype(rhs)>;
+          return shim::visit([&] (auto& ldata, auto& rdata) {
+            using Lhs = std::decay_t<decltype(ldata)>;
+            using Rhs = std::decay_t<decltype(rdata)>;
 
             // Have to compare through pointers here, and we make the decision purely off of the
             // ability to dereference the incoming type to try to allow compatibility with custom
             // external smart-pointers that otherwise conform to the std::shared_ptr interface.
-            auto comparator = dart::detail::typeless_comparator {};
-            auto& lval = dart::detail::maybe_dereference(lhs, meta::is_dereferenceable<Lhs> {});
-            auto& rval = dart::detail::maybe_dereference(rhs, meta::is_dereferenceable<Rhs> {});
-            return comparator(lval, rval);
+            auto& lval = dart::detail::maybe_dereference(ldata, meta::is_dereferenceable<Lhs> {});
+            auto& rval = dart::detail::maybe_dereference(rdata, meta::is_dereferenceable<Rhs> {});
+            return compare_storage(lhs, rhs, lval, rval, meta::are_comparable<decltype(lval), decltype(rval)> {});
           }, lhs.data, rhs.data);
         }
       };
-- 
2.43.0


From c1b36c3b2a7cc052d75cb969e27db70ed43e87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 28/43] fix: parse JSON decimals to the nearest double

---
 include/dart/connector/json.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 4c2e282..65d308b 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -145,7 +145,7 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags>(ss, context)) {
+    if (reader.Parse<flags | rapidjson::kParseFullPrecisionFlag>(ss, context)) {
       return context.curr_obj;
     } else {
       auto err = reader.GetParseErrorCode();
@@ -169,7 +169,7 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
+    if (doc.ParseInsitu<flags | rapidjson::kParseFullPrecisionFlag>(buf.get()).HasParseError()) {
       auto err = doc.GetParseError();
       auto off = doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
-- 
2.43.0


From 46075161d4bd9ee938057f79a9d822da18b6ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 29/43] fix: validation rejects overlapping elements

---
 include/dart/array.tcc  | 12 ++++++------
 include/dart/object.tcc | 19 +++++++++----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 93b094d..416360f 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -311,27 +311,27 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Nothing is allowed to start before the end of whatever precedes it, as overlapping
+      // children could be visited exponentially often, and would defeat size calculations.
+      gsl::byte const* prev = vtable_end;
       for (auto raw_val : *this) {
         // Load the base address of the value and verify that it's within bounds.
         auto val_offset = raw_val.buffer - DART_FROM_THIS;
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized array value contained a negative or cyclic offset");
+          else throw validation_error("Serialized array value contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized array value offset does not meet alignment requirements");
         }
-        // Nulls occupy no memory, so whatever comes next may share their address.
-        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
-
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev = raw_val.buffer + find_sizeof<RefCount>(raw_val);
       }
       return true;
     }
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 17e4094..1e54b2a 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -548,7 +548,9 @@ namespace dart {
 
       // We now know the entire vtable is within bounds,
       // so iterate over it and check all contained children.
-      void const* prev = this;
+      // Nothing is allowed to start before the end of whatever precedes it, as overlapping
+      // children could be visited exponentially often, and would defeat size calculations.
+      gsl::byte const* prev = vtable_end;
       auto key_it = key_begin(), val_it = begin();
       while (val_it != end()) {
         // We know the whole vtable is within bounds, but it could still specify offsets that aren't,
@@ -560,21 +562,20 @@ namespace dart {
           // Key offset is out of bounds
           if (silent) return false;
           else throw validation_error("Serialized object key offset is out of bounds");
-        } else if (raw_key.buffer <= prev) {
+        } else if (raw_key.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized object key contained a negative or cyclic offset");
+          else throw validation_error("Serialized object key contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_key.buffer, raw_key.type) != raw_key.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object key offset does not meet alignment requirements");
         }
-        prev = raw_key.buffer;
-
         // We now know that at least up to the base of the key is within bounds, so recurse on the key.
         // If the buffer validation routine returns false, it means we're not throwing errors.
         // It would be unsafe to dereference the value iterator at this point, because doing so
         // loads offset information from the key, and we haven't check if it's safe yet.
         auto valid_key = valid_buffer<silent, RefCount>(raw_key, total_size - key_offset);
         if (!valid_key) return false;
+        prev = raw_key.buffer + find_sizeof<RefCount>(raw_key);
 
         // Now we can dereference the value iterator since we know the key appears reasonable.
         // Load the base address of the value and verify that it's within bounds.
@@ -583,19 +584,17 @@ namespace dart {
         if (val_offset > total_size) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset is out of bounds");
-        } else if (raw_val.buffer <= prev) {
+        } else if (raw_val.buffer < prev) {
           if (silent) return false;
-          else throw validation_error("Serialized object value contained a negative or cyclic offset");
+          else throw validation_error("Serialized object value contained a negative, cyclic, or overlapping offset");
         } else if (align_pointer<RefCount>(raw_val.buffer, raw_val.type) != raw_val.buffer) {
           if (silent) return false;
           else throw validation_error("Serialized object value offset does not meet alignment requirements");
         }
-        // Nulls occupy no memory, so whatever comes next may share their address.
-        if (raw_val.type != raw_type::null) prev = raw_val.buffer;
-
         // We now know that at least up to the base of the value is within bounds, so recurse on the value.
         auto valid_val = valid_buffer<silent, RefCount>(raw_val, total_size - val_offset);
         if (!valid_val) return false;
+        prev = raw_val.buffer + find_sizeof<RefCount>(raw_val);
 
         // Check the next pair.
         ++key_it, ++val_it;
-- 
2.43.0


From 3a8075c523d33b282d200594c1981f4bc0794589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 30/43] fix: keep RapidJSON's default decimal conversion

Backs out c1b36c3: the full-precision path of RapidJSON 1.1 turns long zeros
(0.0000000000000000000000000) into garbage and indexes its power table out of
range for very small numbers.
---
 include/dart/connector/json.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dart/connector/json.tcc b/include/dart/connector/json.tcc
index 65d308b..4c2e282 100644
--- a/include/dart/connector/json.tcc
+++ b/include/dart/connector/json.tcc
@@ -145,7 +145,7 @@ namespace dart {
 
     // Parse!
     rapidjson::MemoryStream ss(json.data(), json.size());
-    if (reader.Parse<flags | rapidjson::kParseFullPrecisionFlag>(ss, context)) {
+    if (reader.Parse<flags>(ss, context)) {
       return context.curr_obj;
     } else {
       auto err = reader.GetParseErrorCode();
@@ -169,7 +169,7 @@ namespace dart {
 
     // Fire up RapidJSON.
     rapidjson::Document doc;
-    if (doc.ParseInsitu<flags | rapidjson::kParseFullPrecisionFlag>(buf.get()).HasParseError()) {
+    if (doc.ParseInsitu<flags>(buf.get()).HasParseError()) {
       auto err = doc.GetParseError();
       auto off = doc.GetErrorOffset();
       std::string errmsg = "dart::buffer could not parse the given string due to: \"";
-- 
2.43.0


From ca451af3bdb1704236e3e01864a665eb8cbbd470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 31/43] fix: from_yaml of a default-constructed view is an
 empty document

---
 include/dart/connector/yaml.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dart/connector/yaml.tcc b/include/dart/connector/yaml.tcc
index 81207f1..60e37db 100644
--- a/include/dart/connector/yaml.tcc
+++ b/include/dart/connector/yaml.tcc
@@ -59,7 +59,8 @@ namespace dart {
       if (!yaml_parser_initialize(&parser)) {
         throw std::runtime_error("dart::packet failed to initialize yaml parser");
       }
-      yaml_parser_set_input_string(&parser, reinterpret_cast<unsigned char const*>(yaml.data()), yaml.size());
+      auto* input = yaml.empty() ? "" : yaml.data();
+      yaml_parser_set_input_string(&parser, reinterpret_cast<unsigned char const*>(input), yaml.size());
 
       // Explicit stacks to manage parser state.
       basic_heap<RefCount> curr_key, curr_obj;
-- 
2.43.0


From 2a6c5c4e2b94f55bf9798214313dd08a47760c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 32/43] fix: order in-place mutation after what previous owners
 did

A reference counter may load its count relaxed (std::shared_ptr does), so seeing a count of one
says nothing about the accesses of an owner in another thread that just let go.
---
 include/dart/heap/detail.tcc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dart/heap/detail.tcc b/include/dart/heap/detail.tcc
index 9474205..f819e09 100644
--- a/include/dart/heap/detail.tcc
+++ b/include/dart/heap/detail.tcc
@@ -1,6 +1,10 @@
 #ifndef DART_HEAP_IMPL_DETAILS_H
 #define DART_HEAP_IMPL_DETAILS_H
 
+/*----- System Includes -----*/
+
+#include <atomic>
+
 /*----- Project Includes -----*/
 
 #include "../common.h"
@@ -57,6 +61,11 @@ namespace dart {
     if (refcount() > overcount) {
       if (is_object()) data = fields_type(new packet_fields(get_fields()));
       else if (is_array()) data = elements_type(new packet_elements(get_elements()));
+    } else {
+      // We're about to modify the shared state in place.
+      // Reference counters are free to load their count relaxed (std::shared_ptr does), so make sure
+      // we happen after everything previous owners did before letting go.
+      std::atomic_thread_fence(std::memory_order_acquire);
     }
   }
 
-- 
2.43.0


From e5d18dba7b977f094f72e85e96973757d45daa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 33/43] fix: dart_to_buffer finalizes its operand instead of
 definalizing it

---
 src/generic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generic.cc b/src/generic.cc
index 5d0b574..28a29cf 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -463,7 +463,7 @@ namespace {
     return generic_access(
       [=] (auto& src) {
         auto tmp {src};
-        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lift()); }, dst);
+        return buffer_construct([&tmp] (auto* dst) { safe_construct(dst, std::move(tmp).lower()); }, dst);
       },
       src
     );
-- 
2.43.0


From 0bac05edb6940e107801182813ab1aa56c49ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 34/43] fix: the consuming insert and set functions of the C
 interface leave finalized operands null too

---
 src/generic.cc | 6 ++++--
 src/helpers.h  | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.cc b/src/generic.cc
index 28a29cf..0950df4 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -72,6 +72,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_insert(dst, string_view {key, len}, std::move(val));
+            reset_taken(val);
           }, val);
         }
       ),
@@ -133,6 +134,7 @@ namespace {
         [key, len, val] (auto& dst) {
           return generic_access([&dst, key, len] (auto& val) {
             safe_set(dst, string_view {key, len}, std::move(val));
+            reset_taken(val);
           }, val);
         }
       ),
@@ -201,7 +203,7 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) { safe_insert(dst, idx, std::move(val)); reset_taken(val); }, val);
         }
       ),
       dst
@@ -258,7 +260,7 @@ namespace {
     return generic_access(
       mutable_visitor(
         [idx, val] (auto& dst) {
-          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); }, val);
+          return generic_access([&dst, idx] (auto& val) { safe_set(dst, idx, std::move(val)); reset_taken(val); }, val);
         }
       ),
       dst
diff --git a/src/helpers.h b/src/helpers.h
index 7c7c2ab..b8ae3ed 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -228,6 +228,14 @@ namespace {
     );
   }
 
+  // The conversions performed during insertion only consume some packet types,
+  // but the "take" functions guarantee their argument has been reset to null.
+  template <class Packet>
+  void reset_taken(Packet& val) {
+    auto spent = std::move(val);
+    (void) spent;
+  }
+
   template <class Packet, class Value>
   void safe_assign_impl(Packet&, Value&&, std::false_type) {
     throw dart::type_error("Unsupported packet assignment requested");
-- 
2.43.0


From 93e5b421715961e20ce12b1fc3cb972059239ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 35/43] fix: a failed C constructor does not leave a partially
 built object behind

---
 src/helpers.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/helpers.h b/src/helpers.h
index b8ae3ed..aff0f44 100644
--- a/src/helpers.h
+++ b/src/helpers.h
@@ -638,7 +638,11 @@ namespace {
     if (ret) return ret;
 
     // Assign to it.
-    return err_handler([&cb, pkt] { return heap_unwrap(std::forward<Func>(cb), pkt); });
+    ret = err_handler([&cb, pkt] { return heap_unwrap(std::forward<Func>(cb), pkt); });
+
+    // Don't leave a partially built object behind.
+    if (ret) heap_unwrap([] (auto& dst) { dst = std::decay_t<decltype(dst)> {}; }, pkt);
+    return ret;
   }
 
   // Function calculates the pointer to use for placement-newing a C++ object
@@ -650,7 +654,11 @@ namespace {
     if (ret) return ret;
 
     // Assign to it.
-    return err_handler([&cb, pkt] { return packet_unwrap(std::forward<Func>(cb), pkt); });
+    ret = err_handler([&cb, pkt] { return packet_unwrap(std::forward<Func>(cb), pkt); });
+
+    // Don't leave a partially built object behind.
+    if (ret) packet_unwrap([] (auto& dst) { dst = std::decay_t<decltype(dst)> {}; }, pkt);
+    return ret;
   }
 
   // Converts from a C pointer to the underlying strongly typed C++ object
-- 
2.43.0


From 61cfd79b75615641dc50b35c42d3ffa5b216b7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 36/43] fix: dart_for_each does not destroy packets and
 iterators that were never constructed

---
 include/dart/abi.h |  3 ++-
 src/generic.cc     | 20 +++++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/dart/abi.h b/include/dart/abi.h
index 2cac295..2c35bda 100644
--- a/include/dart/abi.h
+++ b/include/dart/abi.h
@@ -54,7 +54,8 @@
 #define DART_FOR_EACH_IMPL(aggr, value, it_func, it_name, err_name)                         \
   dart_iterator_t it_name;                                                                  \
   dart_err_t err_name = it_func(&it_name, aggr);                                            \
-  err_name = (err_name) ? err_name : dart_iterator_get_err(value, &it_name);                \
+  err_name = (err_name) ? (dart_init_err(value), err_name)                                  \
+                        : dart_iterator_get_err(value, &it_name);                           \
   for (; !dart_iterator_done_destroy(&it_name, value) && err_name == DART_NO_ERROR;         \
           err_name = (dart_iterator_next(&it_name),                                         \
                       dart_destroy(value),                                                  \
diff --git a/src/generic.cc b/src/generic.cc
index 0950df4..dba8189 100644
--- a/src/generic.cc
+++ b/src/generic.cc
@@ -576,8 +576,11 @@ namespace {
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
-          new(begin) iterator(src.begin());
-          new(end) iterator(src.end());
+          // Leave a valid, exhausted, iterator behind if src is not iterable.
+          new(begin) iterator();
+          new(end) iterator();
+          *begin = src.begin();
+          *end = src.end();
         }, dst);
       },
       src
@@ -591,8 +594,11 @@ namespace {
       [dst] (auto& src) {
         using iterator = typename std::decay_t<decltype(src)>::iterator;
         return iterator_construct([&src] (iterator* begin, iterator* end) {
-          new(begin) iterator(src.key_begin());
-          new(end) iterator(src.key_end());
+          // Leave a valid, exhausted, iterator behind if src is not iterable.
+          new(begin) iterator();
+          new(end) iterator();
+          *begin = src.key_begin();
+          *end = src.key_end();
         }, dst);
       },
       src
@@ -652,7 +658,11 @@ namespace {
         // Thankfully, all of the Dart types have a builtin type member, generic_type, which will
         // compute the type we actually need to initialize here.
         using type = typename std::decay_t<decltype(src_curr)>::value_type::generic_type;
-        if (src_curr == src_end) throw std::runtime_error("dart_iterator has been exhausted");
+        if (src_curr == src_end) {
+          // dart_for_each destroys its value at the end, regardless of whether it ever held anything.
+          packet_construct([] (type* dst) { new(dst) type(); }, dst);
+          throw std::runtime_error("dart_iterator has been exhausted");
+        }
         return packet_construct([&src_curr] (type* dst) { new(dst) type(*src_curr); }, dst);
       },
       src
-- 
2.43.0


From 6016e415fd5c89aea0fada3cdec2761d456a852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 37/43] fix: stop comparing a forward_list at the end of the
 shorter side

The loop walked the packet and dereferenced the list iterator without checking it, reading past the end of a shorter list.
---
 include/dart/conversions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index ba22069..8ae9174 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -587,13 +587,13 @@ namespace dart {
         if (!pkt.is_array()) return false;
 
         // Iterate and check.
-        auto it = lst.cbegin();
+        auto it = lst.cbegin(), end = lst.cend();
         typename Packet::view v = pkt;
         for (auto val : v) {
-          if (val != *it) return false;
+          if (it == end || val != *it) return false;
           ++it;
         }
-        return it == lst.cend();
+        return it == end;
       }
     };
 
-- 
2.43.0


From 22b1544ca171fa73af0f1924a7b8bc6c7fe269a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 38/43] fix: compare sets by the elements of the set

std::is_permutation counted with the packet as the reference range, and its elements compare unequal where they convert to the same native value, so packets such as [1, 1] could equal the set {1, 2}.
---
 include/dart/conversions.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 8ae9174..422d590 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -988,7 +988,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1057,7 +1057,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1129,7 +1129,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
@@ -1198,7 +1198,7 @@ namespace dart {
         // sets as arrays, so we don't have any efficient way to look up set
         // members in constant time.
         // Thus, this currently hands off to std::is_permutation.
-        return std::is_permutation(pkt.begin(), pkt.end(), set.begin());
+        return std::is_permutation(set.begin(), set.end(), pkt.begin());
       }
     };
 
-- 
2.43.0


From 55c987f9188c35f67e3b25d15fbdd677fd146d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 39/43] fix: compare maps without confusing absent fields,
 nulls and odd keys

An absent field compared equal to a null, and a key that is not a string threw from a noexcept comparison.
---
 include/dart/conversions.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index 422d590..f9f14ac 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -70,8 +70,10 @@ namespace dart {
         // and the same if not, so iterate over the map.
         typename Packet::view v = pkt;
         for (auto& pair : map) {
-          auto val = cb(v, pair.first);
-          if (val != pair.second) return false;
+          // A field that isn't there is not the same as a field that's null,
+          // and a key that isn't a string can't name a field.
+          auto check = cb(pair.first, [&] (auto& key) { return v.has_key(key) && v[key] == pair.second; });
+          if (!check) return false;
         }
         return true;
       }
@@ -79,7 +81,7 @@ namespace dart {
       // General case of comparing a Dart type against a std map.
       template <class Packet, class Map>
       bool generic_map_compare(Packet const& pkt, Map const& map, std::true_type) {
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[k]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& k, auto&& check) { return check(k); });
       }
 
       template <class Packet, class Map>
@@ -90,7 +92,10 @@ namespace dart {
         // but which is NOT convertible into std::string_view
         // which means our only recourse is to create a temporary
         // packet for each key with which to perform the lookup.
-        return generic_map_compare_impl(pkt, map, [] (auto& v, auto& k) { return v[convert::cast(k)]; });
+        return generic_map_compare_impl(pkt, map, [] (auto& k, auto&& check) {
+          auto key = convert::cast(k);
+          return check(key);
+        });
       }
 
       template <class Packet, class Map, class Extract, class Next>
-- 
2.43.0


From 632afac9141074b46c70a0d6a0e7f3fc6141e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 40/43] fix: compare every field of a packet with a multimap

Fields the multimap does not name were ignored, and a key that is not a string threw from a noexcept comparison.
---
 include/dart/conversions.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/dart/conversions.h b/include/dart/conversions.h
index f9f14ac..1ddd057 100644
--- a/include/dart/conversions.h
+++ b/include/dart/conversions.h
@@ -100,6 +100,7 @@ namespace dart {
 
       template <class Packet, class Map, class Extract, class Next>
       bool generic_multimap_compare_impl(Packet const& pkt, Map const& map, Extract&& extract, Next&& next) {
+        size_t keys = 0;
         auto end = map.end();
         auto it = map.begin();
         typename Packet::view v = pkt;
@@ -120,8 +121,11 @@ namespace dart {
 
           // Skip past all records with this key.
           it = edge;
+          ++keys;
         }
-        return true;
+
+        // Every field has to be accounted for.
+        return keys == pkt.size();
       }
 
       template <class Packet, class Key, class Value, class Comp, class Alloc>
@@ -140,7 +144,10 @@ namespace dart {
       bool generic_multimap_compare(Packet const& pkt,
           std::multimap<Key, Value, Comp, Alloc> const& map, std::false_type) {
         auto extract = [] (auto& v, auto& k) {
-          return v[convert::cast(k)];
+          // A key that isn't a string can't name a field.
+          using view = std::decay_t<decltype(v)>;
+          auto key = convert::cast(k);
+          return key.is_str() ? view(v[key]) : view();
         };
         auto next = [&] (auto& it, auto& end) {
           return std::upper_bound(it, end, *it, map.value_comp());
@@ -164,7 +171,10 @@ namespace dart {
       bool generic_multimap_compare(Packet const& pkt,
           std::unordered_multimap<Key, Value, Hash, Equal, Alloc> const& map, std::false_type) {
         auto extract = [] (auto& v, auto& k) {
-          return v[convert::cast(k)];
+          // A key that isn't a string can't name a field.
+          using view = std::decay_t<decltype(v)>;
+          auto key = convert::cast(k);
+          return key.is_str() ? view(v[key]) : view();
         };
         auto next = [] (auto& it, auto& end) {
           return std::find_if(it, end, [&] (auto& e) { return e.first != it->first; });
-- 
2.43.0


From c2bc4d39fb889b3ca9313525e8d04d51afec58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 41/43] fix: check the type before moving a value into an
 object or array

Constructing an object or array from an rvalue of another type threw only after the argument had been moved out, so the caller lost its value.
---
 include/dart/array.tcc  |  5 +++--
 include/dart/object.tcc | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/dart/array.tcc b/include/dart/array.tcc
index 416360f..efa8c9f 100644
--- a/include/dart/array.tcc
+++ b/include/dart/array.tcc
@@ -11,10 +11,11 @@ namespace dart {
 
   template <class Array>
   template <class Arr, class EnableIf>
-  basic_array<Array>::basic_array(Arr&& arr) : val(std::forward<Arr>(arr)) {
-    if (!val.is_array()) {
+  basic_array<Array>::basic_array(Arr&& arr) {
+    if (!arr.is_array()) {
       throw type_error("dart::packet::array can only be constructed as an array.");
     }
+    val = std::forward<Arr>(arr);
   }
 
   template <class Array>
diff --git a/include/dart/object.tcc b/include/dart/object.tcc
index 1e54b2a..9d7c3e0 100644
--- a/include/dart/object.tcc
+++ b/include/dart/object.tcc
@@ -9,6 +9,24 @@
 
 namespace dart {
 
+  namespace detail {
+
+    // Checks before anything is moved out of the argument.
+    template <class Arg, std::enable_if_t<is_dart_api_type<std::decay_t<Arg>>::value>* = nullptr>
+    Arg&& check_object(Arg&& arg) {
+      if (!arg.is_object()) {
+        throw type_error("dart::packet::object can only be constructed as an object");
+      }
+      return std::forward<Arg>(arg);
+    }
+
+    template <class Arg, std::enable_if_t<!is_dart_api_type<std::decay_t<Arg>>::value>* = nullptr>
+    Arg&& check_object(Arg&& arg) {
+      return std::forward<Arg>(arg);
+    }
+
+  }
+
   template <class Object>
   template <class Arg,
     std::enable_if_t<
@@ -28,7 +46,7 @@ namespace dart {
       >::value
     >* EnableIf
   >
-  basic_object<Object>::basic_object(Arg&& arg) : val(std::forward<Arg>(arg)) {
+  basic_object<Object>::basic_object(Arg&& arg) : val(detail::check_object(std::forward<Arg>(arg))) {
     ensure_object("dart::packet::object can only be constructed as an object");
   }
 
@@ -41,7 +59,7 @@ namespace dart {
       >::value
     >* EnableIf
   >
-  basic_object<Object>::basic_object(Arg&& arg) : val(std::forward<Arg>(arg)) {
+  basic_object<Object>::basic_object(Arg&& arg) : val(detail::check_object(std::forward<Arg>(arg))) {
     ensure_object("dart::packet::object can only be constructed as an object");
   }
 
@@ -63,7 +81,7 @@ namespace dart {
       >::value
     >* EnableIf
   >
-  basic_object<Object>::basic_object(Arg&& arg) : val(std::forward<Arg>(arg)) {
+  basic_object<Object>::basic_object(Arg&& arg) : val(detail::check_object(std::forward<Arg>(arg))) {
     ensure_object("dart::packet::object can only be constructed as an object");
   }
 
-- 
2.43.0


From da86729dba39b81b7b14f33ca6ed50e665981130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 42/43] fix: let a native value be assigned over a finalized
 packet

Assignment went through get_heap(), so assigning a native value or a typed wrapper to a packet that held finalized data threw a state_error.
---
 include/dart/packet/api.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dart/packet/api.tcc b/include/dart/packet/api.tcc
index 783c621..1229259 100644
--- a/include/dart/packet/api.tcc
+++ b/include/dart/packet/api.tcc
@@ -12,7 +12,10 @@ namespace dart {
   template <template <class> class RefCount>
   template <class T, class EnableIf>
   basic_packet<RefCount>& basic_packet<RefCount>::operator =(T&& other) & {
-    get_heap() = std::forward<T>(other);
+    // Assigning replaces whatever is here, finalized or not.
+    basic_heap<RefCount> replacement;
+    replacement = std::forward<T>(other);
+    impl = std::move(replacement);
     return *this;
   }
 
-- 
2.43.0


From 533f5227cfbad4c27cf057cf50986652ba18ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:44 +0000
Subject: [PATCH 43/43] fix: define the assignment of unordered multisets to
 typed arrays

---
 include/dart/api.tcc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/dart/api.tcc b/include/dart/api.tcc
index 0d7c9b7..d10fca6 100644
--- a/include/dart/api.tcc
+++ b/include/dart/api.tcc
@@ -186,6 +186,20 @@ namespace dart {
     return *this;
   }
 
+  template <class Array>
+  template <class Key, class Hash, class KeyEq, class Alloc, class EnableIf>
+  basic_array<Array>& basic_array<Array>::operator =(std::unordered_multiset<Key, Hash, KeyEq, Alloc> const& set) & {
+    val = convert::cast<value_type>(set);
+    return *this;
+  }
+
+  template <class Array>
+  template <class Key, class Hash, class KeyEq, class Alloc, class EnableIf>
+  basic_array<Array>& basic_array<Array>::operator =(std::unordered_multiset<Key, Hash, KeyEq, Alloc>&& set) & {
+    val = convert::cast<value_type>(std::move(set));
+    return *this;
+  }
+
   template <class String>
   template <class Str, class EnableIf>
   basic_string<String>& basic_string<String>::operator =(shim::string_view str) & {
-- 
2.43.0

