From 36fa8ad18cee1e4da9daf0fbd2909438a4305189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 01/41] fix: zera: check object entries before reading them in
 mapKeys(), and let key ranges outlive the value they came from

---
 include/zerialize/protocols/zera.hpp | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..124e3d1 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -347,14 +347,16 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // Holds the envelope extent itself (not the value it came from), so it stays
+    // valid for as long as the underlying bytes do.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
         const std::uint8_t* p = nullptr;
+        const std::uint8_t* env_end = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
             const std::uint8_t* cur = nullptr;
+            const std::uint8_t* end = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
             using iterator_category = std::forward_iterator_tag;
@@ -363,29 +365,34 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
+            // Size of the entry at `cur`, checked to lie inside the envelope.
+            std::size_t entry_size() const {
+                const auto left = static_cast<std::size_t>(end - cur);
+                require(left >= 4, "zera: object entry out of bounds");
+                const std::size_t sz = 4 + std::size_t(read_u16_le(cur)) + 16;
+                require(sz <= left, "zera: object entry out of bounds");
+                return sz;
+            }
+
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                const auto key_len = entry_size() - (4 + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto key_len = read_u16_le(cur);
-                const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur += entry_size();
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.end==b.end && a.i==b.i && a.n==b.n; }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{p, env_end, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{p, env_end, count, count};
             return it;
         }
     };
@@ -397,7 +404,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(obj_ofs + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{entries, env_ + env_size_, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From f7990a552b6c5a240fb9e460ae8ee3e442c0f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 02/41] fix: zera: do not truncate array element offsets to 32
 bits

---
 include/zerialize/protocols/zera.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 124e3d1..242bb77 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,10 +195,10 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
+        require(ofs + need <= env_size_, "zera: envelope span out of bounds");
         return env_ + ofs;
     }
 
@@ -465,7 +465,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
-- 
2.43.0


From 523ed0b7f826b1f3ad4602a5d88de83090decdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 03/41] fix: msgpack: bounds-check lengths and headers against
 the bytes present

---
 include/zerialize/protocols/msgpack.hpp | 54 +++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..9a6ac47 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -34,6 +34,12 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
 // Forward decl
 inline size_t mp_skip(std::span<const uint8_t>);
 
+// Require that `n` bytes are present at the front of `v`; returns `n`.
+inline size_t mp_need(std::span<const uint8_t> v, size_t n) {
+    if (n > v.size()) throw DeserializationError("msgpack: truncated");
+    return n;
+}
+
 // ===== minimal element skipper (for iterators / indexing) ====================
 inline size_t mp_skip(std::span<const uint8_t> v) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
@@ -43,7 +49,7 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
     if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
 
     // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
+    if ((m & 0xe0) == 0xa0) return mp_need(v, 1 + (m & 0x1f));
     // fixarray
     if ((m & 0xf0) == 0x90) {
         size_t n = m & 0x0f, off = 1;
@@ -62,20 +68,20 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
 
     switch (m) {
         // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
+        case 0xcc: case 0xd0: return mp_need(v, 2);
+        case 0xcd: case 0xd1: return mp_need(v, 3);
+        case 0xce: case 0xd2: case 0xca: return mp_need(v, 5);
+        case 0xcf: case 0xd3: case 0xcb: return mp_need(v, 9);
 
         // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return mp_need(v, 2 + size_t(v[1])); }
+        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return mp_need(v, 2 + size_t(v[1])); }
+        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return mp_need(v, 3 + size_t(mp_read_be16(v.data()+1))); }
+        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return mp_need(v, 5 + size_t(mp_read_be32(v.data()+1))); }
 
         // arrays
         case 0xdc: {
@@ -114,32 +120,36 @@ class MsgPackDeserializer {
 
     // helpers: decode headers
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); mp_need(v, 1 + len); p = v.data()+1; return; }
+        if (m == 0xd9) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xda) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xdb) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a string");
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if (m == 0xc4) { mp_need(v, 2); len = v[1]; mp_need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xc5) { mp_need(v, 3); len = mp_read_be16(v.data()+1); mp_need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xc6) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        mp_need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From 206721bff9cf1176455e7b71a55802733aad9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 04/41] fix: msgpack: skip elements iteratively so deep nesting
 cannot exhaust the stack

---
 include/zerialize/protocols/msgpack.hpp | 43 ++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9a6ac47..a8e1aaa 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -41,7 +41,9 @@ inline size_t mp_need(std::span<const uint8_t> v, size_t n) {
 }
 
 // ===== minimal element skipper (for iterators / indexing) ====================
-inline size_t mp_skip(std::span<const uint8_t> v) {
+// Size of the element at the front of `v` without its children, whose number is
+// added to `children`.
+inline size_t mp_skip_shallow(std::span<const uint8_t> v, size_t& children) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
     const uint8_t m = v[0];
 
@@ -52,18 +54,13 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
     if ((m & 0xe0) == 0xa0) return mp_need(v, 1 + (m & 0x1f));
     // fixarray
     if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
+        children += m & 0x0f;
+        return 1;
     }
     // fixmap
     if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
+        children += 2 * size_t(m & 0x0f);
+        return 1;
     }
 
     switch (m) {
@@ -86,31 +83,41 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
         // arrays
         case 0xdc: {
             if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
+            children += mp_read_be16(v.data()+1);
+            return 3;
         }
         case 0xdd: {
             if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
+            children += mp_read_be32(v.data()+1);
+            return 5;
         }
 
         // maps
         case 0xde: {
             if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+            children += 2 * size_t(mp_read_be16(v.data()+1));
+            return 3;
         }
         case 0xdf: {
             if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+            children += 2 * size_t(mp_read_be32(v.data()+1));
+            return 5;
         }
         default: break;
     }
     throw DeserializationError("msgpack: unsupported marker");
 }
 
+// Size of the whole element at the front of `v`; iterative, so that nesting
+// depth in the input does not consume stack.
+inline size_t mp_skip(std::span<const uint8_t> v) {
+    size_t off = 0;
+    for (size_t pending = 1; pending > 0; --pending) {
+        off += mp_skip_shallow(v.subspan(off), pending);
+    }
+    return off;
+}
+
 // ===== Deserializer ==========================================================
 class MsgPackDeserializer {
     // root ownership if constructed from bytes/vector
-- 
2.43.0


From fd0dda39d06dd58e2ab29a4e2191330010030aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 05/41] fix: msgpack: raise instead of wrapping integers
 outside the requested signedness

---
 include/zerialize/protocols/msgpack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index a8e1aaa..39f830a 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -319,7 +319,10 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u); }
         throw DeserializationError("not int");
     }
     
@@ -356,7 +359,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const auto val = asInt64();
+        if (val < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(val);
     }
     
     float asFloat() const {
-- 
2.43.0


From a6c86c08b1ad3b129b6898fa5a7394903619571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:09 +0000
Subject: [PATCH 06/41] fix: flex: raise instead of truncating integers that do
 not fit the requested width

---
 include/zerialize/protocols/flex.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..297c7d9 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <stdexcept>
 #include <iostream>
+#include <limits>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
 
@@ -118,6 +119,13 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    template<class To, class From>
+    static To narrow(From v) {
+        if (v < std::numeric_limits<To>::min() || v > std::numeric_limits<To>::max())
+            throw DeserializationError("integer out of range");
+        return static_cast<To>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,14 +230,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return narrow<int8_t>(ref_.AsInt64()); }
+    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return narrow<int16_t>(ref_.AsInt64()); }
+    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return narrow<int32_t>(ref_.AsInt64()); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return narrow<uint8_t>(ref_.AsUInt64()); }
+    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return narrow<uint16_t>(ref_.AsUInt64()); }
+    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return narrow<uint32_t>(ref_.AsUInt64()); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
-- 
2.43.0


From 2bdec727ffde855b500df8d99a771b535e469bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 07/41] fix: flex: read typed and fixed-size typed vectors
 instead of reporting them as empty arrays

---
 include/zerialize/protocols/flex.hpp | 33 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 297c7d9..747c807 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -126,6 +126,15 @@ protected:
         return static_cast<To>(v);
     }
 
+    // Call f(v) with the accessor matching the kind of vector `ref` is: generic,
+    // typed, or fixed-size typed (other producers may emit any of them).
+    template<class F>
+    static auto with_vector(const ::flexbuffers::Reference& ref, F&& f) {
+        if (ref.IsTypedVector())      return f(ref.AsTypedVector());
+        if (ref.IsFixedTypedVector()) return f(ref.AsFixedTypedVector());
+        return f(ref.AsVector());
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -203,13 +212,14 @@ protected:
             os << '}';
         } else if (r.IsAnyVector()) {
             os << t << " [\n";
-            auto v = r.AsVector();
-            for (size_t i = 0; i < v.size(); ++i) {
-                indent(os, pad + 2);
-                dump_rec(os, v[i], pad + 2);
-                if (i + 1 < v.size()) os << ',';
-                os << '\n';
-            }
+            with_vector(r, [&](const auto& v) {
+                for (size_t i = 0; i < v.size(); ++i) {
+                    indent(os, pad + 2);
+                    dump_rec(os, v[i], pad + 2);
+                    if (i + 1 < v.size()) os << ',';
+                    os << '\n';
+                }
+            });
             indent(os, pad);
             os << ']';
         } else {
@@ -308,7 +318,7 @@ public:
 
     std::size_t arraySize() const {
         require(isArray(), "not an array");
-        return ref_.AsVector().size();
+        return with_vector(ref_, [](const auto& v) -> std::size_t { return v.size(); });
     }
 
     // Declarations (defined after FlexValue is declared)
@@ -355,9 +365,10 @@ inline FlexValue FlexViewBase::operator[](std::string_view key) const {
 
 inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
     require(isArray(), "not an array");
-    auto v = ref_.AsVector();
-    require(idx < v.size(), "index out of bounds");
-    return FlexValue(v[idx]);
+    return with_vector(ref_, [&](const auto& v) {
+        require(idx < v.size(), "index out of bounds");
+        return FlexValue(v[idx]);
+    });
 }
 
 class FlexDeserializer : public FlexViewBase {
-- 
2.43.0


From 5b1f767bb389465efb5779baee0dec1b0e931b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 08/41] fix: zera: a copied owning deserializer reads its own
 bytes

---
 include/zerialize/protocols/zera.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 242bb77..da5da5a 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -522,6 +522,17 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // Copies of an owning deserializer must view their own bytes, not the original's.
+    ZeraDeserializer(const ZeraDeserializer& o) : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) {
+            view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+            init_from(view_);
+        }
+    }
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) { return *this = ZeraDeserializer(o); }
+    ZeraDeserializer(ZeraDeserializer&&) = default;
+    ZeraDeserializer& operator=(ZeraDeserializer&&) = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From 9e512faaca9d02aecfdf52e97812150188c547eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 09/41] fix: msgpack: a copied owning deserializer reads its
 own bytes

---
 include/zerialize/protocols/msgpack.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 39f830a..3d37882 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -233,6 +233,13 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // Copies of an owning deserializer must view their own bytes, not the original's.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_), view_(owned_.empty() ? o.view_ : std::span<const uint8_t>(owned_)) {}
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) { return *this = MsgPackDeserializer(o); }
+    MsgPackDeserializer(MsgPackDeserializer&&) = default;
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
-- 
2.43.0


From bb729100154d1540326134fe0a2fafc1c15acee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 10/41] fix: flex: a copied owning deserializer reads its own
 bytes

---
 include/zerialize/protocols/flex.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 747c807..9aa083b 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -383,6 +383,15 @@ protected:
     // No duplicate helpers here; FlexViewBase handles formatting/debug.
 
 public:
+    // Copies of an owning deserializer must view their own bytes, not the original's.
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+      }
+    FlexDeserializer& operator=(const FlexDeserializer& o) { return *this = FlexDeserializer(o); }
+    FlexDeserializer(FlexDeserializer&&) = default;
+    FlexDeserializer& operator=(FlexDeserializer&&) = default;
+
     // -------- constructors (owning) --------
     explicit FlexDeserializer(const std::vector<uint8_t>& buf)
       : FlexViewBase(), owned_(buf) {
-- 
2.43.0


From 6ecd4d96616a65c06e164ad82a75d77d1ea86ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 11/41] fix: zbuffer: reject empty deleters with
 invalid_argument instead of terminating

---
 include/zerialize/zbuffer.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..5a63875 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -97,6 +97,14 @@ private:
         ManagedPtr() = default;
     };
 
+    // Reject an empty deleter before anything owns the pointer (an owner without a
+    // callable deleter could only terminate when it is destroyed).
+    template<class D>
+    static D checked(D deleter) {
+        if (!deleter) throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
+        return deleter;
+    }
+
     // --- Variant holding the active storage strategy ---
     std::variant<Ownedvector, ManagedPtr> storage_;
 
@@ -115,14 +123,11 @@ public:
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
+        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, checked(std::move(deleter)))
     {
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
-            throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
-        }
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
@@ -132,7 +137,7 @@ public:
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
-            [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
+            [cd = checked(std::move(char_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) { // Avoid casting/deleting null
                     cd(reinterpret_cast<char*>(ptr_to_delete));
                 }
@@ -143,7 +148,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
-            [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
+            [vd = checked(std::move(void_deleter))](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
                 }
-- 
2.43.0


From 8afd7c55fc4043b6b8cdeab1bfa0c2f18c788dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 12/41] fix: zbuffer: a moved-from managed buffer reports no
 bytes

---
 include/zerialize/zbuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 5a63875..64e67d0 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -172,7 +172,7 @@ public:
             if constexpr (std::is_same_v<T, Ownedvector>) {
                 return storage_impl.size();
             } else if constexpr (std::is_same_v<T, ManagedPtr>) {
-                return storage_impl.count;
+                return storage_impl.ptr ? storage_impl.count : 0; // moved-from holds nothing
             } else {
                 return 0; // Should be unreachable
             }
-- 
2.43.0


From 8326797ea247f7b90c192f1f03e6e2da245512f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 13/41] fix: zbuffer: hexdump with zero bytes per row
 terminates

---
 include/zerialize/zbuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 64e67d0..d5a038b 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -248,6 +248,7 @@ public:
         if (!p || n == 0) {
             return "(empty)\n";
         }
+        if (bytes_per_row == 0) bytes_per_row = 16;
     
         // Save stream formatting
         std::ios::fmtflags f = os.flags();
-- 
2.43.0


From a40153bbc2fb65f2dc53012eb8046353e2732b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 14/41] fix: tensor: detect overflow when computing the
 expected payload size

---
 include/zerialize/tensor/eigen.hpp   | 4 ++++
 include/zerialize/tensor/xtensor.hpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..a8f4919 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,9 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    if (rows != 0 && cols > std::numeric_limits<std::size_t>::max() / sizeof(T) / rows) {
+        throw DeserializationError("matrix byte size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From 2dbe9070d31d75f4abc8f4656cfd5f6fa1a35ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 15/41] fix: builders own the temporaries they were given

---
 include/zerialize/zbuilders.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..6f6229f 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,9 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Capture temporaries by value and lvalues by reference, so that a stored
+    // builder does not refer to dead temporaries.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +92,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 1f8cbd0c6107139231a5e6abbd2abf216535b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:46 +0000
Subject: [PATCH 16/41] fix: translate: bound the recursion over the source
 document

---
 include/zerialize/translate.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 05f688c..1fb4ec4 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zerialize/concepts.hpp>
+#include <zerialize/errors.hpp>
 
 namespace zerialize {
 
@@ -29,8 +30,14 @@ namespace zerialize {
  */
 
 // ==== Generic bridge: Reader -> Writer ===============================
+// Deepest nesting write_value() follows. Readers of untrusted bytes may present
+// arbitrarily deep (or even self-referential) documents.
+inline constexpr std::size_t MaxTranslateDepth = 1000;
+
 template<class V, class W>
-inline void write_value(const V& v, W& w) {
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    if (depth > MaxTranslateDepth) throw DeserializationError("write_value: nesting too deep");
+
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
     if (v.isInt())       { w.int64(v.asInt64()); return; }
@@ -53,7 +60,7 @@ inline void write_value(const V& v, W& w) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w);
+            write_value(v[k], w, depth + 1);
         }
         w.end_map();
         return;
@@ -62,7 +69,7 @@ inline void write_value(const V& v, W& w) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
         w.end_array();
         return;
     }
-- 
2.43.0


From 48b042100b265bb011104163b9a4f5d8213e48cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:17 +0000
Subject: [PATCH 17/41] fix: tensor: serialize xtensor views and non-row-major
 arrays element by element

---
 include/zerialize/tensor/xtensor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..899f1ba 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,13 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // The wire form is dense and row-major; anything laid out differently (column-major
+    // arrays, strided or offset views) is brought into that form first.
+    if (t.layout() != layout_type::row_major || t.data_offset() != 0) {
+        const xarray<typename X::value_type, layout_type::row_major> dense(t);
+        serialize(dense, w);
+        return;
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From f38909304eebf2ef309d77c027bc69abe1580a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:17 +0000
Subject: [PATCH 18/41] fix: msgpack, flex: bound the recursion when printing
 nested values

---
 include/zerialize/protocols/flex.hpp    | 1 +
 include/zerialize/protocols/msgpack.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 9aa083b..d80cf2a 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -178,6 +178,7 @@ protected:
     }
 
     static void dump_rec(std::ostringstream& os, const ::flexbuffers::Reference& r, int pad) {
+        if (pad > 2000) { os << "..."; return; } // bound the recursion (1000 levels)
         auto t = type_code(r);
         if (r.IsNull()) {
             os << t << "|null";
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 3d37882..fd4148e 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -189,6 +189,7 @@ class MsgPackDeserializer {
     }
     static void dump(std::ostringstream& os, const MsgPackDeserializer& v, int pad) {
         auto ind = [&](int n){ for(int i=0;i<n;++i) os.put(' '); };
+        if (pad > 2000) { os << "..."; return; } // bound the recursion (1000 levels)
         if (v.isNull()) { os << "null: null"; return; }
         if (v.isBool()) { os << "bool: " << (v.asBool()?"true":"false"); return; }
         if (v.isInt())  { os << "int: "  << v.asInt64(); return; }
-- 
2.43.0


From a937be515a9914c94f72ba2239a1ae240d007198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:08 +0000
Subject: [PATCH 19/41] fix: msgpack: refuse element counts larger than the
 bytes present

---
 include/zerialize/protocols/msgpack.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index fd4148e..f93654c 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -143,20 +143,21 @@ class MsgPackDeserializer {
         if (m == 0xc6) { mp_need(v, 5); len = mp_read_be32(v.data()+1); mp_need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
+    // Every element takes at least one byte, so a count beyond the bytes present is refused here.
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
         mp_need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
+        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; mp_need(v, off + count); return; }
+        if (m == 0xdc) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; mp_need(v, off + count); return; }
+        if (m == 0xdd) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; mp_need(v, off + count); return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
         mp_need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
+        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; mp_need(v, off + 2 * count); return; }
+        if (m == 0xde) { mp_need(v, 3); count = mp_read_be16(v.data()+1); off = 3; mp_need(v, off + 2 * count); return; }
+        if (m == 0xdf) { mp_need(v, 5); count = mp_read_be32(v.data()+1); off = 5; mp_need(v, off + 2 * count); return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From 0561970663125aba6fd741e0bc419252ad4b63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:58 +0000
Subject: [PATCH 20/41] fix: flex writer read one byte past string and key
 views and stored it as their terminator

---
 include/zerialize/protocols/flex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index d80cf2a..c3c0c5e 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,8 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // FlexBuffers copies size()+1 bytes: it needs the terminator a view may lack.
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -91,7 +92,8 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // and, like String, copies the terminator a view may lack.
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From 4e3e09504a0ce29ba0489ff4ed4962f6f062b229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:57 +0000
Subject: [PATCH 21/41] fix: cbor integers above INT64_MAX were reported as
 signed and wrapped negative

---
 include/zerialize/protocols/cbor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..53176ff 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -229,7 +229,7 @@ public:
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-    bool isInt()    const { auto h = head(); return h.major==0 || h.major==1; }
+    bool isInt()    const { auto h = head(); return h.major==1 || (h.major==0 && h.val <= uint64_t(INT64_MAX)); }
     bool isUInt()   const { auto h = head(); return h.major==0; }
     bool isFloat()  const { auto h = head(); return h.major==7 && (h.addl==25 || h.addl==26 || h.addl==27); }
     bool isString() const { auto h = head(); return h.major==3; }
@@ -244,7 +244,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 out of range");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
-- 
2.43.0


From 44cce4c6d37c69e3bf6a6707d801c42c76528eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:57 +0000
Subject: [PATCH 22/41] fix: cbor accepted indefinite integers and stray
 breaks, and skipped simple(24) one byte too far

---
 include/zerialize/protocols/cbor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 53176ff..1224251 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -119,7 +119,7 @@ class CborDeserializer {
         else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
         else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
         else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
-        else if (h.addl == 31) { h.indefinite = true; }
+        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
@@ -177,8 +177,8 @@ class CborDeserializer {
                 if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
                 if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
                 if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
-                // simple/bool/null (no body): header only
+                ensure(h.addl < 28, "CBOR: reserved additional info or stray break");
+                // simple/bool/null (simple(24) includes its value byte in the header): header only
                 return q;
             default:
                 throw DeserializationError("CBOR: unknown major");
-- 
2.43.0


From 3674fce753c88084ee446b1d51ead738760d3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 23/41] fix: cbor float, string, key, chunk and array lengths
 were not checked against the bytes present

---
 include/zerialize/protocols/cbor.hpp | 42 ++++++++++++++++++----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 1224251..7d576cb 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -94,6 +94,11 @@ class CborDeserializer {
         bool indefinite;
     };
 
+    // The n bytes at q must be present.
+    void need(std::size_t q, uint64_t n, const char* msg) const {
+        ensure(q <= buf_.size() && n <= buf_.size() - q, msg);
+    }
+
     Head read_head(std::size_t p) const {
         ensure(p < buf_.size(), "CBOR: truncated");
         uint8_t b = buf_[p];
@@ -134,7 +139,7 @@ class CborDeserializer {
             case 2: // bstr
             case 3: // tstr
                 if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
+                    need(q, h.val, "CBOR: truncated string");
                     return q + static_cast<std::size_t>(h.val);
                 } else {
                     // chunks terminated by 0xFF
@@ -144,6 +149,7 @@ class CborDeserializer {
                         auto ch = read_head(q);
                         ensure(ch.major == h.major, "CBOR: wrong chunk type");
                         ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
+                        need(q + ch.hlen, ch.val, "CBOR: truncated chunk");
                         q += ch.hlen + static_cast<std::size_t>(ch.val);
                     }
                 }
@@ -263,6 +269,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
+        need(q, h.val, "CBOR: truncated float");
         if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
@@ -273,16 +280,16 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            need(q, h.val, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen; need(q, ch.val, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(ch.val));
                 q += ch.val;
             }
             return out;
@@ -291,15 +298,15 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        std::size_t q = pos_ + h.hlen; need(q, h.val, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; need(q, h.val, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -307,16 +314,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            need(q, h.val, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; need(q, ch.val, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -334,7 +341,8 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    need(q + kh.hlen, kh.val, "CBOR: truncated key");
+                    ksv = std::string_view(reinterpret_cast<const char*>(buf_.data() + q + kh.hlen), static_cast<std::size_t>(kh.val));
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -480,7 +488,11 @@ public:
     // ---- array interface ----
     std::size_t arraySize() const {
         auto h = head(); ensure(h.major==4, "CBOR: not an array");
-        if (!h.indefinite) return static_cast<std::size_t>(h.val);
+        if (!h.indefinite) {
+            // every element takes at least one byte
+            need(pos_ + h.hlen, h.val, "CBOR: array larger than the bytes present");
+            return static_cast<std::size_t>(h.val);
+        }
         std::size_t q = pos_ + h.hlen; std::size_t c=0; for(;;){ ensure(q<buf_.size(), "CBOR: trunc indef arr"); if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;
     }
     CborDeserializer operator[](std::size_t idx) const {
-- 
2.43.0


From a45762bbfec0d880ecd6cc4a5a298bdb882cf773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 24/41] fix: cbor key listing read out of bounds and never
 ended on indefinite maps

---
 include/zerialize/protocols/cbor.hpp | 51 ++++------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 7d576cb..924e918 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -385,51 +385,14 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
+            // Bounds-checked head and item length at p.
+            static Head read_head(std::span<const uint8_t> b, std::size_t p) { return CborDeserializer(b, p).head(); }
+            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) { return CborDeserializer(b, p).skip(p); }
+            static bool at_break(std::span<const uint8_t> b, std::size_t p) { ensure(p < b.size(), "CBOR: trunc indef map"); return b[p] == 0xFF; }
 
             reference operator*() const {
                 auto kh = read_head(buf, q);
-                if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
-                }
+                if (kh.major==3 && !kh.indefinite) return CborDeserializer(buf, q).asStringView();
                 // fallback: materialize
                 CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
                 scratch = v.asString();
@@ -437,7 +400,7 @@ public:
             }
             iterator& operator++() {
                 if (indefinite) {
-                    if (buf[q]==0xFF) return *this; // already at end
+                    if (at_break(buf, q)) return *this; // already at end
                     q = skip(buf,q); // key
                     q = skip(buf,q); // value
                 } else {
@@ -461,7 +424,7 @@ public:
                 std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ if (iterator::at_break(buf, q)){ it.q=q; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
-- 
2.43.0


From 93fd8ac363d8512b6de0ff9307f48e830de8bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 25/41] fix: cbor skipping of deeply nested bytes exhausted the
 stack

---
 include/zerialize/protocols/cbor.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 924e918..c08b2a7 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -129,7 +129,11 @@ class CborDeserializer {
         return h;
     }
 
-    std::size_t skip(std::size_t p) const {
+    // Deepest nesting skip() and to_string() follow in untrusted bytes.
+    static constexpr int MaxDepth = 1000;
+
+    std::size_t skip(std::size_t p, int depth = 0) const {
+        ensure(depth <= MaxDepth, "CBOR: nesting too deep");
         auto h = read_head(p);
         std::size_t q = p + h.hlen;
         switch (h.major) {
@@ -155,30 +159,30 @@ class CborDeserializer {
                 }
             case 4: // array
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
+                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q, depth + 1);
                     return q;
                 } else {
                     for (;;) {
                         ensure(q < buf_.size(), "CBOR: truncated indef array");
                         if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+                        q = skip(q, depth + 1);
                     }
                 }
             case 5: // map
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
+                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q, depth + 1); q = skip(q, depth + 1); }
                     return q;
                 } else {
                     for (;;) {
                         ensure(q < buf_.size(), "CBOR: truncated indef map");
                         if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                        q = skip(q, depth + 1); // key
+                        q = skip(q, depth + 1); // value
                     }
                 }
             case 6: // tag
                 // skip tag then the tagged value
-                return skip(q);
+                return skip(q, depth + 1);
             case 7: // floats/simple
                 if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
                 if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-- 
2.43.0


From a580dd156f65dcabeaa2056caaff5aa25e9556f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 26/41] fix: copies of an owning cbor deserializer read the
 original's freed bytes

---
 include/zerialize/protocols/cbor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index c08b2a7..1fcc011 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -217,6 +217,17 @@ class CborDeserializer {
 public:
     // ---- ctors ----
     CborDeserializer() = default;
+
+    // Copies of an owning deserializer must view their own bytes, not the original's.
+    CborDeserializer(const CborDeserializer& o)
+        : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_)
+    {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer& operator=(const CborDeserializer& o) { return *this = CborDeserializer(o); }
+    CborDeserializer(CborDeserializer&&) = default;
+    CborDeserializer& operator=(CborDeserializer&&) = default;
+
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
         : owned_(buf.begin(), buf.end())
-- 
2.43.0


From 40186e6f69d7662ba6ea2d3733e8c63e2d5ad9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:58 +0000
Subject: [PATCH 27/41] fix: cbor to_string misread nested, indefinite and
 empty containers and truncated strings

---
 include/zerialize/protocols/cbor.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 1fcc011..a63f994 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -501,24 +501,26 @@ private:
         }
     }
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
+        if (pad > 2 * MaxDepth) { os << "..."; return; }
         auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
         if (h.major==0) { os << t << '|' << h.val; }
-        else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
+        else if (h.major==1) { if (h.val <= uint64_t(INT64_MAX)) os << t << '|' << CborDeserializer(buf_, p).asInt64(); else os << t << "|-1-" << h.val; }
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
-        else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
-        } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
-            os << t << "[size=" << total << "]";
-        } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
-        } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
-            indent(os, pad); os << '}';
+        else if (h.major==3) { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+        else if (h.major==2) { os << t << "[size=" << CborDeserializer(buf_, p).asBlobVec().size() << "]"; }
+        else if (h.major==4 || h.major==5) {
+            os << t << (h.major==4 ? " [\n" : " {\n");
+            for (uint64_t i = 0; h.indefinite || i < h.val; ++i) {
+                ensure(q < buf_.size(), "CBOR: truncated");
+                if (h.indefinite && buf_[q] == 0xFF) break;
+                if (i) os << ",\n";
+                indent(os, pad+2);
+                if (h.major==5) { os << '"' << CborDeserializer(buf_, q).asString() << "\": "; q = skip(q); }
+                dump_rec(os, q, pad+2); q = skip(q);
+            }
+            os << "\n"; indent(os, pad); os << (h.major==4 ? ']' : '}');
         } else {
             os << t;
         }
-- 
2.43.0


From 4dfc1a7086dddcd47f157db1f942fed2eb9321d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:31 +0000
Subject: [PATCH 28/41] fix: json integer accessors truncated and wrapped
 out-of-range values

---
 include/zerialize/protocols/json.hpp | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..9666b21 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -5,6 +5,7 @@
 #include <span>
 #include <set>
 #include <iterator>
+#include <limits>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
@@ -93,6 +94,19 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // integers above INT64_MAX are only readable as unsigned
+    static bool fits_int64(yyjson_val* v) {
+        return yyjson_is_int(v) &&
+            !(yyjson_is_uint(v) && yyjson_get_uint(v) > std::uint64_t(std::numeric_limits<std::int64_t>::max()));
+    }
+
+    template<class To, class From>
+    static To narrow(From v) {
+        if (v < std::numeric_limits<To>::min() || v > std::numeric_limits<To>::max())
+            throw DeserializationError("integer out of range");
+        return static_cast<To>(v);
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -141,7 +155,7 @@ public:
     // --- predicates (strict bool) ---
     bool isNull()   const { return cur_ && yyjson_is_null(cur_); }
     bool isBool()   const { return cur_ && yyjson_is_bool(cur_); }
-    bool isInt()    const { return cur_ && yyjson_is_int(cur_); }
+    bool isInt()    const { return cur_ && fits_int64(cur_); }
     bool isUInt()   const { return cur_ && yyjson_is_uint(cur_); }
     bool isFloat()  const { return cur_ && yyjson_is_real(cur_); }
     bool isString() const { return cur_ && yyjson_is_str(cur_); }
@@ -156,14 +170,14 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
+    int64_t  asInt64()  const { check(fits_int64,  "signed integer"); return yyjson_get_sint(cur_); }
+
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
-- 
2.43.0


From 890ca44e8b5377999b3093a15818f98af28518fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:31 +0000
Subject: [PATCH 29/41] fix: json writer rejected the empty key as a missing
 one

---
 include/zerialize/protocols/json.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 9666b21..93fe569 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -6,6 +6,7 @@
 #include <set>
 #include <iterator>
 #include <limits>
+#include <optional>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
@@ -255,7 +256,7 @@ struct RootSerializer {
     struct Ctx {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
-        std::string pending_key;     // for objects: set by key(), consumed by next value
+        std::optional<std::string> pending_key; // for objects: set by key(), consumed by next value
     };
     std::vector<Ctx> st;
 
@@ -318,7 +319,7 @@ struct Serializer {
         yyjson_mut_val* arr = yyjson_mut_arr(doc());
         if (!arr) throw std::bad_alloc{};
         push_value(arr);                       // attach to parent/root first
-        r->st.push_back({RootSerializer::Ctx::Arr, arr, {}}); // then track context
+        r->st.push_back({RootSerializer::Ctx::Arr, arr, std::nullopt}); // then track context
     }
     void end_array() {
         ensure_in(RootSerializer::Ctx::Arr, "end_array");
@@ -329,11 +330,11 @@ struct Serializer {
         yyjson_mut_val* obj = yyjson_mut_obj(doc());
         if (!obj) throw std::bad_alloc{};
         push_value(obj);
-        r->st.push_back({RootSerializer::Ctx::Obj, obj, {}});
+        r->st.push_back({RootSerializer::Ctx::Obj, obj, std::nullopt});
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().pending_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -341,9 +342,9 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.pending_key)
             throw std::logic_error("key() called twice without value");
-        c.pending_key.assign(k.data(), k.size());
+        c.pending_key.emplace(k);
      }
 
 private:
@@ -369,28 +370,28 @@ private:
 
             // current: c.pending_key holds a std::string we set in key()
             // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
     
             // optional sanity check during debug
             #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
+            if (c.pending_key->find('\0') != std::string::npos) {
                 throw std::logic_error("embedded NUL in key() input");
             }
             #endif
     
             // EITHER use the convenience helper if your yyjson has it:
             #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
+            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key->c_str(), v))
                 throw std::bad_alloc{};
             #else
             // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key->c_str());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
             #endif
     
-            c.pending_key.clear();
+            c.pending_key.reset();
     }
     }
 
-- 
2.43.0


From b7a912fea8584eca550bed356b6cb6daa5ad7822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:31 +0000
Subject: [PATCH 30/41] fix: json writer kept pointers into strings the caller
 may have released before finish()

---
 include/zerialize/protocols/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 93fe569..895663c 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -299,7 +299,8 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        // copied: the document is written out only at finish()
+        push_value(yyjson_mut_strncpy(doc(), sv.data() ? sv.data() : "", sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From 5a9198afb15a140408fcaf4d50f76120affd1468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:31 +0000
Subject: [PATCH 31/41] fix: json writer leaked its document when writing was
 abandoned

---
 include/zerialize/protocols/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 895663c..00a4a33 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -263,6 +263,9 @@ struct RootSerializer {
     RootSerializer() : doc(yyjson_mut_doc_new(nullptr)) {
         if (!doc) throw std::bad_alloc{};
     }
+    ~RootSerializer() { if (doc) yyjson_mut_doc_free(doc); }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
-- 
2.43.0


From f9d4d6bf3053ec83bbdcdc146c6517c318a84be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:00 +0000
Subject: [PATCH 32/41] fix: json writer truncated keys at an embedded NUL (or
 refused them in debug builds)

---
 include/zerialize/protocols/json.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 00a4a33..dd2b28c 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -377,20 +377,13 @@ private:
             if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
     
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key->find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
             // EITHER use the convenience helper if your yyjson has it:
             #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
             if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key->c_str(), v))
                 throw std::bad_alloc{};
             #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key->c_str());
+            // OR the portable two-step using a *cpy* string node (sized: keys may contain NULs):
+            yyjson_mut_val* k = yyjson_mut_strncpy(doc(), c.pending_key->data(), c.pending_key->size());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
             #endif
-- 
2.43.0


From 2b663452ec55f7a86dbb70017a499306e9d61e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:00 +0000
Subject: [PATCH 33/41] fix: json lookup of the empty key through a null
 string_view never found it

---
 include/zerialize/protocols/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index dd2b28c..0bd900e 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -203,7 +203,7 @@ public:
     // --- map interface ---
     bool contains(std::string_view key) const {
         if (!isMap()) return false;
-        return yyjson_obj_getn(cur_, key.data(), key.size()) != nullptr;
+        return yyjson_obj_getn(cur_, key.data() ? key.data() : "", key.size()) != nullptr;
     }
 
     KeysView mapKeys() const {
@@ -213,7 +213,7 @@ public:
 
     JsonDeserializer operator[](std::string_view key) const {
         check(yyjson_is_obj, "map/object");
-        yyjson_val* v = yyjson_obj_getn(cur_, key.data(), key.size());
+        yyjson_val* v = yyjson_obj_getn(cur_, key.data() ? key.data() : "", key.size());
         if (!v) throw DeserializationError("Key not found: " + std::string(key));
         return JsonDeserializer(v, doc_); // view
     }
-- 
2.43.0


From a9cf44763c2ccf76e8589e2e0259e188dd5ee3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:22 +0000
Subject: [PATCH 34/41] fix: containers could not nest in any order (a vector
 of maps did not compile)

---
 include/zerialize/internals/serializers.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/zerialize/internals/serializers.hpp b/include/zerialize/internals/serializers.hpp
index ad2b73e..3cb5371 100644
--- a/include/zerialize/internals/serializers.hpp
+++ b/include/zerialize/internals/serializers.hpp
@@ -53,6 +53,14 @@ template<Writer W> void serialize(const std::vector<std::byte>& v, W& w) { w.bin
 template<Writer W> void serialize(std::span<const std::byte> v, W& w) { w.binary(v); }
 
 // Containers
+// Declared up front so that they can nest in any order (e.g. a vector of maps).
+template<Writer W, class T> void serialize(const std::list<T>& l, W& w);
+template<Writer W, class T> void serialize(const std::vector<T>& vec, W& w);
+template<Writer W, class T, size_t N> void serialize(const std::array<T, N>& arr, W& w);
+template<Writer W, class T> void serialize(std::initializer_list<T> list, W& w);
+template<Writer W, class K, class V> void serialize(const std::map<K, V>& map, W& w);
+template<Writer W, class K, class V> void serialize(const std::unordered_map<K, V>& map, W& w);
+
 template<Writer W, class T>
 void serialize(const std::list<T>& l, W& w) {
     w.begin_array(l.size());
-- 
2.43.0


From 2e640a9c88cbb95655d4eeb49ee2f1fd5a92220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 35/41] fix: xtensor dimensions above 2^32-1 were silently
 truncated

---
 include/zerialize/tensor/utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..e083c9f 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -78,7 +78,12 @@ inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) {
+            if (static_cast<std::uint64_t>(x) > std::numeric_limits<TensorShapeElement>::max()) {
+                throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+            }
+            return static_cast<TensorShapeElement>(x);
+        });
     return shape;
 }
 
-- 
2.43.0


From 98bc307195030e4f63a6ccdca392df84ec415d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:36 +0000
Subject: [PATCH 36/41] fix: empty xtensors with huge other dimensions
 overflowed in the stride computation

---
 include/zerialize/tensor/xtensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 899f1ba..3363c91 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -70,7 +70,7 @@ public:
     // If the view is not zero-copy, it adapts the owned array storage.
     auto tensor() const {
         T* ptr = owned_ ? const_cast<T*>(owned_->data()) : const_cast<T*>(reinterpret_cast<const T*>(bytes_.data()));
-        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_);
+        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_as_sizet());
     }
 
     // Returns an owning xarray (copying if this is backed by a span).
@@ -98,17 +98,23 @@ private:
 
 // Multiply all dimensions (with overflow checking) to get total element count.
 // This is used for validating that the blob size matches prod(shape) * sizeof(T).
+// The non-empty dimensions must have a representable product even if another one is zero:
+// xtensor multiplies them when it computes strides.
 inline std::size_t checked_element_count(const TensorShape& shape) {
     std::size_t count = 1;
+    bool empty = false;
     for (auto d : shape) {
         const std::size_t dim = static_cast<std::size_t>(d);
-        if (dim == 0) return 0;
-        if (count > (std::numeric_limits<std::size_t>::max() / dim)) {
+        if (dim == 0) {
+            empty = true;
+            continue;
+        }
+        if (count > (static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / dim)) {
             throw DeserializationError("tensor element count overflow");
         }
         count *= dim;
     }
-    return count;
+    return empty ? 0 : count;
 }
 
 // Normalize the protocol-specific blob representation into a `std::span<const std::byte>`.
-- 
2.43.0


From 055d196d9066cd9bd70427ce64ace27d5cc1e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:51 +0000
Subject: [PATCH 37/41] fix: msgpack writer ignored a buffer that could not
 grow and returned a truncated document

---
 include/zerialize/protocols/msgpack.hpp | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index f93654c..34f733b 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -2,6 +2,7 @@
 #include <cstdint>
 #include <cstddef>
 #include <cstring>
+#include <new>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -548,30 +549,33 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // msgpack-c reports a buffer that could not grow through its return value.
+    static void packed(int rc) { if (rc != 0) throw std::bad_alloc{}; }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
     // primitives
-    void null()                 { msgpack_pack_nil(&pk_); }
-    void boolean(bool v)        { v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_); }
-    void int64(std::int64_t v)  { msgpack_pack_int64(&pk_, v); }
-    void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
-    void double_(double v)      { msgpack_pack_double(&pk_, v); }
+    void null()                 { packed(msgpack_pack_nil(&pk_)); }
+    void boolean(bool v)        { packed(v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_)); }
+    void int64(std::int64_t v)  { packed(msgpack_pack_int64(&pk_, v)); }
+    void uint64(std::uint64_t v){ packed(msgpack_pack_uint64(&pk_, v)); }
+    void double_(double v)      { packed(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
-        msgpack_pack_str_body(&pk_, sv.data(), sv.size());
+        packed(msgpack_pack_str(&pk_, sv.size()));
+        packed(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
-        msgpack_pack_bin_body(&pk_, p, b.size());
+        packed(msgpack_pack_bin(&pk_, b.size()));
+        packed(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { packed(msgpack_pack_array(&pk_, n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { packed(msgpack_pack_map(&pk_, n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From d1c8c1a841091c68b6586a6c7f6cc52650a98eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:52 +0000
Subject: [PATCH 38/41] fix: msgpack writer stored string, blob and container
 sizes modulo 2^32

---
 include/zerialize/protocols/msgpack.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 34f733b..908cb6d 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -11,6 +11,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -552,6 +553,13 @@ class MsgPackSerializer {
 
     // msgpack-c reports a buffer that could not grow through its return value.
     static void packed(int rc) { if (rc != 0) throw std::bad_alloc{}; }
+
+    // Sizes are stored in at most 32 bits; msgpack-c would keep a larger one modulo 2^32.
+    static std::size_t sized(std::size_t n) {
+        if (n > std::numeric_limits<std::uint32_t>::max())
+            throw SerializationError("msgpack: size exceeds 32 bits");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
@@ -562,20 +570,20 @@ public:
     void uint64(std::uint64_t v){ packed(msgpack_pack_uint64(&pk_, v)); }
     void double_(double v)      { packed(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        packed(msgpack_pack_str(&pk_, sv.size()));
+        packed(msgpack_pack_str(&pk_, sized(sv.size())));
         packed(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        packed(msgpack_pack_bin(&pk_, b.size()));
+        packed(msgpack_pack_bin(&pk_, sized(b.size())));
         packed(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { packed(msgpack_pack_array(&pk_, n)); }
+    void begin_array(std::size_t n) { packed(msgpack_pack_array(&pk_, sized(n))); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { packed(msgpack_pack_map(&pk_, n)); }
+    void begin_map(std::size_t n)   { packed(msgpack_pack_map(&pk_, sized(n))); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From a0260356caf18895479bf3a9f4a7339a855efcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:33 +0000
Subject: [PATCH 39/41] fix: finished MessagePack and JSON bytes leaked when
 adopting them failed

---
 include/zerialize/protocols/json.hpp    | 12 ++++++++----
 include/zerialize/protocols/msgpack.hpp |  7 +++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 0bd900e..5af5045 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -9,6 +9,8 @@
 #include <optional>
 #include <cstddef>
 #include <cstdint>
+#include <cstdlib>
+#include <memory>
 #include <type_traits>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
@@ -236,9 +238,8 @@ public:
         size_t len = 0;
         yyjson_write_flag flg = pretty ? YYJSON_WRITE_PRETTY : 0;
         char* s = yyjson_val_write(cur_, flg, &len);
-        std::string out = s ? std::string(s, len) : "(yyjson_val_write failed)";
-        if (s) free(s);
-        return out;
+        std::unique_ptr<char, void (*)(void*)> guard(s, std::free);
+        return s ? std::string(s, len) : "(yyjson_val_write failed)";
     }
 
     // expose raw (if needed for advanced ops)
@@ -286,7 +287,10 @@ struct RootSerializer {
         // Hand ownership directly to ZBuffer to avoid a copy.
         yyjson_mut_doc_free(doc);
         doc = nullptr;
-        return ZBuffer(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        std::unique_ptr<char, void (*)(void*)> guard(s, std::free);
+        ZBuffer out(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        guard.release();
+        return out;
     }
 };
 
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 908cb6d..3ab1c5a 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -540,11 +540,10 @@ public:
 
     ZBuffer finish() {
         if (sbuf.size == 0) return ZBuffer();
-        // steal buffer
-        size_t n = sbuf.size;
-        char*  d = sbuf.data;
+        // steal buffer (only once the result owns it)
+        ZBuffer out(sbuf.data, sbuf.size, ZBuffer::Deleters::Free);
         sbuf.data = nullptr; sbuf.size = 0; sbuf.alloc = 0;
-        return ZBuffer(d, n, ZBuffer::Deleters::Free);
+        return out;
     }
 };
 
-- 
2.43.0


From 52d5f23e925c61ea94c05d784b33908fa16b96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:07 +0000
Subject: [PATCH 40/41] fix: tensors stored as maps could not be read
 (isTensor<T, true> did not compile)

---
 include/zerialize/tensor/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index e083c9f..4806bd8 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -144,11 +144,10 @@ template <typename T, bool TensorIsMap=false>
 bool isTensor(const Reader auto& buf) {
     if constexpr (TensorIsMap) {
         if (!buf.isMap()) return false;
-        std::set<std::string_view> keys = buf.mapKeys();
         return 
-            keys.contains(ShapeKey) && buf[ShapeKey].isArray() && 
-            keys.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
-            keys.contains(DataKey) && buf[DataKey].isBlob();
+            buf.contains(ShapeKey) && buf[ShapeKey].isArray() && 
+            buf.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
+            buf.contains(DataKey) && buf[DataKey].isBlob();
     } else {
         if (!buf.isArray()) return false;
         if (buf.arraySize() < 3) return false;
-- 
2.43.0


From 02b957fd06191e0bc536ab91ba573afd779ad884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 41/41] fix: the Flex writer stored keys with an embedded NUL
 cut short

---
 include/zerialize/protocols/flex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index c3c0c5e..369d823 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -91,6 +91,9 @@ struct Serializer {
     }
 
     void key(std::string_view k) {
+        // FlexBuffers keys are NUL-terminated: a NUL inside one would cut it short.
+        if (k.find('\0') != std::string_view::npos)
+            throw SerializationError("flex: a key cannot contain a NUL character");
         // FlexBuffers requires a key immediately before its value
         // and, like String, copies the terminator a view may lack.
         r->fbb.Key(std::string(k));
-- 
2.43.0

